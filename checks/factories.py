"""C25: factories."""
import vf


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCFactories"))
    exe = vf.build("factories", [vf.VERIF + "/harness/factories.cpp"] +
                   vf.sdk_sources())
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TraceFactories", exe,
                   vf.simulate("MCFactories", "SimFactories.cfg", 500 * k, 40),
                   "behaviours generated from the model", timeout=60)
    c.write()
