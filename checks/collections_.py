"""C26: collections of named objects."""
import vf


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCCollections", coverage=False))
    exe = vf.build("collections", [vf.VERIF + "/harness/collections.cpp"] +
                   vf.sdk_sources())
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TraceCollections", exe,
                   vf.simulate("MCCollections", "SimCollections.cfg",
                               500 * k, 40),
                   "behaviours generated from the model", timeout=60)
    c.write()
