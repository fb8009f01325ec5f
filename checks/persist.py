"""C27: values stored to and restored from files."""
import vf


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCPersist", timeout=600))
    exe = vf.build("persist", [vf.VERIF + "/harness/persist.cpp"] +
                   vf.sdk_sources(), vf.ASAN)
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TracePersist", exe,
                   vf.simulate("MCPersist", "SimPersist.cfg", 600 * k, 40),
                   "behaviours generated from the model", timeout=60)
    c.write()
