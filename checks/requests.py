"""C28: requests."""
import vf


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCRequests"))
    exe = vf.build("requests", [vf.VERIF + "/harness/requests.cpp"] +
                   vf.sdk_sources(), vf.ASAN)
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TraceRequests", exe,
                   vf.simulate("MCRequests", "SimRequests.cfg",
                               1200 * k, 51),
                   "behaviours generated from the model", timeout=60)
    c.write()
