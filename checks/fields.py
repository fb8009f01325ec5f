"""C21: fields, their values, forcing and data flow."""
import vf


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCFields", timeout=600))
    exe = vf.build("fields", [vf.VERIF + "/harness/fields.cpp"] +
                   vf.sdk_sources(), vf.ASAN)
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TraceFields", exe,
                   vf.simulate("MCFields", "SimFields.cfg", 400 * k, 40),
                   "behaviours generated from the model", timeout=60)
    c.write()
