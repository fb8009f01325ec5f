"""C20: event sources and event sinks, entry points and failures."""
import vf


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCSignals", timeout=600))
    if vf.THOROUGH:  # two sinks with something to do
        c.add_model(vf.model_check("MCSignals", "MCSignals2.cfg"))
    exe = vf.build("signals", [vf.VERIF + "/harness/signals.cpp"] +
                   vf.sdk_sources(), vf.ASAN)
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TraceSignals", exe,
                   vf.simulate("MCSignals", "SimSignals.cfg", 600 * k, 50),
                   "behaviours generated from the model", timeout=60)
    vf.conformance(c, "TraceSignals", exe,
                   vf.simulate("MCSignals", "SimSignalObjects.cfg", 200 * k,
                               50),
                   "entry points and failures", timeout=60)
    c.write()
