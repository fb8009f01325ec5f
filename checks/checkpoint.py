"""C22: storing and restoring a simulation."""
import vf


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCCheckpoint", timeout=600, coverage=False))
    exe = vf.build("checkpoint", [vf.VERIF + "/harness/checkpoint.cpp"] +
                   vf.sdk_sources())
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TraceCheckpoint", exe,
                   vf.simulate("MCCheckpoint", "SimCheckpoint.cfg", 400 * k,
                               40),
                   "behaviours generated from the model", timeout=60)
    vf.conformance(c, "TraceCheckpoint", exe,
                   [[{"op": "zulu", "mode": m, "late": late}]
                    for m in ("fresh", "stay", "remove", "moved")
                    for late in (False, True) if m != "fresh" or not late],
                   "zulu time events", timeout=60, timed=True)
    c.write()
