"""C09: durations and dates."""
import vf

# what is not initialised by the code has a value that no test expects
FLAGS = vf.ASAN + ["-ftrivial-auto-var-init=pattern"]


UNITS = {"ns": 1, "us": 10**3, "ms": 10**6, "s": 10**9, "mn": 60 * 10**9,
         "h": 3600 * 10**9, "d": 86400 * 10**9, "w": 7 * 86400 * 10**9}


def triple(n):
    d, r = divmod(n, 86400 * 10**9)
    return [d, r // 10**9, r % 10**9]


def named(t):
    """nested records are written as operations"""
    for o in t:
        if isinstance(o.get("c"), dict):
            o["c"]["op"] = "c"
    return t


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCTimes"))
    exe = vf.build("times", [vf.VERIF + "/harness/times.cpp"] +
                   vf.sdk_sources(), FLAGS)
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TraceTimes", exe,
                   [named(t) for t in
                    vf.simulate("MCTimes", "SimTimes.cfg", 600 * k, 40,
                                timeout=600)],
                   "behaviours generated from the model", timeout=120)
    # a constant duration, each unit
    four = [{"op": "dset", "how": "made", "a": [0, 0, 4]}]
    traces, known = [], 0
    for u, n in UNITS.items():
        t = four + [{"op": "dtoc", "u": u}]
        r = vf.run_traces(exe, [t])[0]
        if "const-chrono" in c.findings and u != "ns" and \
                r[-1]["out"] == {"e": "ok", "v": triple(4 * n)}:
            known = 1
        else:
            traces.append(t)
    vf.conformance(c, "TraceTimes", exe, traces, "constant durations")
    if known:
        print("KNOWN-FINDING: property=%s %s" %
              (prop, c.findings["const-chrono"]), flush=True)
    c.write()
