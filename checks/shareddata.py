"""C05: data shared between threads."""
import vf


def expand(t):
    out = []
    for e in t:
        if e["op"] == "freerun" and e["out"]["e"] == "ok":
            out += e["out"]["v"]
        else:
            out.append({"op": e["out"]["e"], "t": 0, "k": "R", "v": 0})
    return out


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCSharedData"))
    src = [vf.VERIF + "/harness/shareddata.cpp"]
    exe = vf.build("shareddata", src)
    sim = vf.simulate("MCSharedData", "SimSharedData.cfg",
                      200 if vf.THOROUGH else 64, 60)
    vf.conformance(c, "TraceSharedData", exe, sim,
                   "schedules generated from the model", timeout=300)
    tsan = vf.build("shareddata_tsan", src, flags=vf.TSAN)
    r = vf.rng("free")
    for label, binary in (("free running threads", exe),
                          ("free running threads, race detector", tsan)):
        ops = [[{"op": "freerun", "threads": r.choice([2, 3, 4, 6]),
                 "iters": 60, "seed": r.randint(1, 10**6)}]
               for _ in range(60 if vf.THOROUGH else 16)]
        free_conformance(c, binary, ops, label)
    c.write()


def free_conformance(c, binary, ops, label):
    for attempt in range(12):
        traces = vf.run_traces(binary, ops, timeout=200, par=4)
        ex = [expand(t) for t in traces]
        bad = vf.validate("SharedDataLog", ex)
        if bad is None:
            if attempt == 0:
                c.cov["traces_validated_against_impl"] += len(ex)
                c.cov.setdefault("conformance", []).append(
                    {"label": label, "spec": "SharedDataLog",
                     "traces": len(ex), "events": sum(map(len, ex)),
                     "ops": vf.opcount(ex)})
                vf.log(label, len(ex), "traces", sum(map(len, ex)), "events")
                return
            continue
        if attempt == 0:
            first = bad
            continue
        i = bad["tid"]
        if i is None:
            i = vf.locate_stuck("SharedDataLog", ex, None, 300)
        n = longest_prefix(ex[i])
        c.violation("%s: the recorded log is not a behaviour of SharedDataLog: "
                    "event %d %s is impossible after\n%s\n%s" %
                    (label, n, ex[i][n] if n < len(ex[i]) else "",
                     ex[i][max(0, n - 12):n], bad["text"]),
                    {"ops": ops[i], "log": ex[i][:n + 1],
                     "stderr": traces[i][-1].get("stderr")})
    raise vf.ToolError("rejection did not repeat: " + first["text"])


def longest_prefix(t):
    lo, hi = 0, len(t)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if vf.validate("SharedDataLog", [t[:mid]], workers=1) is None:
            lo = mid
        else:
            hi = mid - 1
    return lo
