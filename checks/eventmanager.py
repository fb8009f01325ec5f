"""C15: event manager."""
import vf

NAMES = ["a", "b", "c", "A", "a ", "aa", "SMP_EnterStandby", "SMP_",
         "SMP_PostSimTimeChange", "SMP_EnterAborting", "x" * 300]
EPS = ["e1", "e2", "e3", "e4"]


def gen(r, n, depth):
    for _ in range(n):
        known = [19]
        dense = r.random() < 0.5  # most calls about the same few events

        def ident():
            x = r.random()
            if x < 0.05:
                return r.choice([-1, 0, 999, 2**40])
            if dense:
                return r.choice([13, 20, 20, 21])
            return r.randrange(1, known[0] + 2)

        def act():
            x = r.random()
            if x < 0.2:
                known[0] += 1
                return {"op": "query", "n": r.choice(NAMES) if r.random() < .9
                        else ""}
            if x < 0.5:
                return {"op": "sub", "id": ident(), "ep": r.choice(EPS)}
            if x < 0.65:
                return {"op": "unsub", "id": ident(), "ep": r.choice(EPS)}
            return {"op": "emit", "id": ident()}

        t = [{"op": "query", "n": "a"}]
        while len(t) < depth:
            if r.random() < 0.2:
                t.append({"op": "script", "ep": r.choice(EPS), "acts": [
                    {"op": "throw"} if r.random() < 0.03 else act()
                    for _ in range(r.randrange(0, 4))]})
            else:
                t.append(act())
        yield t


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCEventManager", timeout=600,
                               coverage=False))
    srcs = [vf.VERIF + "/harness/eventmanager.cpp"] + vf.sdk_sources()
    exe = vf.build("eventmanager", srcs)
    k = 8 if vf.THOROUGH else 1
    vf.conformance(c, "TraceEventManager", exe,
                   vf.simulate("MCEventManager", "SimEventManager.cfg",
                               300 * k, 40),
                   "behaviours generated from the model", timeout=60)
    vf.conformance(c, "TraceEventManager", exe,
                   list(gen(vf.rng("events"), 600 * k, 50)),
                   "random histories", timeout=60)
    tsan = vf.build("eventmanager_tsan", srcs,
                    [f for f in vf.TSAN] + ["-O1"])
    races = [[{"op": "race", "threads": 2 + i % 3, "names": 1000}]
             for i in range(16 * k)]
    vf.conformance(c, "TraceEventManager", exe, races, "concurrent use",
                   timeout=100, par=4)
    vf.conformance(c, "TraceEventManager", tsan, races[:8 * k],
                   "concurrent use, data races detected", timeout=100, par=4)
    c.write()
