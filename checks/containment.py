"""C19: containers and references."""
import vf

SLOTS = ["m1", "m2", "m3", "m4", "m5", "m6"]
NAMES = ["a", "b", "c", "d", "e"] * 3 + ["ep", "src", "snk", "fail", "fld",
                                         "op", "prop", "A"]


def gen(r, n, depth):
    for _ in range(n):
        t = []
        cts = ["c1", "c2", "c3"]

        def c():
            return r.choice(SLOTS) if r.random() < 0.96 else "null"

        def act(nested):
            x = r.random()
            if x < 0.25:
                return {"op": "add", "x": r.choice(cts), "c": c()}
            if x < 0.55:
                return {"op": "del", "c": c(), "x": r.choice(
                    ["c1", "c3"] if nested else cts)}
            if x < 0.75:
                return {"op": "ref", "x": r.choice(["r1", "r2"]), "c": c()}
            if x < 0.9:
                return {"op": "unref", "x": r.choice(["r1", "r2"]), "c": c()}
            if nested and x < 0.95:
                return {"op": "throw"}
            return {"op": r.choice(["unlink", "connect"]),
                    "c": r.choice(SLOTS)}

        def create():
            return {"op": "create", "c": r.choice(SLOTS),
                    "n": r.choice(NAMES),
                    "k": r.choice(["model", "special", "special", "service"]),
                    "p": r.choice(["r"] * 8 + ["o", "none"])}

        for s in SLOTS:
            if r.random() < 0.7:
                t.append(dict(create(), c=s))
                t.append({"op": "add", "x": r.choice(cts), "c": s})
        while len(t) < depth:
            x = r.random()
            if x < 0.2:
                t.append(create())
            elif x < 0.3:
                t.append({"op": "script", "c": r.choice(SLOTS), "acts": [
                    act(True) for _ in range(r.randrange(0, 4))]})
            elif x < 0.31:
                t.append({"op": "publish"})
            elif x < 0.45:
                t.append({"op": "connect", "c": r.choice(SLOTS)})
            else:
                t.append(act(False))
        t.append({"op": "destroy"})
        yield t


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCContainment", timeout=600, coverage=False))
    exe = vf.build("containment", [vf.VERIF + "/harness/containment.cpp"] +
                   vf.sdk_sources())
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TraceContainment", exe,
                   vf.simulate("MCContainment", "SimContainment.cfg",
                               500 * k, 45),
                   "behaviours generated from the model", timeout=60)
    vf.conformance(c, "TraceContainment", exe,
                   list(gen(vf.rng("contain"), 800 * k, 60)),
                   "random histories", timeout=60)
    c.write()
