"""C16: link registry."""
import vf

SOURCES = ["a1", "a2", "b", "p"]
TARGETS = ["t1", "t1", "t2", "a1"]


def gen(r, n, depth):
    for _ in range(n):
        def act():
            x = r.random()
            if x < 0.45:
                return {"op": "add", "s": r.choice(SOURCES),
                        "t": r.choice(TARGETS)}
            if x < 0.75:
                return {"op": "remove", "s": r.choice(SOURCES),
                        "t": r.choice(TARGETS)}
            return {"op": r.choice(["can", "ask"]), "t": r.choice(TARGETS)}

        t = []
        while len(t) < depth:
            x = r.random()
            if x < 0.25:
                s = r.choice(SOURCES[:3])
                acts = [act() for _ in range(r.randrange(0, 4))] \
                    if r.random() < 0.4 else \
                    [{"op": "remove", "s": s, "t": r.choice(TARGETS)}] * \
                    r.randrange(1, 4)
                t.append({"op": "script", "s": s, "acts": acts})
            else:
                t.append(act())
        yield t


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCLinkRegistry", timeout=600,
                               coverage=False))
    srcs = [vf.VERIF + "/harness/linkregistry.cpp"] + vf.sdk_sources()
    exe = vf.build("linkregistry", srcs)
    k = 8 if vf.THOROUGH else 1
    vf.conformance(c, "TraceLinkRegistry", exe,
                   vf.simulate("MCLinkRegistry", "SimLinkRegistry.cfg",
                               300 * k, 40),
                   "behaviours generated from the model", timeout=60)
    vf.conformance(c, "TraceLinkRegistry", exe,
                   list(gen(vf.rng("links"), 600 * k, 50)),
                   "random histories", timeout=60)
    tsan = vf.build("linkregistry_tsan", srcs, vf.TSAN + ["-O1"])
    races = [[{"op": "race", "threads": 2 + i % 3, "n": 1000}]
             for i in range(16 * k)]
    vf.conformance(c, "TraceLinkRegistry", exe, races, "concurrent use",
                   timeout=100, par=4)
    vf.conformance(c, "TraceLinkRegistry", tsan, races[:8 * k],
                   "concurrent use, data races detected", timeout=100, par=4)
    c.write()
