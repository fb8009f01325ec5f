"""C12, C13, C14: scheduler and time keeper."""
import vf

KINDS = ["sim", "epoch", "mission"]
SLOTS = ["e1", "e2", "e3", "pre", "post", "enter"]


def harness():
    return vf.build("scheduler", [vf.VERIF + "/harness/scheduler.cpp"] +
                    vf.sdk_sources())


def gen(r, n, depth, weights):
    """Random histories.  Identifiers, and the times of epoch and mission
    events, are guessed from a rough count of the calls so far."""
    wa, wc, wt, ws = weights
    for _ in range(n):
        st = {"last": -1, "ep": 0, "mi": 0}
        calm = r.random() < 0.3      # few scripts
        span = r.choice([3, 6, 12])  # of times: small makes ties

        def ident():
            x = r.random()
            if x < 0.04:
                return r.choice([-1, 99])
            return max(0, st["last"] - r.randrange(0, 6) +
                       (r.random() < 0.25))

        def add():
            st["last"] += 1
            k = r.choice(["sim"] * 4 + ["imm"] * 2 + ["epoch", "mission"])
            e = r.choice(["e1", "e2", "e3"])
            if k == "imm":
                return {"op": "add", "kind": k, "ep": e, "t": 0, "c": 0,
                        "r": 0}
            rep = r.choice([0, 0, 0, 1, 2, 3, -1])
            return {"op": "add", "kind": k, "ep": e, "t": when(k),
                    "c": r.randrange(-1, span) if r.random() < 0.2 else
                    r.randrange(1, span + 1), "r": rep}

        def when(k):
            t = r.randrange(-1, span)
            return t + {"sim": 0, "epoch": st["ep"], "mission": st["mi"]}[k]

        def change():
            a = r.choice(["set", "set", "set", "cycle", "repeat", "remove",
                          "remove"])
            i = ident()
            if a == "set":
                k = r.choice(["sim"] * 4 + ["epoch", "mission"])
                return {"op": a, "kind": k, "id": i, "t": when(k)}
            if a == "cycle":
                return {"op": a, "id": i, "c": r.randrange(-1, span)}
            if a == "repeat":
                return {"op": a, "id": i, "r": r.randrange(-1, 4)}
            return {"op": a, "id": i}

        def timing():
            a = r.choice(["set_sim", "set_sim", "set_epoch", "set_mission",
                          "set_start"])
            t = r.randrange(-1, span) if a == "set_sim" else \
                r.randrange(-30, 60)
            if a == "set_epoch":
                st["mi"] += t - st["ep"]
                st["ep"] = t
            elif a == "set_mission":
                st["mi"] = t
            elif a == "set_start":
                st["mi"] = st["ep"] - t
            return {"op": a, "t": t}

        def act():
            x = r.random() * (wa + wc + wt)
            a = add() if x < wa else change() if x < wa + wc else timing()
            if r.random() < 0.06:
                return {"op": r.choice(["hold", "hold", "hold_later"])}
            if r.random() < 0.004:
                return {"op": r.choice(["abort", "throw"])}
            return a

        def script():
            s = r.choice(SLOTS[:3] + SLOTS)
            acts = [act() for _ in range(r.randrange(0, 4))]
            if acts and r.random() < 0.15:  # a new event made repeated
                i = st["last"] + r.randrange(0, 2)
                acts += [{"op": "cycle", "id": i, "c": r.randrange(1, span)},
                         {"op": "repeat", "id": i, "r": r.randrange(-1, 4)}]
            return {"op": "script", "ep": s, "acts": acts}

        def run():
            t = r.randrange(0, 2 * span)
            st["ep"] += t // 2
            st["mi"] += t // 2
            st["last"] += 1
            if r.random() < 0.15:
                return {"op": "runfree", "t": t}
            return {"op": "run", "t": t if r.random() < 0.97 else -1}

        t = []
        while len(t) < depth:
            x = r.random() * (wa + wc + wt + ws + 3)
            if x < wa:
                t.append(add())
            elif x < wa + wc:
                t.append(change())
            elif x < wa + wc + wt:
                t.append(timing())
            elif x < wa + wc + wt + ws:
                if not calm or r.random() < 0.1:
                    t.append(script())
            elif x < wa + wc + wt + ws + 0.15:
                t.append({"op": "emit_pre"})
            elif x < wa + wc + wt + ws + 0.3:
                t.append({"op": "emit_post"})
            elif r.random() < 0.02:
                t.append({"op": r.choice(["hold", "hold_later", "abort"])})
            else:
                t.append(run())
        t.append({"op": "run", "t": 5 * span})
        yield t


def told_later(t):
    """The outcome of every call is reported by the "wait" that made it."""
    outs = []
    for o in t:
        if isinstance(o["out"]["v"], dict) and "outs" in o["out"]["v"]:
            outs = o["out"]["v"].pop("outs")
    if any(o["out"]["e"] == "later" for o in t) and not outs:
        return [dict(o, out=t[-1]["out"]) for o in t]  # it failed
    return [dict(o, out=outs.pop(0)) if o["out"]["e"] == "later" else o
            for o in t]


def paces(r, n):
    for _ in range(n):
        t = [{"op": "speed", "x": r.choice([0, 1, 50, 100, 9999, 10000,
                                            10001, -5, 100000])}]
        x = r.choice([50, 100, 200, 10000])
        t.append({"op": "pace", "x": x, "n": r.randrange(1, 8),
                  "t": 4000 if x == 10000 else r.randrange(20, 60),
                  "z": r.randrange(0, 20)})
        if r.random() < 0.3:
            t.append({"op": "free", "x": r.choice([1, 50, 100, 10000])})
        yield t


def zulu_conformance(*a, **k):
    """Real time: a rejection which does not repeat is the machine's."""
    vf.conformance(*a, timed=True, **k)


def zulu(c, k):
    c.add_model(vf.model_check("MCZulu", timeout=600, coverage=False))
    exe = vf.build("zulu", [vf.VERIF + "/harness/zulu.cpp"] +
                   vf.sdk_sources())
    zulu_conformance(c, "TraceZulu", exe,
                   vf.simulate("MCZulu", "SimZulu.cfg", 160 * k, 12,
                               seed=vf.SEED * 10 + int(c.prop[1:])),
                   "behaviours generated from the model, by the clock",
                   post=told_later, timeout=120, par=16)
    if c.prop == "C12":
        zulu_conformance(c, "TraceZulu", exe, list(paces(vf.rng("pace"),
                                                       24 * k)),
                       "pace of a run, zulu events meanwhile", timeout=60)


WEIGHTS = {"C12": (5, 1, 1, 3), "C13": (3, 5, 0.5, 3), "C14": (3, 1, 4, 3)}


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCScheduling", timeout=600, coverage=False))
    if prop == "C13" or vf.THOROUGH:
        c.add_model(vf.model_check("MCScheduling", "MCSchedulingScripts.cfg",
                                   timeout=600, coverage=False))
    exe = harness()
    k = 8 if vf.THOROUGH else 1
    sim = vf.simulate("MCScheduling", "SimScheduling.cfg", 400 * k, 25,
                      seed=vf.SEED * 10 + int(prop[1:]))
    vf.conformance(c, "TraceScheduling", exe, sim,
                   "behaviours generated from the model", timeout=30)
    vf.conformance(c, "TraceScheduling", exe,
                   list(gen(vf.rng("sched" + prop), 1000 * k, 30,
                            WEIGHTS[prop])), "random histories",
                   timeout=30)
    if prop != "C14":
        zulu(c, k)
    c.write()
