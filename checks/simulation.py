"""C10: simulator state machine, traversals, entry points, libraries."""
import os
import vf

EVS = ["LeaveConnecting", "EnterInitialising", "LeaveInitialising",
       "EnterStandby", "LeaveStandby", "EnterExecuting", "LeaveExecuting",
       "EnterExiting", "EnterAborting", "EnterReconnecting", "LeaveReconnecting"]
SVC = ["plain", "plain", "logger", "event_manager", "link_registry",
       "resolver", "time_keeper"]


def link_so(d, name, src, flags=()):
    objs = vf.compile_objs([src], vf.BASE_FLAGS + vf.ASAN + list(flags))
    r = vf.subprocess.run(["g++", "-shared", "-fsanitize=address", "-o",
                           "%s/lib%s.so" % (d, name)] + objs,
                          capture_output=True, text=True)
    if r.returncode:
        raise vf.ToolError("link of %s: %s" % (name, r.stderr[:2000]))


def so_dir():
    d = vf.CACHE + "/so.%d" % os.getpid()
    os.makedirs(d, exist_ok=True)
    src = vf.VERIF + "/harness/stubs/lib.cpp"
    link_so(d, "good1", src, ['-DNAME="good1"'])
    link_so(d, "good2", src, ['-DNAME="good2"'])
    link_so(d, "refuses", src, ['-DNAME="refuses"', "-DRESULT=false"])
    for s in ("noinit", "nofin"):
        link_so(d, s, vf.VERIF + "/harness/stubs/%s.cpp" % s)
    return d


def call(r, standby=True):
    a = r.choice(["publish", "configure", "connect", "initialise", "run",
                  "run_for", "hold", "hold_later", "exit", "presim",
                  "reconnect", "reconnect", "add_init", "add_model",
                  "add_model", "add_more", "add_service", "add_service"] +
                 ["abort"] * (r.random() < 0.3))
    n = k = ""
    if a == "reconnect":
        n = r.choice(["null", "a", "a", "b", "c", "s"])
    elif a == "add_init":
        n = r.choice(["i1", "i2", "i3"])
    elif a in ("add_model", "add_more"):
        n = r.choice(["a", "b", "c", "d", "e", "f"])
        k = r.choice(["sim", "a", "b", "c", "d"])
    elif a == "add_service":
        n = r.choice(["s", "t", "u", "v", "w", "a"])
        k = r.choice(SVC)
    return a, n, k


def gen(r, n, depth):
    """Histories that build a simulation, connect it and use it, with calls
    from inside callbacks."""
    for _ in range(n):
        t = []

        def op(a, n="", k=""):
            t.append({"op": a, "n": n, "k": k})

        def arm():
            if r.random() < 0.6:
                at = "ev:" + r.choice(EVS)
                act = "throw" if r.random() < 0.15 else ""
            else:
                at = r.choice(["pub:", "cfg:", "con:", "con:", "dis:"]) + \
                    r.choice("abcdst")
                if r.random() < 0.2:
                    at = r.choice(["init:i1", "init:i2", "lib+:good1",
                                   "lib-:good1"])
                act = ""
            a, nn, k = (act, "", "") if act else call(r)
            t.append({"op": "arm", "at": at, "act": a, "n": nn, "k": k})

        if r.random() < 0.95:
            if r.random() < 0.9:
                op("add_service", "log", "logger")
            op("add_service", "em", "event_manager")
        for _ in range(r.randrange(1, 6)):
            a, nn, k = call(r)
            if a.startswith("add"):
                op(a, nn, k)
        if r.random() < 0.4:
            t.append({"op": "load", "n": r.choice(
                ["good1", "good2", "refuses", "noinit", "nofin", "nosuch"]),
                "k": ""})
        if r.random() < 0.5:
            arm()
        for a in ("publish", "configure"):
            if r.random() < 0.4:
                op(a)
                if r.random() < 0.3:
                    op("add_model", r.choice("abcdef"), "sim")
        if r.random() < 0.5:
            arm()
        if r.random() < 0.95:
            op("connect")
        while len(t) < depth:
            x = r.random()
            if x < 0.3:
                arm()
            elif x < 0.38:
                op("run")
            elif x < 0.46:
                op(r.choice(["hold", "hold_later"]))
            elif x < 0.5:
                op("presim")
            elif x < 0.54:
                t.append({"op": "service",
                          "n": r.choice(["log", "s", "t", "a", "nosuch"])})
            elif x < 0.57:
                t.append({"op": "load", "n": r.choice(
                    ["good1", "good2", "refuses", "noinit", "nosuch"]),
                    "k": ""})
            else:
                a, nn, k = call(r)
                if a == "exit" and r.random() < 0.7:
                    continue
                op(a, nn, k)
        if r.random() < 0.8:
            t.append({"op": "destroy"})
        yield t


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCSimulation", timeout=600,
                             coverage=False))
    exe = vf.build("simulator", [vf.VERIF + "/harness/simulator.cpp"] +
                   vf.sdk_sources())
    d = so_dir()
    try:
        env = {"LD_LIBRARY_PATH": d}
        sim = vf.simulate("MCSimulation", "SimSimulation.cfg",
                          1500 if vf.THOROUGH else 300, 30)
        vf.conformance(c, "TraceSimulation", exe, sim,
                       "behaviours generated from the model", env=env)
        vf.conformance(c, "TraceSimulation", exe,
                       list(gen(vf.rng("sim"), 6000 if vf.THOROUGH else 600,
                                25)), "random histories", env=env)
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    c.write()
