"""C06: dynamic libraries and package life cycle."""
import os
import vf

PARTS = ["logger", "time_keeper", "resolver", "event_manager",
         "link_registry", "scheduler"]


def link_so(d, name, srcs):
    objs = vf.compile_objs(srcs, vf.BASE_FLAGS + vf.ASAN)
    r = vf.subprocess.run(["g++", "-shared", "-fsanitize=address", "-o",
                           "%s/lib%s.so" % (d, name)] + objs,
                          capture_output=True, text=True)
    if r.returncode:
        raise vf.ToolError("link of %s: %s" % (name, r.stderr[:2000]))


def so_dir():
    """The package libraries of the current tree, and some defective ones."""
    d = vf.CACHE + "/so.%d" % os.getpid()
    os.makedirs(d, exist_ok=True)
    for p in PARTS:
        link_so(d, "xsmp_" + p, [vf.REPO + "/src-gen/xsmp_%s.pkg.cpp" % p])
    link_so(d, "xsmp_services", [vf.REPO + "/src/xsmp_services.pkg.cpp"])
    for s in ("noinit", "nofin", "unres"):
        link_so(d, s, [vf.VERIF + "/harness/stubs/%s.cpp" % s])
    with open(d + "/libgarbage.so", "w") as f:
        f.write("not a library\n")
    return d


def gen(r, n, depth):
    libs = ["xsmp_services"] + ["xsmp_" + p for p in PARTS] + \
        ["noinit", "nofin"]
    names = libs + ["xsmp_services"] * 3 + ["nosuch", "unres", "garbage",
                                            "null"]
    for _ in range(n):
        t, cnt = [], {x: 0 for x in libs}
        for _ in range(depth):
            op = r.choice(["load", "load", "close", "symbol", "symbol",
                           "last_error", "init", "init", "init", "fin"])
            if op == "load":
                o = {"op": op, "lib": r.choice(names)}
                if o["lib"] in cnt:
                    cnt[o["lib"]] += 1
            elif op == "last_error":
                o = {"op": op}
            else:
                up = [x for x in libs if cnt[x]]
                if op in ("init", "fin"):
                    up = [x for x in up if x not in ("noinit", "nofin")] + \
                        ["static"] * 2
                if not up:
                    continue
                o = {"op": op, "lib": r.choice(up)}
                if op == "close":
                    cnt[o["lib"]] -= 1
                elif op == "symbol":
                    o["name"] = r.choice(["Initialise", "Finalise", "nosym",
                                          "null", "finalise"])
                else:
                    o["bad"] = r.sample(PARTS, r.choice([0, 0, 1, 1, 2, 6]))
                    if op == "init":
                        o["sim"] = r.choice(["s0", "s1", "s2", "null"])
                        o["reg"] = r.choice(["r0", "r1", "null"])
            t.append(o)
        yield t


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCLibraries"))
    exe = vf.build("libs", [vf.VERIF + "/harness/libs.cpp",
                            vf.REPO + "/src/Xsmp/LibraryHelper.cpp",
                            vf.REPO + "/src/xsmp_services.cpp"])
    d = so_dir()
    try:
        env = {"LD_LIBRARY_PATH": d}
        sim = vf.simulate("MCLibraries", "SimLibraries.cfg",
                          300 if vf.THOROUGH else 80, 40)
        vf.conformance(c, "TraceLibraries", exe, sim,
                       "behaviours generated from the model", args=[d],
                       env=env)
        vf.conformance(c, "TraceLibraries", exe,
                       list(gen(vf.rng("lib"), 2000 if vf.THOROUGH else 300,
                                40)),
                       "random histories", args=[d], env=env)
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    c.write()
