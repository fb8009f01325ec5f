"""C02: owning C strings."""
import vf


def gen(r, n, depth):
    objs = "abcd"
    for _ in range(n):
        st = {k: None for k in objs}   # None absent, "" or list
        t = []
        for _ in range(depth):
            k, j = r.choice(objs), r.choice(objs)
            op = r.choice(["new", "copy_new", "move_new", "copy_assign",
                           "move_assign", "assign_text", "assign_tail",
                           "destroy", "read", "destroy_all"]
                          if r.random() < .5 else
                          ["copy_assign", "move_assign", "assign_text",
                           "assign_tail", "new"])
            o = {"op": op, "k": k}
            fail = r.random() < .12
            s = [r.choice([97, 98, 32, 200, 1, 0]) for _ in
                 range(r.choice([0, 1, 2, 5, 40]))]
            hold = isinstance(st[j], list)

            def cut(x):
                return x[:x.index(0)] if 0 in x else x
            if op == "new" and st[k] is None:
                o.update(s=s, how=r.choice(["cstr", "len", "sv"]), fail=fail)
                if not fail:
                    st[k] = cut(s)
            elif op == "copy_new" and st[k] is None and hold:
                o.update(j=j, fail=fail)
                if not fail:
                    st[k] = st[j]
            elif op == "move_new" and st[k] is None and st[j] is not None:
                o.update(j=j)
                st[k], st[j] = st[j], "moved"
            elif op == "copy_assign" and st[k] is not None and hold:
                if k == j:
                    fail = False
                o.update(j=j, fail=fail)
                if not fail:
                    st[k] = st[j]
            elif op == "move_assign" and st[k] is not None and \
                    st[j] is not None:
                o.update(j=j)
                if k != j:
                    st[k], st[j] = st[j], "moved"
            elif op == "assign_text" and st[k] is not None:
                o.update(s=s, fail=fail)
                if not fail:
                    st[k] = cut(s)
            elif op == "assign_tail" and st[k] is not None and hold:
                o.update(j=j, n=r.randint(0, len(st[j])), fail=fail)
                if not fail:
                    st[k] = st[j][o["n"]:]
            elif op == "destroy" and st[k] is not None:
                st[k] = None
            elif op == "read":
                o = {"op": "read"}
            elif op == "destroy_all":
                o = {"op": "destroy_all"}
                st = {x: None for x in objs}
            else:
                continue
            t.append(o)
        t.append({"op": "destroy_all"})
        yield t


def strip(t):
    return [{k: v for k, v in o.items() if k != "out"} for o in t] + \
        [{"op": "destroy_all"}]


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCOwnedText"))
    exe = vf.build("ownedtext", [vf.VERIF + "/harness/ownedtext.cpp",
                                 vf.REPO + "/src/Xsmp/cstring.cpp"])
    sim = vf.simulate("MCOwnedText", "SimOwnedText.cfg",
                      300 if vf.THOROUGH else 100, 30)
    # a behaviour of the model fixes which allocations are refused; the model
    # may let a refused one succeed, which cannot be demanded from the code
    keep = []
    for t in sim:
        u = []
        for o in t:
            if o.get("fail") and o["out"]["e"] == "ok":
                o = dict(o, fail=False)
            elif "out" in o and o["out"]["e"] == "bad_alloc" and \
                    not o.get("fail"):
                o = dict(o)
            u.append(o)
        keep.append(strip(u))
    vf.conformance(c, "TraceOwnedText", exe, keep,
                   "behaviours generated from the model")
    n = 3000 if vf.THOROUGH else 600
    vf.conformance(c, "TraceOwnedText", exe,
                   list(gen(vf.rng("cstr"), n, 60)), "random histories")
    c.write()
