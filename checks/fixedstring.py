"""C01: fixed-capacity strings."""
import vf


def gen(r, n, depth):
    alpha = [97, 98, 65, 32, 200, 255, 1]
    slots = "abcde"
    mut = ["assign", "assign_from", "append", "append_from", "push_back",
           "pop_back", "remove_suffix", "clear", "swap", "stream_in", "put_at",
           "remove_prefix", "put_raw"]
    qry = ["at", "sizes", "content", "substr", "search", "compare",
           "compare_from", "rel", "rel_rev", "rel_from", "concat",
           "concat_rev", "concat_from", "hash", "hash_view", "front", "back"]
    cap = dict(a=0, b=1, c=3, d=3, e=8)

    def seq(mx=10, nul=False):
        a = alpha + ([0] if nul else [])
        a = r.sample(a, r.randint(1, len(a)))
        return [r.choice(a) for _ in range(r.randint(0, mx))]

    def cstr(s):
        return s[:s.index(0)] if 0 in s else s

    for _ in range(n):
        t = []
        # the generator tracks contents only to respect preconditions
        st = {k: [] for k in slots}

        def put(k, v):
            st[k] = cstr(v[:cap[k]])

        for _ in range(depth):
            op = r.choice(mut) if r.random() < 0.45 else r.choice(qry)
            k, j = r.choice(slots), r.choice(slots)
            o = {"op": op, "k": k}
            if op == "assign":
                o["how"] = r.choice(["cstr", "string", "len", "sv", "ctor_cstr",
                                     "ctor_len", "ctor_sv", "ctor_string",
                                     "assign_cstr"])
                o["s"] = seq(nul=True)
                put(k, o["s"])
            elif op == "assign_from":
                o.update(j=j, how=r.choice(["op", "assign", "ctor"]))
                put(k, st[j])
            elif op == "append":
                o["s"] = seq(6, nul=True)
                o["how"] = r.choice(["sv", "plus", "len", "plus_cstr",
                                     "plus_string"])
                st[k] = cstr(st[k] + o["s"][:cap[k] - len(st[k])])
            elif op == "append_from":
                o.update(j=j, how=r.choice(["append", "plus"]))
                st[k] = st[k] + st[j][:cap[k] - len(st[k])]
            elif op == "push_back":
                o.update(c=r.choice(alpha), how=r.choice(["plus", "push"]))
                st[k] = (st[k] + [o["c"]])[:cap[k]]
            elif op == "pop_back":
                st[k] = st[k][:-1]
            elif op == "remove_suffix":
                o["n"] = r.randint(0, 9)
                st[k] = st[k][:max(0, len(st[k]) - o["n"])]
            elif op == "remove_prefix":
                o["n"] = r.randint(0, len(st[k]))
                st[k] = st[k][o["n"]:]
            elif op == "clear":
                st[k] = []
            elif op == "swap":
                if cap[k] != cap[j]:
                    k, j = "c", "d"
                o.update(k=k, j=j, how=r.choice(["member", "free"]))
                st[k], st[j] = st[j], st[k]
            elif op == "stream_in":
                o["s"] = [r.choice([32, 9, 97])] * r.randint(0, 1) + seq(10)
                w = bytes(o["s"]).decode("latin1")
                import re
                m = re.search(r"[^ \t\n\v\f\r]+", w)
                put(k, list(m.group(0).encode("latin1")) if m else [])
            elif op == "put_at":
                o.update(i=r.randint(0, 8), c=r.choice(alpha + [0]))
                if o["i"] < len(st[k]):
                    x = list(st[k])
                    x[o["i"]] = o["c"]
                    st[k] = cstr(x)
            elif op == "put_raw":
                if not st[k]:
                    continue
                o.update(i=r.choice([0, len(st[k]) - 1,
                                     r.randrange(len(st[k]))]),
                         c=r.choice(alpha),
                         how=r.choice(["front", "back", "data", "index"]))
                st[k] = list(st[k])
                st[k][o["i"]] = o["c"]
            elif op == "at":
                o.update(i=r.choice([0, len(st[k]), r.randint(0, 9)]),
                         how=r.choice(["const", "mut"]))
            elif op in ("front", "back"):
                if not st[k]:
                    continue
            elif op == "content":
                o["how"] = r.choice(["forward", "cforward", "const", "reverse",
                                     "stream", "data", "cstr"])
            elif op == "substr":
                o.update(p=r.choice([0, len(st[k]), r.randint(0, 9)]),
                         n=r.choice([-1, 0, 1, 2, 5]))
            elif op == "search":
                s = st[k]
                o["f"] = r.choice(["find", "rfind", "find_first_of",
                                   "find_last_of", "find_first_not_of",
                                   "find_last_not_of"])
                o["how"] = r.choice(["char", "cstr", "len", "sv"])
                if s and r.random() < .6:
                    b = r.randrange(len(s))
                    o["s"] = s[b:b + r.randint(1, 3)]
                else:
                    o["s"] = seq(3)
                first = o["f"].startswith("find_first") or o["f"] == "find"
                o["p"] = r.choice([0, len(s), r.randint(0, 9)] +
                                  ([] if first else [-1, -1]))
                if o["how"] == "char" and len(o["s"]) != 1:
                    o["s"] = [r.choice(s or alpha)]
            elif op in ("compare", "rel", "rel_rev", "concat", "concat_rev"):
                s = list(st[k])
                c = r.random()
                if c < .3:
                    pass
                elif c < .5 and s:
                    s[r.randrange(len(s))] = r.choice(alpha)
                elif c < .7:
                    s = s[:r.randint(0, len(s))]
                elif c < .9:
                    s = s + [r.choice(alpha)]
                else:
                    s = seq(9)
                o["s"] = s
                o["how"] = r.choice(["sv", "cstr", "char"])
                if op in ("rel", "rel_rev"):
                    o["r"] = r.choice(["eq", "ne", "lt", "le", "gt", "ge"])
            elif op in ("compare_from", "concat_from", "hash"):
                o["j"] = j
            elif op == "rel_from":
                o.update(j=j, r=r.choice(["eq", "ne", "lt", "le", "gt", "ge"]))
            t.append(o)
        yield t


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCFixedString"))
    exe = vf.build("fixedstring", [vf.VERIF + "/harness/fixedstring.cpp"])
    sim = vf.simulate("MCFixedString", "SimFixedString.cfg",
                      400 if vf.THOROUGH else 100, 25)
    vf.conformance(c, "TraceFixedString", exe, sim,
                   "behaviours generated from the model")
    n = 3000 if vf.THOROUGH else 500
    vf.conformance(c, "TraceFixedString", exe,
                   list(gen(vf.rng("str"), n, 40)), "random histories")
    c.write()
