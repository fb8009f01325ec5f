"""C03: fixed-size arrays."""
import vf

SIZE = dict(x=3, y=3, z=3, o=1, e=0, w=7)


def gen(r, n, depth, vals):
    for _ in range(n):
        t = []
        for _ in range(depth):
            op = r.choice(["fill", "build", "put_at", "put_raw", "put_raw",
                           "at", "get", "content", "sizes", "copy", "swap",
                           "rel", "rel", "rel"])
            k = r.choice("xyzxyzowe")
            o = {"op": op, "k": k}
            if op == "fill":
                o["x"] = r.choice(vals)
            elif op == "build":
                o["s"] = [r.choice(vals) for _ in
                          range(r.randint(0, min(3, SIZE[k])))]
            elif op == "put_at":
                o.update(i=r.choice([0, SIZE[k], r.randint(0, 8), 1000]),
                         x=r.choice(vals))
            elif op == "put_raw":
                if not SIZE[k]:
                    continue
                o.update(i=r.randrange(SIZE[k]), x=r.choice(vals),
                         how=r.choice(["front", "back", "data", "index",
                                       "begin", "end", "rbegin", "rend"]))
            elif op == "at":
                o.update(i=r.choice([0, SIZE[k], r.randint(0, 8)]),
                         how=r.choice(["const", "mut"]))
            elif op == "get":
                if not SIZE[k]:
                    continue
                o.update(i=r.randrange(SIZE[k]),
                         how=r.choice(["front", "back", "data", "index"]))
            elif op == "content":
                o["how"] = r.choice(["forward", "reverse"])
            elif op in ("copy", "swap", "rel"):
                j = r.choice("xyz") if k in "xyz" else k
                o["j"] = j
                if op == "copy":
                    o["how"] = r.choice(["assign", "move", "ctor"])
                elif op == "swap":
                    o["how"] = r.choice(["member", "free"])
                else:
                    o["r"] = r.choice(["eq", "ne", "lt", "le", "gt", "ge"])
            t.append(o)
        yield t


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCFixedArray"))
    exe = vf.build("fixedarray", [vf.VERIF + "/harness/fixedarray.cpp"])
    sim = vf.simulate("MCFixedArray", "SimFixedArray.cfg",
                      300 if vf.THOROUGH else 60, 30)
    for t in sim:
        for o in t:
            o.setdefault("how", "")
    vf.conformance(c, "TraceFixedArray", exe,
                   [[o for o in t] for t in map(adapt, sim)],
                   "behaviours generated from the model", args=["int"])
    n = 1500 if vf.THOROUGH else 150
    for ty, vals in (("int", [0, 1, -2, 7]), ("double", [0, 1, -3, 4]),
                     ("char", [0, 1, -2, 127]), ("bool", [0, 1]),
                     ("string", [1, 2, 7])):
        vf.conformance(c, "TraceFixedArray", exe,
                       list(gen(vf.rng("arr" + ty), n, 50, vals)),
                       "random histories, elements: " + ty, args=[ty])
    c.write()


def adapt(t):
    """The model's arrays have two elements, the real ones three: indices stay
    valid, as the model only ever uses smaller ones."""
    return t
