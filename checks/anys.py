"""C07: values of any simple type."""
import vf

INTS = {"Int8": (1, 8), "Int16": (1, 16), "Int32": (1, 32), "Int64": (1, 64),
        "UInt8": (0, 8), "UInt16": (0, 16), "UInt32": (0, 32),
        "UInt64": (0, 64)}
TYPES = list(INTS) + ["Float32", "Float64", "Bool", "Char8", "String8"]
KINDS = TYPES + ["Duration", "DateTime", "None"]


def num(n):
    m = abs(n)
    return [5, int(n < 0)] + [i for i in range(m.bit_length()) if m >> i & 1]


def fractions():
    """Floating point values around the limits of the conversions."""
    r = [[0, -k] for k in (1, 22, 23, 24, 25, 51, 52)]
    r += [[-k, -m] for k in (26, 27, 28, 29, 30) for m in (50, 51, 52, 53, 54)]
    r += [[0, -24, -25], [-1, -24, -25], [-28, -52, -53], [-28, -51, -53]]
    r += [list(range(0, -k - 1, -1)) for k in (22, 23, 24, 25, 51, 52)]
    r += [list(range(127, k, -1)) for k in (103, 102)] + [[127], [128], [1023]]
    r += [[-149], [-150], [-126], [-1074], [-140, -149], [-140, -150], [-60]]
    r += [[127, 90], [100, 77], [100, 76]]
    return [[5, n] + sorted(x) for x in r for n in (0, 1)]


def span(c):
    b = c[2:]
    return (max(b) - min(b), min(b), max(b)) if b else (0, 0, 0)


def values(s):
    if s in INTS:
        sg, w = INTS[s]
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
        v = {0, 1, lo, hi, lo + 1, hi - 1, hi // 3}
        for k in (7, 8, 15, 16, 24, 31, 32, 53, 63):
            v |= {s * ((1 << k) + d) for d in (-1, 0, 1, 2) for s in (1, -1)}
        v |= {(1 << 24) * 3 + 1, (1 << 53) * 3 + 2, (1 << 62) + (1 << 9),
              ((1 << 24) - 1) << 5, ((1 << 25) - 1) << 5,
              ((1 << 53) - 1) << 10, ((1 << 54) - 1) << 9}
        return [num(x) for x in sorted(v) if lo <= x <= hi]
    if s == "Bool":
        return [[1, 0], [1, 1]]
    if s == "Char8":
        return [[2, c] for c in range(256)]
    if s == "String8":
        return [[4], [3], [3, 65], [3] + list(range(1, 256))]
    v = [[6], [7, 0], [7, 1]] + [num(x) for x in (0, 1, -1, 255, 1 << 24,
                                                  (1 << 24) - 1, 1 << 31)]
    v += fractions()
    if s == "Float32":
        v = [c for c in v if c[0] != 5 or
             (span(c)[0] < 24 and span(c)[1] >= -149 and span(c)[2] <= 127)]
    else:
        v += [num(x) for x in ((1 << 24) + 1, (1 << 53) - 1)]
        v = [c for c in v if c[0] != 5 or span(c)[0] < 53]
    return v


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCAnys"))
    exe = vf.build("anys", [vf.VERIF + "/harness/anys.cpp"] +
                   vf.sdk_sources(), vf.ASAN)
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TraceAnys", exe,
                   vf.simulate("MCAnys", "SimAnys.cfg", 500 * k, 40,
                               timeout=600),
                   "behaviours generated from the model", timeout=120)
    traces, r = [], vf.rng("anys")
    for s in TYPES:
        t = []
        for v in values(s):
            for kd in KINDS:
                t.append({"op": "set", "x": "a", "k": kd, "s": s, "v": v})
                t.append({"op": "kind", "x": "a"})
                t.append({"op": "gets", "x": "a", "ts": TYPES})
                t.append({"op": "show", "x": "a"})
                t.append({"op": "copy", "x": "b", "y": "a", "how": "assign"})
                t.append({"op": "eq", "x": "a", "y": "b"})
        for i in range(0, len(t), 600):
            traces.append(t[i:i + 600])
    # pairs of values, of the same type or close to each other
    for _ in range(400 * k):
        s = r.choice(TYPES)
        t = []
        for x in "abc":
            u = s if r.random() < .6 else r.choice(TYPES)
            kd = u if r.random() < .7 else r.choice(KINDS)
            t.append({"op": "make", "x": x, "k": kd, "s": u,
                      "v": r.choice(values(u))})
        t += [{"op": "eq", "x": x, "y": y} for x in "abc" for y in "abc"]
        traces.append(t)
    vf.conformance(c, "TraceAnys", exe, traces,
                   "every type into every kind and back", timeout=300)
    c.write(types=TYPES, kinds=KINDS)
