"""C04: integer comparisons across types."""
import json
import os
import vf

BITS = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1),
        "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
        "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1),
        "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1),
        "ll": (-2**63, 2**63 - 1), "ull": (0, 2**64 - 1)}


def run(prop):
    c = vf.Check(prop)
    r = vf.rng("ints")
    vals = {0, 1, -1, 2, -2, 100}
    for lo, hi in BITS.values():
        for d in (-1, 0, 1):
            vals |= {lo + d, hi + d, hi // 2 + d}
    for _ in range(12 if vf.THOROUGH else 4):
        vals.add(r.randint(-2**63, 2**64 - 1))
        vals.add(r.randint(-2**16, 2**16))
    table = sorted(v for v in vals if -2**63 <= v <= 2**64 - 1)
    rank = {v: i + 1 for i, v in enumerate(table)}

    def ranks(t):
        lo, hi = BITS[t]
        return [rank[v] for v in table if lo <= v <= hi]
    with vf.Scratch() as d:
        f = os.path.join(d, "table.json")
        with open(f, "w") as fh:
            json.dump({"n": len(table),
                       "lo": {t: rank[b[0]] for t, b in BITS.items()},
                       "hi": {t: rank[b[1]] for t, b in BITS.items()}}, fh)
        os.environ["TABLE"] = f
        c.add_model(vf.model_check("MCIntCompare"))
        exe = vf.build("intcompare", [vf.VERIF + "/harness/intcompare.cpp"])
        traces = []
        for t in BITS:
            tr = []
            for x in ranks(t):
                for u in BITS:
                    for fn in ("equal", "not_equal", "less", "less_equal",
                               "greater", "greater_equal"):
                        tr.append({"op": "compare", "f": fn, "t": t, "x": x,
                                   "u": u, "ys": ranks(u)})
                tr.append({"op": "in_range", "t": t, "x": x,
                           "us": list(BITS)})
            traces.append(tr)
        vf.conformance(c, "TraceIntCompare", exe, traces,
                       "every pair of types and landmark values",
                       args=[",".join(map(str, table))])
        c.write(landmarks=len(table), exhaustive_pairs=len(BITS)**2)
