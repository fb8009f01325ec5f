"""C08: universally unique identifiers."""
import vf

DIGITS = b"0123456789abcdefABCDEF"


def hx(t):
    return "x" + "".join("%02x" % b for b in t)


def texts(ts):
    for i in range(0, len(ts), 300):
        b = ts[i:i + 300]
        yield [{"op": "texts", "ts": [list(t) for t in b],
                "hex": [hx(t) for t in b]}]


def pairs(ps):
    for i in range(0, len(ps), 200):
        b = ps[i:i + 200]
        yield [{"op": "pairs", "ts": [[list(x), list(y)] for x, y in b],
                "hex": [hx(z) for p in b for z in p]}]


def form(d):
    return d[:8] + b"-" + d[8:12] + b"-" + d[12:16] + b"-" + d[16:20] + \
        b"-" + d[20:]


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCUuids"))
    exe = vf.build("uuids", [vf.VERIF + "/harness/uuids.cpp"] +
                   vf.sdk_sources(), vf.ASAN)
    r = vf.rng("uuids")

    def rand(alphabet=DIGITS):
        return form(bytes(r.choice(alphabet) for _ in range(32)))
    base = [form(b"0123456789abcdefFEDCBA9876543210"), form(b"0" * 32),
            form(b"f" * 32), form(b"F" * 32)]
    k = 10 if vf.THOROUGH else 1
    good = base + [rand() for _ in range(400 * k)]
    # every digit at every position
    for b in base[:2]:
        for p in range(36):
            good += [b[:p] + bytes([x]) + b[p + 1:] for x in DIGITS
                     if p not in (8, 13, 18, 23)]
    # every other byte at every position, missing, repeated and added bytes
    bad = []
    for b in base[:1] + ([rand()] if vf.THOROUGH else []):
        for p in range(36):
            bad += [b[:p] + bytes([x]) + b[p + 1:] for x in range(1, 256)]
        bad += [b[:p] for p in range(37)]
        bad += [b[:p] + b[p + 1:] for p in range(36)]
        bad += [b[:p] + bytes([x]) + b[p:] for p in range(37)
                for x in b"0a-g {}\n"]
        bad += [b + rand()[:n] for n in range(1, 37)]
        bad += [b"{" + b + b"}", b" " + b, b + b" ", b"0x" + b[2:], b"+" + b[1:],
                b"-" + b[1:], b.replace(b"-", b"")]
    traces = list(texts(good)) + list(texts(bad)) + [[{"op": "null"}]]
    ps = []
    for _ in range(20 * k):
        a = rand(b"0123456789abcdef")
        ps += [(a, a), (a, a.upper()), (a, rand())]
        for p in range(36):
            if p in (8, 13, 18, 23):
                continue
            x = a[:p] + bytes([r.choice(b"0123456789abcdef")]) + a[p + 1:]
            ps += [(a, x), (x, a)]
            q = r.choice([i for i in range(36) if i not in (8, 13, 18, 23)])
            y = x[:q] + bytes([r.choice(b"0123456789abcdef")]) + x[q + 1:]
            # two digits that differ in opposite directions
            ps += [(a, y), (y, a)]
            if a[p:p + 1] not in b"0f":
                up = a[:p] + b"f" + a[p + 1:]
                z = up[:q] + b"0" + up[q + 1:]
                ps += [(a, z), (z, a), (up, z)]
    traces += list(pairs(ps))
    for _ in range(40 * k):
        pool = [rand(b"0123456789abcdef")]
        for _ in range(7):
            y = bytearray(r.choice(pool))
            for _ in range(r.randrange(1, 3)):
                q = r.choice([i for i in range(36)
                              if i not in (8, 13, 18, 23)])
                y[q] = r.choice(b"0123456789abcdef")
            pool.append(bytes(y))
        t = []
        for _ in range(14):
            x = r.choice(pool)
            x = x.upper() if r.random() < .3 else x
            t.append({"op": r.choice(["put", "put", "drop"]), "t": list(x),
                      "hex": hx(x)})
        traces.append(t)
    vf.conformance(c, "TraceUuids", exe, traces,
                   "bytes at every position, pairs, containers", timeout=300)
    c.write()
