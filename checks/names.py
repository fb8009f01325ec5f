"""C24: names of objects."""
import itertools
import vf

KINDS = ["object", "check", "component", "service", "simulator", "entrypoint",
         "source", "sink", "container", "reference", "failure", "field",
         "collection", "factory", "instance", "type", "pubfield", "property",
         "operation", "parameter", "structure"]
ALPHABET = [ord(x) for x in "aZ09_[].-"]


def ops(kind, names):
    for i in range(0, len(names), 400):
        ns = names[i:i + 400]
        yield {"op": "name", "k": kind, "ns": ns,
               "hex": ["x" + "".join("%02x" % b for b in n) for n in ns]}


def strings(alphabet, n):
    return [list(s) for k in range(n + 1)
            for s in itertools.product(alphabet, repeat=k)]


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCNames"))
    exe = vf.build("names", [vf.VERIF + "/harness/names.cpp"] +
                   vf.sdk_sources())
    a, br, cl = ord("a"), ord("["), ord("]")
    single = [[x] for x in range(1, 256)] + [[a, x] for x in range(1, 256)] + \
        [[br, x, cl] for x in range(1, 256)] + \
        [[br, 48, x] for x in range(1, 256)] + \
        [[br, 48, cl, x] for x in range(1, 256)] + \
        [[br, x, 48, cl] for x in range(1, 256)] + \
        [[br, 48, x, 49, cl] for x in range(1, 256)] + \
        [[a, x, a] for x in range(1, 256)] + [[x, a] for x in range(1, 256)]
    r = vf.rng("names")
    long = [[r.choice(ALPHABET[:5]) for _ in range(r.randrange(1, 60))]
            for _ in range(60)] + \
        [[br] + [r.randrange(48, 58) for _ in range(r.randrange(0, 30))] +
         [cl] + r.choice([[], [a], [cl], [br, 48, cl]]) for _ in range(60)]
    traces = []
    for k in KINDS:
        deep = 5 if k == "check" else 4 if vf.THOROUGH else 3 \
            if k in ("object", "entrypoint", "component") else 2
        names = strings(ALPHABET, deep) + single + long
        for o in ops(k, names):
            traces.append([o])
        traces.append([{"op": "null", "k": k}])
    vf.conformance(c, "TraceNames", exe, traces,
                   "every byte and every short name, objects of every kind",
                   timeout=300)
    c.write(kinds=KINDS)
