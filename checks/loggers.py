"""C18: the log service."""
import vf


def post(t):
    r = []
    for e in t:
        if e["op"] == "burst" and "seen" in e["out"]:
            e = dict(e, ids=e["out"]["ids"], seen=e["out"]["seen"],
                     out={"e": e["out"]["e"], "v": e["out"]["v"]})
        r.append(e)
    return r


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCLoggers"))
    src = [vf.VERIF + "/harness/loggers.cpp"] + vf.sdk_sources()
    k = 10 if vf.THOROUGH else 1
    traces = vf.simulate("MCLoggers", "SimLoggers.cfg", 300 * k, 30,
                         timeout=800)
    vf.conformance(c, "TraceLoggers", vf.build("loggers", src, vf.ASAN),
                   traces, "behaviours generated from the model", post=post,
                   timeout=200)
    r, plain = vf.rng("loggers"), "log.rootLogger=a\nlog.appender.a=" + \
        "ConsoleAppender\nlog.appender.a.layout.conversionPattern=%m%n\n"
    bursts = []
    for _ in range(60 * k):
        t = []
        for _ in range(4):
            t += [{"op": "open", "text": plain}]
            t += [{"op": "query", "k": r.choice(["X", "Y", "Z"])}
                  for _ in range(r.randint(0, 2))]
            t += [{"op": "burst", "n": r.choice([1, 5, 40]), "ids": [],
                   "seen": [], "ks": [r.choice(["X", "Y", "Z", "W", "Error"])
                                      for _ in range(r.choice([4, 8]))]}]
        bursts.append(t)
    vf.conformance(c, "TraceLoggers", vf.build("loggers", src, vf.TSAN),
                   bursts, "kinds and messages from several threads",
                   post=post, timeout=300)
    c.write()
