"""C23: types and publications."""
import itertools

import vf


def members():
    """An operation given two parameters, in all ways."""
    r = []
    ps = [{"op": "param", "m": "m", "n": n, "d": "", "t": t, "dir": d}
          for n in ("p", "q", "<null>", "") for t in ("Int8", "u1")
          for d in ("In", "Out", "InOut", "Return")]
    looks = [{"op": "showParam", "m": "m", "n": n}
             for n in ("p", "q", "<null>", "")] + [{"op": "showOps"}]
    for a, b in itertools.product(ps, ps):
        if a["t"] == "u1" and b["t"] == "u1":
            continue
        r.append([{"op": "op", "n": "m", "d": "", "v": 0}, a, b] + looks)
    return r


def run(prop):
    c = vf.Check(prop)
    for cfg in ("MCPublications", "MCPublicationsP", "MCPublicationsO"):
        c.add_model(vf.model_check("MCPublications", cfg=cfg + ".cfg"))
    exe = vf.build("publications", [vf.VERIF + "/harness/publications.cpp"] +
                   vf.sdk_sources())
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TracePublications", exe,
                   vf.simulate("MCPublications", "SimPublications.cfg",
                               400 * k, 61),
                   "behaviours generated from the model", timeout=60)
    vf.conformance(c, "TracePublications", exe, members(),
                   "every short history of parameters", timeout=60)
    c.write()
