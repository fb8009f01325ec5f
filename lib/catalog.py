#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, so that the
two stay in step with checks/registry.py.  Run after editing; both outputs are
committed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF + "/checks")
from registry import REGISTRY  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), hook=None, note=""):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w}
                                        for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w}
                                    for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook},
              "_note": note})


exec(open(HERE + "/properties.py").read())

TECH = ("TLA+ specification checked by TLC, bound to the code by TLC trace "
        "validation of executions recorded from it (behaviours generated from "
        "the specification and random histories)")
NOTE = ("The specification's own properties are checked by TLC on the bounded "
        "instance of the MC*.cfg; the code is checked on the behaviours TLC "
        "generated and on seeded random histories, each recorded step being "
        "accepted or rejected by the specification. Trusted: TLC, the harness "
        "that turns a call into a recorded outcome, gcc and AddressSanitizer. ")
NOTE_SMP = ("The ECSS-SMP interface headers, which the repository fetches from "
            "the network at configure time, are replaced by a reconstruction "
            "in smp/ (the repository's own 189 unit tests pass against it). ")


def main():
    with open(VERIF + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items()
                                if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in REGISTRY:
            checks.append({
                "property": i, "quick_cmd": "./check " + i,
                "thorough_cmd": "./check %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH, "level": "model_checking",
                "level_note": NOTE + (NOTE_SMP if int(i[1:]) > 5 else "") +
                p["_note"]})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
         "hooks": {"guard": "none", "enable": "no hook is needed: the checks "
                   "compile /repo's sources as they are",
                   "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md."}
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
