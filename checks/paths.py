"""C17: paths and the resolver."""
import vf


def run(prop):
    c = vf.Check(prop)
    c.add_model(vf.model_check("MCPaths", timeout=600, coverage=False))
    exe = vf.build("paths", [vf.VERIF + "/harness/paths.cpp"] +
                   vf.sdk_sources())
    k = 10 if vf.THOROUGH else 1
    vf.conformance(c, "TracePaths", exe,
                   vf.simulate("MCPaths", "SimPaths.cfg", 400 * k, 70),
                   "behaviours generated from the model", timeout=60)
    # an array published item by item is not the parent of its items
    t = vf.run_traces(exe, [[
        {"op": "make", "k": "node", "n": "x", "p": 1, "c": 2},
        {"op": "make", "k": "darr", "n": "y", "p": 5, "c": 0},
        {"op": "make", "k": "int", "n": "z", "p": 10, "c": 0},
        {"op": "path", "o": 11}, {"op": "abs", "path": list("/x.[0]")}]])[0]
    vf.log(t[-2:])
    if t[-1]["out"]["v"] != 11 and "darr-item" in c.findings:
        print("KNOWN-FINDING: property=%s %s" %
              (prop, c.findings["darr-item"]), flush=True)
    c.write()
