"""Common machinery of the checks: builds the code under test from /repo's
working tree, runs TLC (model checking, simulation, trace validation), drives
the harnesses and writes evidence.  No behaviour of the system under test is
described here: that is the job of /verif/specs."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SPECS = os.path.join(VERIF, "specs")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
JAVA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
           "/opt/veriftools/tla/CommunityModules-deps.jar")
T0 = time.time()


class ToolError(Exception):
    """The machinery failed: no verdict (exit 2)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# --------------------------------------------------------------------- build
INCLUDES = ["-I" + VERIF + "/smp", "-I" + REPO + "/include",
            "-I" + REPO + "/src", "-I" + REPO + "/src-gen",
            "-I" + VERIF + "/harness"]
BASE_FLAGS = ["-std=c++17", "-g1", "-O0", "-fPIC", "-w", "-pthread"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread"]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_hash():
    h = hashlib.sha256()
    files = []
    for root in (VERIF + "/smp", VERIF + "/harness", REPO + "/include",
                 REPO + "/src", REPO + "/src-gen"):
        for d, dirs, names in os.walk(root):
            for n in names:
                if not n.endswith((".cpp", ".o")):
                    files.append(os.path.join(d, n))
    for f in sorted(files):
        h.update(f.encode())
        h.update(_read(f))
    return h.hexdigest()


def repo_sources(*patterns):
    out = set()
    for p in patterns:
        got = glob.glob(os.path.join(REPO, p), recursive=True)
        out.update(got)
    return sorted(out)


# every translation unit of the SDK itself, except the extern "C" package
# entry points (each library exports the same two symbols), the generated and
# hand written test models, and the python binding
def sdk_sources():
    s = repo_sources("src/Smp/**/*.cpp", "src/Xsmp/**/*.cpp",
                     "src-gen/**/*.cpp", "src/xsmp_services.cpp")
    return [x for x in s if not x.endswith(".pkg.cpp")
            and "/Tests/" not in x and "xsmp_tests" not in x]


_hh = None


def compile_objs(srcs, flags):
    """Compiles srcs (cached by content); returns object paths."""
    global _hh
    if _hh is None:
        _hh = _headers_hash()
    os.makedirs(CACHE + "/obj", exist_ok=True)

    def one(src):
        key = hashlib.sha256(("|".join(flags) + "|" + src + "|" + _hh).encode()
                             + _read(src)).hexdigest()[:32]
        obj = "%s/obj/%s.o" % (CACHE, key)
        if os.path.exists(obj):
            return src, obj, 0, ""
        tmp = "%s.%d.tmp.o" % (obj, os.getpid())
        r = subprocess.run(["g++"] + flags + INCLUDES + ["-c", src, "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, obj)
        return src, obj, r.returncode, r.stderr

    objs = []
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for src, obj, rc, err in ex.map(one, srcs):
            if rc:
                raise ToolError("compilation of %s failed:\n%s" %
                                (src, err[:3000]))
            objs.append(obj)
    return objs


def build(name, srcs, flags=None, libs=(), shared=False, link=()):
    flags = BASE_FLAGS + (ASAN if flags is None else list(flags))
    objs = compile_objs(srcs, flags)
    key = hashlib.sha256(("|".join(objs) + "|".join(flags) + "|".join(libs) +
                          "|".join(link) + str(shared)).encode()).hexdigest()[:16]
    os.makedirs(CACHE + "/bin", exist_ok=True)
    out = "%s/bin/%s%s" % (CACHE, name, "" if not shared else ".so")
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and \
            _read(stamp).decode() == key:
        return out
    cmd = ["g++"] + flags + (["-shared"] if shared else ["-rdynamic"]) + \
        ["-o", out] + objs + list(link) + ["-ldl"] + list(libs)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("link of %s failed:\n%s" % (name, r.stderr[:3000]))
    with open(stamp, "w") as f:
        f.write(key)
    return out


# ----------------------------------------------------------------------- TLC
def _java(args, timeout, env=None, heap="4g", props=()):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    tmp = args[args.index("-metadir") + 1]
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + tmp] + \
        list(props) + ["-cp", JAVA_CP, "tlc2.TLC"] + args
    try:
        r = subprocess.run(cmd, cwd=SPECS, capture_output=True, text=True,
                           timeout=timeout, env=e)
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return None, out
    return r.returncode, r.stdout + r.stderr


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


COUNT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model_check(module, cfg=None, timeout=600, workers=8, heap="8g",
                coverage=True):
    """Exhaustive TLC run. Returns dict(states, transitions, actions)."""
    cfg = cfg or module + ".cfg"
    if os.environ.get("VF_DEV"):  # while a harness is being written
        return {"model": cfg, "states": 0, "transitions": 0, "actions": {}}
    with Scratch() as d:
        rc, out = _java(["-config", cfg, "-metadir", d, "-workers",
                         str(workers), "-noGenerateSpecTE"] +
                        (["-coverage", "1000"] if coverage else []) +
                        [module + ".tla"], timeout, heap=heap)
    m = COUNT.findall(out)
    if rc is None:
        raise ToolError("TLC timed out on %s" % cfg)
    if rc != 0 or "No error has been found" not in out or not m:
        raise ToolError("TLC reports a problem in the model %s:\n%s" %
                        (cfg, _shorten(out)))
    acts = {}
    for mm in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        acts[mm.group(1)] = acts.get(mm.group(1), 0) + int(mm.group(3))
    res = {"model": cfg, "states": int(m[-1][1]), "transitions": int(m[-1][0]),
           "actions": acts}
    log("model", cfg, "states", res["states"], "transitions",
        res["transitions"])
    return res


def _shorten(out, n=6000):
    return out if len(out) < n else out[:n // 2] + "\n...\n" + out[-n // 2:]


def simulate(module, cfg, num, depth, timeout=300, seed=None, env=None):
    """Random behaviours of the model: list of histories (lists of op
    records), emitted by the model's Emit constraint at level `depth`."""
    with Scratch() as d:
        rc, out = _java(["-config", cfg, "-metadir", d, "-workers", "1",
                         "-noGenerateSpecTE", "-simulate", "num=%d" % num,
                         "-depth", str(depth + 1), "-seed",
                         str(SEED if seed is None else seed), module + ".tla"],
                        timeout, env=env)
    hs = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            s = json.loads(line)[2:]
            hs.append(json.loads(s))
        elif line.startswith("@@"):
            hs.append(json.loads(line[2:]))
    if not hs or "is violated" in out or "Error:" in out:
        raise ToolError("no behaviour generated by %s:\n%s" %
                        (cfg, _shorten(out)))
    log("generated", len(hs), "behaviours from", cfg)
    return hs


def enumerate_all(module, cfg, timeout=300, env=None):
    """Exhaustive run of a model whose Emit prints every maximal history."""
    with Scratch() as d:
        rc, out = _java(["-config", cfg, "-metadir", d, "-workers", "1",
                         "-noGenerateSpecTE", module + ".tla"], timeout,
                        env=env)
    hs = [json.loads(json.loads(x)[2:]) for x in out.splitlines()
          if x.startswith('"@@')]
    if rc != 0 or not hs:
        raise ToolError("no behaviour enumerated by %s:\n%s" %
                        (cfg, _shorten(out)))
    log("enumerated", len(hs), "behaviours from", cfg)
    return hs


def validate(module, traces, cfg=None, timeout=600, workers=8, heap="8g",
             env=None, deterministic=True):
    """Checks recorded traces against the specification.
    Returns None if all are behaviours of it, else a dict describing the first
    rejected trace: {tid, pos, text}."""
    cfg = cfg or module + ".cfg"
    if not traces:
        raise ToolError("no traces to validate")
    for i, t in enumerate(traces):
        if t and t[-1]["op"] == "teardown":
            # no specification has a step that ends the process
            return {"tid": i, "pos": len(t) - 1, "text":
                    "every operation returned, then the process failed: " +
                    json.dumps(t[-1]["out"])}
    with Scratch() as d:
        f = os.path.join(d, "traces.json")
        with open(f, "w") as fh:
            json.dump(traces, fh)
        e = {"TRACES": f}
        e.update(env or {})
        rc, out = _java(["-config", cfg, "-metadir", d, "-workers",
                         str(workers), "-noGenerateSpecTE", module + ".tla"],
                        timeout, env=e, heap=heap)
    if rc is None:
        raise ToolError("trace validation timed out on %s" % cfg)
    m = COUNT.findall(out)
    want = sum(len(t) + 1 for t in traces)
    if rc == 0 and "No error has been found" in out and m:
        if not deterministic or int(m[-1][1]) == want:
            return None
        # some trace got stuck: locate it
        return {"tid": None, "pos": None, "text":
                "the specification has no step for some recorded operation "
                "(%s states instead of %d)" % (m[-1][1], want)}
    bad = re.findall(r"/\\ tid = (\d+)", out)
    pos = re.findall(r"/\\ l = (\d+)", out)
    if ("is violated" in out or "Error: Evaluating" in out or
            "Attempted to" in out or "encountered a CASE" in out) and bad:
        i = out.rfind("\nState ")
        head = "\n".join(x for x in out.splitlines()
                         if x.startswith("Error"))[:1500]
        return {"tid": int(bad[-1]) - 1, "pos": int(pos[-1]) - 2 if pos else
                None, "text": head + "\n" + out[i:i + 3000]}
    raise ToolError("TLC failed on trace validation %s:\n%s" %
                    (cfg, _shorten(out)))


# ------------------------------------------------------------------- harness
def enc(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, (list, tuple)):
        return ",".join(enc(x) for x in v)
    if isinstance(v, dict):  # a nested operation
        return "|".join([v["op"]] + ["%s!%s" % (k, enc(x).replace(",", ";"))
                                     for k, x in
                                     sorted(v.items()) if k != "op"])
    s = str(v)
    return "".join(c if c.isalnum() or c in "_-./[]*:" else "%%%02x" % ord(c)
                   for c in s)


def op_line(op):
    return " ".join([op["op"]] + ["%s=%s" % (k, enc(v)) for k, v in
                                  sorted(op.items()) if k not in ("op", "out")])


HENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
        "allocator_may_return_null=1",
        "TSAN_OPTIONS": "exitcode=98:halt_on_error=0",
        "LC_ALL": "C.UTF-8", "TZ": "UTC"}


def _run_harness(binary, traces, timeout, args, env):
    """One process, many traces. Returns (list of completed outs, crash)"""
    text = "".join("@reset %d\n" % i + "".join(op_line(o) + "\n" for o in t)
                   for i, t in enumerate(traces)) + "@end\n"
    e = dict(os.environ)
    e.update(HENV)
    e.update(env or {})
    with Scratch() as d:
        p = subprocess.Popen([binary] + list(args), stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=e, cwd=d, text=True, errors="replace")
        try:
            so, se = p.communicate(text, timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            hung = True
    return p.returncode, so, se, hung


def _gist(se):
    ls = [x for x in se.splitlines() if re.search(
        r"ERROR|SUMMARY|terminate called|what\(\)|^    #[0-9] ", x)]
    return "\n".join(ls[:14]) or se[-800:]


def run_traces(binary, traces, timeout=120, args=(), env=None, par=8,
               retry_crash=True):
    """Executes op lists against the real code. Every op gets an `out`.  A
    crash or hang becomes out.e = CRASH/HANG on the operation that did not
    return."""
    n = max(1, min(par, len(traces)))
    parts = [list(range(i, len(traces), n)) for i in range(n)]
    result = [None] * len(traces)

    def work(ids):
        todo = list(ids)
        while todo:
            rc, so, se, hung = _run_harness(binary, [traces[i] for i in todo],
                                            timeout, args, env)
            cur = -1
            outs = {}
            done = False
            for line in so.splitlines():
                if line.startswith("@reset "):
                    cur = int(line.split()[1])
                    outs[cur] = []
                elif line.startswith("@end"):
                    done = True
                elif line.startswith("@out ") and cur >= 0:
                    try:
                        outs[cur].append(json.loads(line[5:]))
                    except ValueError:
                        pass
            if "Shadow memory range interleaves" in se:
                continue
            if done and rc == 0 and len(outs) == len(todo):
                for k, i in enumerate(todo):
                    result[i] = _merge(traces[i], outs[k])
                return
            if cur < 0:
                raise ToolError("harness %s did not start: rc=%s %s" %
                                (binary, rc, se[-2000:]))
            kind = "HANG" if hung else "CRASH"
            for k in range(cur):
                result[todo[k]] = _merge(traces[todo[k]], outs[k])
            i = todo[cur]
            t = _merge(traces[i], outs[cur])
            nret = len(outs[cur])
            if nret < len(traces[i]):
                t.append(dict(traces[i][nret], out={"e": kind, "v": 0}))
            else:
                # every operation returned: the failure is in the teardown
                t.append({"op": "teardown", "out": {"e": kind, "v": 0}})
            t[-1]["stderr"] = _gist(se) or "exit %s" % rc
            result[i] = t
            todo = todo[cur + 1:]
            timeout_left[0] -= 8 if hung else 1
            if timeout_left[0] < 0:
                for i in todo:
                    result[i] = []
                return

    timeout_left = [20]

    # an operation whose precondition does not hold is not executed
    def _merge(ops, outs):
        return [dict(o, out=x) for o, x in zip(ops, outs)
                if x["e"] != "skipped"]

    with cf.ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(work, p) for p in parts]:
            f.result()
    return result


# ---------------------------------------------------------------- evidence
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
        self.findings = known_findings(prop)

    def add_model(self, r):
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.cov.setdefault("models", []).append(
            {k: r[k] for k in ("model", "states", "transitions", "actions")})

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def write(self, **extra):
        self.cov.update(extra)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED,
              "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - T0, 2)}
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")

    def violation(self, what, payload):
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = "%s/replays/%s.json" % (VERIF, self.prop)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": SEED,
                       "tier": TIER, "payload": payload}, f, indent=1)
        self.write(violation=what[:2000])
        print(what[:6000])
        print("VIOLATION property=%s replay=%s" % (self.prop, path),
              flush=True)
        sys.exit(1)


def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=<id> key=<key> <text>' of
    known_findings.txt."""
    out = {}
    try:
        with open(VERIF + "/known_findings.txt") as f:
            for line in f:
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)",
                             line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return out


def conformance(chk, module, binary, op_traces, label, cfg=None, batch=4000,
                rerun=True, args=(), env=None, timeout=120, tlc_timeout=600,
                post=None, par=8, timed=False):
    """Runs op_traces on the real code and validates what was recorded with
    TLC.  A rejection is confirmed by running the rejected operations again."""
    t0 = time.time()
    traces = run_traces(binary, op_traces, timeout=timeout, args=args, env=env,
                        par=par)
    if post:
        traces = [post(t) for t in traces]
    clean = [[{k: v for k, v in e.items() if k != "stderr"} for e in t]
             for t in traces if t]
    nev = sum(len(t) for t in clean)
    t1 = time.time()
    # crashes need no oracle: no specified operation has that outcome
    crashed = [t for t in traces if t and
               t[-1]["out"].get("e") in ("CRASH", "HANG")]
    dropped = 0
    for i in range(0, len(clean), batch):
        part = clean[i:i + batch]
        while part:
            bad = validate(module, part, cfg=cfg, timeout=tlc_timeout)
            if bad is None:
                break
            if bad["tid"] is None:
                bad["tid"] = locate_stuck(module, part, cfg, tlc_timeout)
            t = part[bad["tid"]]
            m = minimise(chk, module, binary, t, cfg, args, env, timeout,
                         tlc_timeout, post) if rerun else \
                [{"trace": t, "text": bad["text"]}]
            if m is None and not timed:
                # not alone: perhaps after the traces that preceded it
                m = again(module, binary, op_traces, cfg, args, env, timeout,
                          tlc_timeout, post, par, batch)
            if m is None:
                # it did not repeat: an execution disturbed from outside
                # (the clock of a loaded machine) proves nothing
                log("a rejected execution did not repeat, left out:",
                    bad["text"][-300:])
                dropped += 1
                if dropped > 25:
                    raise ToolError("too many recorded executions were "
                                    "rejected once and never again:\n" +
                                    bad["text"])
                part = part[:bad["tid"]] + part[bad["tid"] + 1:]
                continue
            b2 = m[0]
            orig = next((x for x in crashed if [e["op"] for e in x] ==
                         [e["op"] for e in b2["trace"]]), None)
            chk.violation(
                "%s: recorded execution of the implementation is not a "
                "behaviour of the specification %s\n%s\nlast operation: "
                "%s%s" % (label, module, b2["text"],
                          json.dumps(b2["trace"][-1]),
                          "\n" + orig[-1].get("stderr", "") if orig else ""),
                {"module": module, "binary": os.path.basename(binary),
                 "args": list(args), "trace": b2["trace"]})
    chk.cov["traces_validated_against_impl"] += len(clean) - dropped
    chk.cov["impl_events"] = chk.cov.get("impl_events", 0) + nev
    chk.cov.setdefault("conformance", []).append(
        {"label": label, "spec": module, "traces": len(clean), "events": nev,
         "ops": opcount(clean), "outcomes": outcount(clean)})
    if clean:
        chk.sample({"label": label, "trace": clean[len(clean) // 2][:8]})
    log("%s: %d traces, %d events conform to %s (run %.1fs, tlc %.1fs)" %
        (label, len(clean), nev, module, t1 - t0, time.time() - t1))
    return clean


def opcount(traces):
    c = {}
    for t in traces:
        for e in t:
            c[e["op"]] = c.get(e["op"], 0) + 1
    return c


def outcount(traces):
    c = {}
    for t in traces:
        for e in t:
            k = e["op"] + "/" + str(e["out"].get("e"))
            c[k] = c.get(k, 0) + 1
    return c


def locate_stuck(module, traces, cfg, timeout):
    lo = list(range(len(traces)))
    while len(lo) > 1:
        h = lo[:len(lo) // 2]
        if validate(module, [traces[i] for i in h], cfg=cfg,
                    timeout=timeout) is not None:
            lo = h
        else:
            lo = lo[len(lo) // 2:]
    return lo[0]


def again(module, binary, op_traces, cfg, args, env, timeout, tlc_timeout,
          post, par, batch):
    """Runs everything again, twice: a rejection that needs the traces before
    it in the same process shows up again."""
    for _ in range(2):
        traces = run_traces(binary, op_traces, timeout=timeout, args=args,
                            env=env, par=par)
        traces = [post(t) if post else t for t in traces]
        clean = [[{k: v for k, v in e.items() if k != "stderr"} for e in t]
                 for t in traces if t]
        for i in range(0, len(clean), batch):
            part = clean[i:i + batch]
            bad = validate(module, part, cfg=cfg, timeout=tlc_timeout)
            if bad is not None:
                if bad["tid"] is None:
                    bad["tid"] = locate_stuck(module, part, cfg, tlc_timeout)
                return [{"trace": part[bad["tid"]], "text": bad["text"]}]
    return None


def minimise(chk, module, binary, trace, cfg, args, env, timeout, tlc_timeout,
             post):
    """Re-executes the rejected operations and, if rejected again, shortens
    them."""
    def attempt(ops):
        t = run_traces(binary, [ops], timeout=timeout, args=args, env=env,
                       par=1)[0]
        if post:
            t = post(t)
        t = [{k: v for k, v in e.items() if k != "stderr"} for e in t]
        if not t:
            return None
        b = validate(module, [t], cfg=cfg, timeout=tlc_timeout, workers=1)
        if b is None:
            return None
        p = b["pos"]
        return {"trace": t[:p + 1] if p is not None and p >= 0 else t,
                "text": b["text"]}

    ops = [{k: v for k, v in e.items() if k != "out"} for e in trace
           if e["op"] != "teardown"]
    best = None
    for _ in range(3):
        best = attempt(ops)
        if best:
            break
    if not best:
        return None
    deadline = time.time() + 40
    ops = [{k: v for k, v in e.items() if k != "out"} for e in best["trace"]
           if e["op"] != "teardown"]
    size = max(1, len(ops) // 2)
    while size >= 1 and time.time() < deadline:
        i = 0
        changed = False
        while i < len(ops) and time.time() < deadline:
            cand = ops[:i] + ops[i + size:]
            r = attempt(cand) if cand else None
            if r:
                best, changed = r, True
                ops = [{k: v for k, v in e.items() if k != "out"}
                       for e in r["trace"] if e["op"] != "teardown"]
            else:
                i += size
        if not changed:
            size //= 2
    return [best]


def main(fn):
    """Runs a check function; maps machinery failures to exit code 2."""
    try:
        fn()
    except ToolError as e:
        print("ERROR:", e, flush=True)
        sys.exit(2)


def rng(tag=""):
    return random.Random("%d/%s" % (SEED, tag))
