"""Machinery shared by all checks: run TLC on the models, record traces of the
real code, have TLC judge them, and report."""

import concurrent.futures as cf
import glob
import importlib
import inspect
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DSPS_VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = (
    "/opt/veriftools/tla/tla2tools.jar",
    "/opt/veriftools/tla/CommunityModules-deps.jar",
)
KNOWN = os.path.join(VERIF, "known_findings.json")


class MachineryError(Exception):
    pass


class Absent(BaseException):
    """a private helper of the package is not there (any more)"""


class Lenient:
    """a module of the package; private names may come and go"""

    def __init__(self, mod):
        self._mod = mod

    def __getattr__(self, name):
        if not name.startswith("_"):
            return getattr(self._mod, name)
        try:
            f = getattr(self._mod, name)
            sig = inspect.signature(f)
        except (AttributeError, TypeError, ValueError):
            raise Absent(name)

        def call(*a, **kw):
            try:
                sig.bind(*a, **kw)
            except TypeError:
                raise Absent(name)
            return f(*a, **kw)

        return call


# ---------------------------------------------------------------- encoding
def num(x):
    """numeral of a python/numpy float, exactly round-tripping"""
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def nums(x):
    import numpy as np

    a = np.asarray(x)
    if a.ndim == 0:
        return num(a)
    return [nums(e) for e in a]


def arr(x):
    """the record a returned array is logged as"""
    import numpy as np

    a = np.asarray(x)
    if a.dtype.kind not in "fiub":
        return {"v": [str(s) for s in a.ravel()], "sh": list(a.shape), "dt": str(a.dtype)}
    v = a.astype("f8") if a.dtype.kind in "iub" else a
    return {"v": nums(v), "sh": list(a.shape), "dt": str(a.dtype)}


def dec(x):
    """nested lists of numerals -> float array (scalars -> float)"""
    import numpy as np

    if isinstance(x, str):
        return float(x)
    return np.array(_decl(x), dtype="f8")


def among(i, *xs):
    """With i["among"] = n: the arrays with their entries spread over n, the rest filled with
    values of the same kind; and what picks the places of the original entries from a result."""
    import numpy as np

    n, k = int(i.get("among", 0)), len(xs[0])
    if n <= k:
        return (*xs, lambda a: a)
    rng = np.random.default_rng(n + k)
    pos = rng.choice(n, k, replace=False)
    src = rng.integers(k, size=n)
    big = []
    for x in xs:
        b = x[src] * (1 + 0.01 * rng.random(n))
        b[pos] = x
        big.append(b)

    def pick(a):
        a = np.asarray(a)
        return a[pos] if a.shape == (n,) else a

    return (*big, pick)


def _decl(x):
    return [_decl(e) for e in x] if isinstance(x, list) else float(x)


# ---------------------------------------------------------------- scratch
class Scratch:
    def __init__(self):
        base = os.path.join(VERIF, "build", "tmp")
        try:
            os.makedirs(base, exist_ok=True)
            self.path = tempfile.mkdtemp(prefix="run-", dir=base)
        except OSError:
            self.path = tempfile.mkdtemp(prefix="dspsverif-")

    def new(self, prefix="d"):
        return tempfile.mkdtemp(prefix=prefix + "-", dir=self.path)

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def java_classes(scratch):
    out = os.path.join(VERIF, "build", "classes")
    srcs = glob.glob(os.path.join(VERIF, "java", "dspsnum", "*.java"))
    done = os.path.join(out, ".done")
    if os.path.exists(done) and os.path.getmtime(done) >= max(map(os.path.getmtime, srcs)):
        return out
    out = os.path.join(scratch.path, "classes")
    r = subprocess.run(
        ["/bin/bash", "harness/build_java.sh", out], cwd=VERIF, capture_output=True, text=True
    )
    if r.returncode != 0:
        raise MachineryError("javac failed: " + r.stderr)
    return out


# ---------------------------------------------------------------- TLC
class TLCResult:
    pass


def run_tlc(scratch, classes, module, cfg, env=None, workers=1, timeout=600, xmx="3g", extra=()):
    meta = scratch.new("tlc")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + xmx,
           "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:dspsnum.Nums",
           "-cp", ":".join((classes,) + TLAJARS), "tlc2.TLC", "-nowarning",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-deadlock"]
    cmd += list(extra) + ["-config", cfg, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    outp = os.path.join(meta, "out.txt")
    with open(outp, "w") as fh:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=fh, stderr=subprocess.STDOUT,
                                timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
    text = "".join(ln for ln in open(outp, errors="replace")
                   if not ln.startswith(("Parsing file", "Semantic proc", "Linting of")))
    r = TLCResult()
    r.rc, r.text, r.wall = rc, text, time.time() - t0
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    r.transitions, r.states = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if not m and re.search(r"The number of states generated: (\d+)", text):      # simulation
        r.transitions = r.states = int(re.search(r"states generated: (\d+)", text).group(1))
    r.cases, r.fails, r.skips = [], [], []
    for line in text.splitlines():
        if line.startswith('"CASE ') or line.startswith('"FAIL ') or \
                line.startswith('"SKIP '):
            body = json.loads(_tla_string(line))
            kind, payload = body[:4], json.loads(body[5:])
            {"CASE": r.cases, "FAIL": r.fails, "SKIP": r.skips}[kind].append(payload)
    r.ok = rc == 0
    shutil.rmtree(meta, ignore_errors=True)
    return r


def _tla_string(line):
    return line.strip()


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"]
            if k.get("status") == "open" and k["property"] == pid]


class Ctx:
    """one run of one check"""

    def __init__(self, pid, tier, seed):
        import numpy as np

        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = np.random.default_rng([seed, int(pid[1:])])
        self.t0 = time.time()
        self.scratch = Scratch()
        self.classes = java_classes(self.scratch)
        self.events = []
        self.sessions = 0
        self.states = self.transitions = 0
        self.models = []
        self.violations = []        # dicts
        self.known_hits = {}
        self.traces_ok = 0
        self.events_ok = 0
        self.ops_seen = {}
        self.assumptions = []
        self.ops = {}
        self.sess = None
        self.state = {}
        self.notes = {}
        self._futures = []
        self._pool = cf.ThreadPoolExecutor(4)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- models ------------------------------------------------------
    def model(self, module, cfg=None, workers=None, timeout=800, env=None, extra=()):
        """exhaustively check MC module; returns the cases it emitted"""
        cfg = cfg or module + ".cfg"
        tcfg = cfg.replace(".cfg", "_thorough.cfg")
        if not self.quick and os.path.exists(os.path.join(SPEC, tcfg)):
            cfg = tcfg
        # one worker visits states in the same order every time
        workers = workers or (1 if self.quick else 4)
        r = run_tlc(self.scratch, self.classes, module, cfg, workers=workers, timeout=timeout,
                    env=env, extra=extra)
        if workers > 1:
            r.cases.sort(key=lambda k: json.dumps(k, sort_keys=True))
        if not r.ok:
            raise MachineryError("the specification itself fails: %s/%s\n%s"
                                 % (module, cfg, r.text[-4000:]))
        self.states += r.states
        self.transitions += r.transitions
        self.models.append({"module": module, "cfg": cfg, "states": r.states,
                            "transitions": r.transitions, "cases": len(r.cases),
                            "wall_s": round(r.wall, 1)})
        return r.cases

    # ---- recording ---------------------------------------------------
    def begin(self, label=""):
        self.sessions += 1
        self.sess = {"id": self.sessions, "label": label}
        self.state = {}
        self.events.append({"op": "begin", "in": {"label": label}, "out": {"err": ""},
                            "sid": self.sessions})

    def do(self, op, **inp):
        """call the real code and record the event"""
        try:
            out = self.execute(op, inp)
        except Absent as ex:
            self.notes.setdefault("private helpers not found", {}).setdefault(str(ex), 0)
            self.notes["private helpers not found"][str(ex)] += 1
            return {"err": "absent"}
        self.events.append({"op": op, "in": inp, "out": out, "sid": self.sessions})
        self.ops_seen[op] = self.ops_seen.get(op, 0) + 1
        return out

    def execute(self, op, inp):
        self.beat = time.time()
        self.beat_op = op
        try:
            out = self.ops[op](self, inp)
            out = dict(out)
            out.setdefault("err", "")
        except (KeyboardInterrupt, MachineryError, Absent):
            raise
        except BaseException as ex:  # the outcome of the call, judged by the spec
            if isinstance(ex, SystemExit):
                kind = "SystemExit"
            else:
                kind = type(ex).__name__
            out = {"err": kind, "msg": str(ex)[:200]}
        return out

    # ---- judging -----------------------------------------------------
    def validate(self, module, jobs=None, timeout=850):
        """have TLC judge the recorded events against trace spec `module`"""
        evs, self.events = self.events, []
        if not evs:
            return
        sessions = []
        for e in evs:
            if not sessions or sessions[-1][0]["sid"] != e["sid"]:
                sessions.append([])
            sessions[-1].append(e)
        jobs = jobs or (4 if self.quick else 6)
        jobs = max(1, min(jobs, len(sessions)))
        size = [len(json.dumps(s)) for s in sessions]
        chunks = [[] for _ in range(jobs)]
        load = [0] * jobs
        for s, z in sorted(zip(sessions, size), key=lambda t: -t[1]):
            j = load.index(min(load))
            chunks[j].append(s)
            load[j] += z + 200
        for chunk in chunks:
            if chunk:
                self._futures.append(self._pool.submit(self._judge, module, chunk, timeout))

    def _judge(self, module, chunk, timeout):
        flat = [e for s in chunk for e in s]
        path = os.path.join(self.scratch.new("trace"), "trace.json")
        with open(path, "w") as fh:
            json.dump([_strip(e) for e in flat], fh)
        cfg = module + ".cfg"
        r = run_tlc(self.scratch, self.classes, module, cfg, env={"DSPS_TRACE": path},
                    timeout=timeout, xmx="3g")
        return module, chunk, flat, r

    def collect(self):
        for f in self._futures:
            module, chunk, flat, r = f.result()
            self.states += r.states
            self.transitions += r.transitions
            failed_sids = set()
            for sk in r.skips:
                k = sk["op"] + ": " + sk["why"]
                d = self.notes.setdefault("events_not_judged", {})
                d[k] = d.get(k, 0) + 1
            for fl in r.fails:
                e = flat[fl["l"] - 1]
                self._violation(module, e, fl["clauses"], chunk)
                failed_sids.add(e["sid"])
            if not r.ok or r.states != len(flat) + 1:
                # TLC stopped: either the specification cannot make sense of the
                # next event (its shape is unheard of), or TLC itself broke.
                if ("evaluating" in r.text or "Attempted" in r.text) and \
                        "OutOfMemory" not in r.text:
                    m = re.findall(r"^/?\\?\s*l = (\d+)", r.text, re.M) or \
                        re.findall(r"l = (\d+)", r.text)
                    i = int(m[-1]) - 1 if m else 0
                    e = flat[min(i, len(flat) - 1)]
                    print("TLC could not evaluate event %d of %s:\n%s"
                          % (i + 1, module, "\n".join(r.text[-3000:].splitlines()[:12])), file=sys.stderr)
                    self._violation(module, e, ["the specification can evaluate the event"], chunk)
                    failed_sids.add(e["sid"])
                else:
                    raise MachineryError("TLC failed on %s\n%s" % (module, r.text[-3000:]))
            for s in chunk:
                if s[0]["sid"] not in failed_sids:
                    self.traces_ok += 1
                    self.events_ok += len(s)
        self._futures = []

    def _violation(self, module, e, clauses, chunk):
        for k in known_findings(self.pid):
            if k.get("op") in (None, e["op"]) and all(c in k["clauses"] for c in clauses) and \
                    _matches(k.get("when"), e):
                self.known_hits.setdefault(k["id"], k)
                return
        sess = next(s for s in chunk if s[0]["sid"] == e["sid"])
        self.violations.append({"module": module, "event": e, "clauses": sorted(clauses),
                                "session": sess[: sess.index(e) + 1]})

    def direct_violation(self, what, detail):
        self.violations.append({"module": "-", "event": {"op": what, "in": detail, "out": {}},
                                "clauses": [what], "session": []})

    # ---- reporting ---------------------------------------------------
    def finish(self, level="model_checking"):
        self.collect()
        for k in known_findings(self.pid):
            if k["id"] in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        samples = self.notes.pop("samples", [])
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces_ok,
                "events_validated_against_impl": self.events_ok,
                "calls_by_operation": dict(sorted(self.ops_seen.items())),
                "models": self.models, "samples": samples, **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        rc = 0
        if self.violations:
            rc = 1
            rdir = os.path.join(VERIF, "build", "replay")
            os.makedirs(rdir, exist_ok=True)
            shown = {}
            for v in self.violations:
                key = (v["event"]["op"], tuple(v["clauses"]))
                shown.setdefault(key, []).append(v)
            for i, (key, vs) in enumerate(list(shown.items())[:5]):
                p = os.path.join(rdir, "%s-%d.json" % (self.pid, i + 1))
                with open(p, "w") as fh:
                    json.dump(vs[0], fh, indent=1)
                print("  %s: %s  (%d events)" % (key[0], "; ".join(key[1])[:300], len(vs)))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
        else:
            print("OK property=%s tier=%s states=%d traces=%d events=%d calls=%d wall=%.1fs"
                  % (self.pid, self.tier, self.states, self.traces_ok, self.events_ok,
                     sum(self.ops_seen.values()), time.time() - self.t0))
        sys.stdout.flush()
        return rc

    def close(self):
        self._pool.shutdown(wait=False, cancel_futures=True)
        self.scratch.close()


def _strip(e):
    return {"op": e["op"], "in": e["in"], "out": e["out"]}


def _matches(when, e):
    """a known finding names the exact inputs it is about"""
    if not when:
        return True
    return all(e["in"].get(k) == v for k, v in when.items())


# ---------------------------------------------------------------- the repo
def import_dsps():
    """import the package from the working tree of /repo"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "dsps", "_version.py")):
        import types

        m = types.ModuleType("dsps._version")
        m.__version__ = m.version = "0.0.0"
        sys.modules["dsps._version"] = m
    import dsps

    here = os.path.realpath(os.path.dirname(dsps.__file__))
    if here != os.path.realpath(os.path.join(REPO, "dsps")):
        raise MachineryError("imported dsps from " + here)
    return dsps


def prop_module(pid):
    return importlib.import_module("harness.props." + pid.lower())


def run_check(pid, tier, seed):
    ctx = Ctx(pid, tier, seed)
    ctx.beat, ctx.beat_op = time.time(), "start"
    stop = threading.Event()

    def watch():
        while not stop.wait(2):
            limit = 200 if tier == "quick" else 500
            if time.time() - ctx.beat > limit and not ctx._futures and ctx.beat_op != "start" \
                    and ctx.beat_op != "idle":
                print("call of %s did not return within %d s" % (ctx.beat_op, limit))
                rdir = os.path.join(VERIF, "build", "replay")
                os.makedirs(rdir, exist_ok=True)
                p = os.path.join(rdir, pid + "-hang.json")
                json.dump({"hang": ctx.beat_op}, open(p, "w"))
                print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
                os._exit(1)

    threading.Thread(target=watch, daemon=True).start()
    try:
        mod = prop_module(pid)
        ctx.ops = mod.OPS
        mod.run(ctx)
        ctx.beat_op = "idle"
        return ctx.finish(getattr(mod, "LEVEL", "model_checking"))
    finally:
        stop.set()
        ctx.close()


def run_replay(pid, path):
    rec = json.load(open(path))
    ctx = Ctx(pid, "quick", 1)
    try:
        mod = prop_module(pid)
        ctx.ops = mod.OPS
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        for e in rec["session"]:
            if e["op"] == "begin":
                ctx.begin(e["in"].get("label", "replay"))
            else:
                out = ctx.do(e["op"], **e["in"])
                print(e["op"], json.dumps(e["in"])[:400], "->", json.dumps(out)[:400])
        ctx.validate(rec["module"], jobs=1)
        ctx.collect()
        for v in ctx.violations:
            print("BROKEN", v["event"]["op"], v["clauses"])
        return 1 if ctx.violations else 0
    finally:
        ctx.close()
