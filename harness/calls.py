"""Calls of the public functions as such: histories, threads, batches,
transformations, processes."""

import concurrent.futures as cf
import json
import os
import queue
import subprocess
import sys
import threading

import numpy as np

from . import registry as R
from .core import VERIF, arr, import_dsps

_D = {}
OBJS = {"o0": 0, "o1": 1}


def D():
    if not _D:
        import_dsps()
        import jax

        _D.update(jax=jax)
    return _D


def key(f, o, v):
    return "%s/%s/%s" % (f, o, v)


def _res(x):
    return [arr(v) for v in R.leaves(x)]


# ---------------------------------------------------------------- processes
class Worker:
    """a process that answers requests in order"""

    def __init__(self, env=None):
        e = dict(os.environ)
        e.pop("JAX_ENABLE_X64", None)
        e.pop("DSPS_DRN", None)
        e.update(env or {})
        self.p = subprocess.Popen([sys.executable, "-m", "harness.worker"], cwd=VERIF, env=e,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)

    def ask(self, q):
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        return json.loads(line) if line else {"err": "process died"}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()


def run_processes(plans, jobs=6):
    """plans: [(env, [request, ...])]; the answers, in the same order"""

    def one(plan):
        env, qs = plan
        w = Worker(env)
        try:
            return [w.ask(q) for q in qs]
        finally:
            w.close()

    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, plans))


# ---------------------------------------------------------------- C27
def reference(c, i):
    """the call made in another process"""
    if "known" in c.state:
        return c.state["known"][i["key"]]
    f, o, v = i["key"].split("/")
    q = {"op": "call", "f": f, "ver": int(v), "size": OBJS[o]}
    return c.state["worker"].ask(q)


def bufs(c, f, o):
    b = c.state.setdefault("bufs", {})
    if (f, o) not in b:
        b[f, o] = [a.copy() if isinstance(a, np.ndarray) else a
                   for a in R.BY[f].args(int(c.state["ver"][o]), OBJS[o])]
    return b[f, o]


def set_(c, i):
    """overwrite the arrays in place, the floats by assignment"""
    c.state.setdefault("ver", {})[i["o"]] = i["v"]
    for (f, o), b in c.state.setdefault("bufs", {}).items():
        if o == i["o"]:
            for k, a in enumerate(R.BY[f].args(int(i["v"]), OBJS[o])):
                if isinstance(a, np.ndarray):
                    b[k][...] = a
                else:
                    b[k] = a
    return {}


class Pause:
    """stops the thread that runs the package's code before its k-th line, until
    it is let go; counts the lines"""

    def __init__(self, k):
        self.k, self.n = k, 0
        self.here, self.go = threading.Event(), threading.Event()

    def __call__(self, frame, event, arg):
        return self.line if "%sdsps%s" % (os.sep, os.sep) in frame.f_code.co_filename else None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.k:
                self.here.set()
                self.go.wait()
        return self.line

    def run(self, f):
        sys.settrace(self)
        try:
            return f()
        finally:
            sys.settrace(None)
            self.here.set()


def lines(f, o, v):
    """how many of the package's own lines a call runs through (0 when compiled)"""
    g, p = R.BY[f], Pause(0)
    a = g.args(int(v), OBJS[o])
    g.load()(*a)
    p.run(lambda: g.load()(*a))
    return p.n


class Thread:
    def __init__(self):
        self.q, self.a = queue.Queue(), queue.Queue()
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.a.put(("", f()))
            except BaseException as ex:
                self.a.put((type(ex).__name__, str(ex)[:200]))


def start(c, i):
    f = R.BY[i["f"]]
    b = bufs(c, i["f"], i["o"])
    was = [a.tobytes() if isinstance(a, np.ndarray) else a for a in b]
    th = c.state.setdefault("threads", {}).setdefault(i["t"], Thread())
    c.state.setdefault("in", {})[i["t"]] = (b, was)

    def call():
        r = f.load()(*b)
        return D()["jax"].tree_util.tree_map(_ready, r), r

    if "pause" in i:
        p = c.state.setdefault("paused", {})[i["t"]] = Pause(i["pause"])
        th.q.put(lambda: p.run(call))
        p.here.wait(30)
    else:
        th.q.put(call)
    return {}


def _ready(x):
    if hasattr(x, "block_until_ready"):
        x.block_until_ready()
    return 0


def finish(c, i):
    paused = c.state.get("paused", {})
    if i["t"] in paused:
        paused.pop(i["t"]).go.set()
    try:
        err, r = c.state["threads"][i["t"]].a.get(timeout=20 if paused else None)
    except queue.Empty:                 # it waits for a call that is stopped
        for t in list(paused):
            paused.pop(t).go.set()
        err, r = c.state["threads"][i["t"]].a.get()
    b, was = c.state["in"].pop(i["t"])
    if err:
        return {"err": err, "msg": r, "same": True, "r": []}
    c.state.setdefault("res", []).append(r[1])
    now = [a.tobytes() if isinstance(a, np.ndarray) else a for a in b]
    return {"r": _res(r[1]), "same": now == was}


def fail(c, i):
    """arguments of the wrong shape, kind or number"""
    f = R.BY[i["f"]]
    a = f.args(1, 0)
    how = i["how"]
    if how == "shape":
        a = [np.zeros((2, 3, 2)) if isinstance(x, np.ndarray) else x for x in a]
    elif how == "text":
        a[0] = "text"
    else:
        a = a[:-1] + [None]
    try:
        f.load()(*a)
    except BaseException:
        pass
    return {}


def recall(c, i):
    return {"r": _res(c.state["res"][i["k"] - 1])}


def scribble(c, i):
    """the caller overwrites a result it got, as far as results can be written"""
    r = c.state["res"][i["k"] - 1]
    for x in R.leaves(r):
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = -1.7 * x + 3
    return {"r": _res(r)}


def _show(x):
    if isinstance(x, dict):
        return [[str(k), _show(v)] for k, v in x.items()]
    if isinstance(x, (tuple, list)) or hasattr(x, "_fields"):
        return [_show(v) for v in x]
    if isinstance(x, (str, int, bool, type(None))):
        return str(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if hasattr(x, "dtype") and hasattr(x, "shape"):
        return [str(x.dtype)] + [repr(v) for v in np.asarray(x).ravel().tolist()][:3000]
    return None


def consts(c, i):
    """every public table and constant of the loaded modules"""
    import types

    out = []
    for m in sorted(sys.modules):
        if not (m == "dsps" or m.startswith("dsps.")) or ".tests" in m:
            continue
        mod = sys.modules[m]
        for n in sorted(vars(mod)):
            v = vars(mod)[n]
            if n.startswith("_") or isinstance(v, (types.ModuleType, type)) or callable(v):
                continue
            s = _show(v)
            if s is not None:
                out.append([m + "." + n, json.dumps(s)])
    return {"c": out + settings()}


def settings():
    """what the process is set to, for everybody in it"""
    import hashlib
    import random
    import locale

    def h(x):
        return hashlib.sha256(repr(x).encode()).hexdigest()

    np_state = np.random.get_state()
    jax = D()["jax"]
    return [["process: " + n, v] for n, v in (
        ("numpy's random numbers", h((np_state[0], np_state[1].tolist()) + tuple(np_state[2:]))),
        ("Python's random numbers", h(random.getstate())),
        ("numpy's errors", h(sorted(np.geterr().items()))),
        ("numpy's printing", h(sorted(np.get_printoptions().items(), key=str))),
        ("the working folder", os.getcwd()),
        ("the environment", h(sorted(os.environ.items()))),
        ("the locale", h(locale.setlocale(locale.LC_ALL))),
        ("the import path", h(sys.path)),
        ("the recursion limit", str(sys.getrecursionlimit())),
        ("jax's settings", h(sorted((k, str(v)) for k, v in jax.config.values.items()))))]


def end(c):
    for t in c.state.get("threads", {}).values():
        t.q.put(None)


# ---------------------------------------------------------------- C30
def _mixed(f, size, slots, vers):
    """base arguments with the arguments at `slots` taken from other versions"""
    a = f.args(0, size)
    for s, v in zip(slots, vers):
        if v:
            a[s] = f.args(v, size)[s]
    return a


def mkey(f, size, mix):
    return "%s/%d/%s" % (f, size, ",".join("%d=%d" % (s, v) for s, v in sorted(mix.items()) if v))


def _parse(k):
    f, size, mix = k.split("/")
    d = dict(tuple(map(int, m.split("="))) for m in mix.split(",") if m)
    return R.BY[f], int(size), d


def _keyed(k):
    f, size, d = _parse(k)
    return f, _mixed(f, size, list(d), list(d.values()))


def single(c, i):
    f, a = _keyed(i["key"])
    if "whole" in i:
        a = [R.whole(x) if s in i["whole"] else x for s, x in enumerate(a)]
    if "z" in i:                        # scalar base of a mapped variant
        f = R.BY[i["base"]]
        a = [float(i["z"])] + a[1:]
    return {"r": _res(f.load()(*a))}


def variant(c, i):
    jax = D()["jax"]
    f, a = _keyed(i["key"])
    g, kind = f.load(), i["kind"]
    if "whole" in i:                    # whole numbers, given as integers
        a = [R.integer(R.whole(x), i["numpy"]) if s in i["whole"] else x for s, x in enumerate(a)]
        return {"r": _res(g(*a))}
    if kind == "jitted":
        return {"r": _res(jax.jit(lambda *x: g(*x))(*a))}
    if kind == "jitted and some arguments constant":
        b = f.batch[0] if f.batch else 0
        return {"r": _res(jax.jit(lambda x: g(*a[:b], x, *a[b + 1:]))(a[b]))}
    if kind == "run without jit":
        with jax.disable_jit():
            return {"r": _res(g(*a))}
    if kind == "given jax arrays":
        return {"r": _res(g(*[jax.numpy.asarray(x) for x in a]))}
    if kind == "given numpy scalars":
        return {"r": _res(g(*[np.float64(x) if isinstance(x, float) else x for x in a]))}
    if kind == "given strided arrays":
        return {"r": _res(g(*[_strided(x) if isinstance(x, np.ndarray) else x for x in a]))}
    if kind == "differentiated as well":
        r = jax.jvp(lambda *x: g(*x), a, [jax.numpy.zeros_like(x) for x in a])
        return {"r": _res(r[0])}
    raise ValueError(kind)


KINDS = ["jitted", "jitted and some arguments constant", "run without jit", "given jax arrays",
         "given numpy scalars", "given strided arrays", "differentiated as well"]


def _strided(x):
    big = np.full(tuple(2 * n for n in x.shape), 7, dtype=x.dtype)
    v = big[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    return v


def _stack(f, size, slots, vers):
    a = {}
    for s in slots:
        a[s] = np.stack([np.asarray(f.args(v, size)[s]) for v in vers])
    return a


def batch(c, i):
    jax = D()["jax"]
    f, size = R.BY[i["f"]], i["size"]
    a = f.args(0, size)
    ax = [None] * len(a)
    for s, x in _stack(f, size, i["slots"], i["vers"]).items():
        # the batch axis may be any axis
        d = i["axis"] if np.ndim(x) > 1 else 0
        a[s], ax[s] = np.moveaxis(x, 0, d), d
    g = jax.vmap(lambda *x: f.load()(*x), in_axes=ax)
    return {"r": _res((jax.jit(g) if i["jit"] else g)(*a))}


def batch2(c, i):
    jax = D()["jax"]
    f, size = R.BY[i["f"]], i["size"]
    a = f.args(0, size)
    ax1, ax2 = [None] * len(a), [None] * len(a)
    for s, x in _stack(f, size, i["slots"], i["vers"]).items():
        a[s], ax1[s] = x, 0
    for s, x in _stack(f, size, i["slots2"], i["vers2"]).items():
        a[s], ax2[s] = x, 0
    g = jax.vmap(jax.vmap(lambda *x: f.load()(*x), in_axes=ax2), in_axes=ax1)
    return {"r": _res((jax.jit(g) if i["jit"] else g)(*a))}


def mapped(c, i):
    """a shipped mapped variant on many redshifts"""
    f = R.BY[i["f"]]
    a = f.args(0, i["size"])
    a[0] = np.array([float(z) for z in i["z"]])
    return {"r": _res(f.load()(*a))}


def _entry(c, i):
    f = R.BY[i["f"]]
    a = f.args(0, i["size"])
    for s, x in zip(f.elem, i["x"]):
        a[s] = np.array([float(v) for v in x])
    return f, a


def one_entry(c, i):
    """a function of arrays called on arrays of one entry"""
    f, a = _entry(c, i)
    r = R.leaves(f.load()(*a))
    return {"r": [arr(v.reshape(v.shape[1:])) if v.shape[:1] == (1,) else arr(v) for v in r]}


def entries(c, i):
    """and on all entries at once"""
    f, a = _entry(c, i)
    return {"r": _res(f.load()(*a))}


# ---------------------------------------------------------------- C28
def recorded(c, i):
    return c.state["answers"].pop(0)


OPS = dict(reference=reference, set=set_, start=start, finish=finish, fail=fail, recall=recall, scribble=scribble,
           consts=consts, variant=variant, batch=batch, batch2=batch2,
           jax=recorded, x64=recorded, call=recorded, get=recorded,
           near=recorded, one_entry=one_entry, entries=entries)
OPS["import"] = recorded
