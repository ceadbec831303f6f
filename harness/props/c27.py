"""C27: purity"""
import numpy as np

from .. import calls as M
from .. import registry as R
from ..calls import OPS  # noqa: F401


def run(c):
    M.D()
    rng = c.rng
    for f in R.FNS:                      # everything is imported before the tables are looked at
        f.load()
    c.model("MC_Calls")
    cs = c.model("MC_Calls", cfg="MC_CallsSim.cfg", workers=1,
                 extra=("-simulate", "num=%d" % c.n(24, 300), "-depth", str(c.n(90, 230)),
                        "-seed", str(c.seed)))
    c.notes["samples"] = cs[:1]
    worker = M.Worker()
    names = [f.name for f in R.FNS]
    order = [str(x) for x in rng.permutation(names)]
    # every function takes part at least once
    M.consts(c, {})
    k = 0
    for case in cs:
        c.begin("model history")
        c.state.update(worker=worker, ver={})
        fs = {}
        for letter in ("f", "g", "h"):
            fs[letter] = order[k % len(order)]
            k += 1
        # the third set of values is an odd one: negative, empty, huge, unordered entries
        hist = [dict(h, v=-3 if h["v"] == 3 else h["v"]) if h["op"] == "set" else h
                for h in case["hist"]]
        need, buf = [], {o: 1 for o in M.OBJS}
        for h in hist:
            if h["op"] == "set":
                buf[h["o"]] = h["v"]
            elif h["op"] == "start":
                kk = M.key(fs[h["f"]], h["o"], str(buf[h["o"]]))
                if kk not in need:
                    need.append(kk)
        rng.shuffle(need)
        for kk in need:
            c.do("reference", key=kk)
        c.do("consts")
        for o in M.OBJS:
            c.do("set", o=o, v="1")
        open_ = []
        done = 0
        for h in hist:
            if h["op"] == "set":
                c.do("set", o=h["o"], v=str(h["v"]))
            elif h["op"] == "start":
                c.do("start", t=h["t"], f=fs[h["f"]], o=h["o"])
                open_.append(h["t"])
            elif h["op"] == "finish":
                c.do("finish", t=h["t"])
                open_.remove(h["t"])
                done += 1
            elif h["op"] == "fail":
                c.do("fail", f=fs[h["f"]], how=str(rng.choice(["shape", "text", "none"])))
            elif h["op"] in ("recall", "scribble") and h["k"] <= done:
                c.do(h["op"], k=h["k"])
        for t in open_:
            c.do("finish", t=t)
            done += 1
        for j in range(1, done + 1):
            c.do("recall", k=j)
        c.do("consts")
        M.end(c)
    for f in (str(n) for n in rng.permutation(names)):
        c.begin("working on what is returned: " + f)
        c.state.update(worker=worker, ver={})
        for o, v in (("o0", "1"), ("o1", "2")):
            c.do("set", o=o, v=v)
            c.do("reference", key=M.key(f, o, v))
        for k, o in enumerate(("o0", "o1", "o0", "o1")):
            c.do("start", t="t1", f=f, o=o)
            c.do("finish", t="t1")
            c.do("scribble", k=k + 1)
            for j in range(k + 1):
                c.do("recall", k=j + 1)
        c.do("consts")
        M.end(c)
    for j in range(c.n(1, 4)):
        for f in (str(n) for n in rng.permutation(names)):
            c.begin("odd arguments of " + f)
            c.state.update(worker=worker, ver={})
            o = str(rng.choice(list(M.OBJS)))
            for v in ([str(-k) for k in rng.choice(np.arange(1, 99), 6, replace=False)]):
                c.do("set", o=o, v=v)
                if v[-1] in "16" or R.BY[f].name == "resample":
                    c.do("reference", key=M.key(f, o, v))
                c.do("start", t="t1", f=f, o=o)
                c.do("finish", t="t1")
            M.end(c)
    # one call stopped somewhere in the package's own lines while another is made
    for f in (str(n) for n in rng.permutation(names)):
        n = M.lines(f, "o0", "1")
        if not n:
            continue
        c.begin("a call within a call: " + f)
        c.state.update(worker=worker, ver={})
        for o, v in (("o0", "1"), ("o1", "2")):
            c.do("set", o=o, v=v)
            c.do("reference", key=M.key(f, o, v))
        ks = np.arange(1, n + 1)
        if n > c.n(30, 150):
            ks = np.sort(rng.choice(ks, c.n(30, 150), replace=False))
        for j, k in enumerate(ks):
            a, b = ("o0", "o1") if j % 2 else ("o1", "o0")
            c.do("start", t="t1", f=f, o=a, pause=int(k))
            c.do("start", t="t2", f=f, o=b)
            c.do("finish", t="t2")
            c.do("finish", t="t1")
        M.end(c)
    worker.close()
    c.validate("TR_Calls")
