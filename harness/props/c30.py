"""C30: jit, vmap and plain calls"""
import numpy as np

from .. import calls as M
from .. import registry as R
from ..calls import OPS  # noqa: F401
from ..core import num

OPS = dict(OPS, reference=M.single, mapped=M.mapped)


def run(c):
    M.D()
    rng = c.rng
    cs = c.model("MC_Batch")
    c.notes["samples"] = cs[:2]
    one = [k for k in cs if not k["axes2"]]
    two = [k for k in cs if k["axes2"]]
    order = [R.FNS[int(j)] for j in rng.permutation(len(R.FNS))]
    for f in order:
        if f.mapped:
            c.begin("mapped " + f.name)
            for n in (1, 2, 5, 13, 34):
                z = [num(float("%.6g" % x)) for x in rng.uniform(0, 6, n)]
                a = "%s/0/" % f.name
                keys = []
                for x in z:
                    keys.append(a + "z=" + x)
                    c.do("reference", key=a, z=x, base=f.mapped, as_=keys[-1])
                c.do("mapped", f=f.name, z=z, size=0, keys=keys)
        if f.elem:
            c.begin("entries of " + f.name)
            n = int(rng.choice(c.n([7, 12, 30], [7, 30, 120])))
            lo, hi = zip(*[(np.min(f.args(0, 0)[s]), np.max(f.args(0, 0)[s])) for s in f.elem])
            x = [[num(float("%.6g" % v)) for v in rng.uniform(p, q, n)] for p, q in zip(lo, hi)]
            keys = []
            for k in range(n):
                keys.append("%s/0/entry %d" % (f.name, k))
                c.do("one_entry", f=f.name, size=0, x=[[v[k]] for v in x], key=keys[-1])
            c.do("entries", f=f.name, size=0, x=x, keys=keys)
        for r in range(c.n(1, 4)):
            size = int(rng.integers(2))
            c.begin("ways of calling " + f.name)
            k0 = M.mkey(f.name, size, {})
            c.do("reference", key=k0)
            if f.jit:
                for kind in ([str(x) for x in rng.choice(M.KINDS, 4, replace=False)] if c.quick
                             else M.KINDS):
                    if kind == "differentiated as well" and any(
                            isinstance(x, np.ndarray) and x.dtype.kind != "f" for x in f.args(0, size)):
                        continue
                    c.do("variant", key=k0, kind=kind)
            else:
                c.do("variant", key=k0, kind="given strided arrays")
            nums = [s for s, x in enumerate(f.args(0, size))
                    if isinstance(x, float) or isinstance(x, np.ndarray) and x.dtype.kind == "f"]
            for ss in [nums] + [[int(s) for s in rng.permutation(nums)[:rng.integers(1, len(nums) + 1)]]
                                for _ in range(c.n(2, 4)) if len(nums) > 1]:
                if not ss:
                    continue
                ss = sorted(ss)
                kw = k0 + "/whole " + " ".join(map(str, ss))
                c.do("reference", key=k0, whole=ss, as_=kw)
                c.do("variant", key=k0, whole=ss, numpy=bool(rng.random() < 0.5), as_=kw,
                     kind="given integers")
            if not f.jit or not f.batch:
                continue
            for k in (one[int(rng.integers(len(one)))], two[int(rng.integers(len(two)))]):
                slots = [int(s) for s in rng.permutation(f.batch)][:3]
                pick = lambda ax: [slots[s - 1] for s in ax if s <= len(slots)]   # noqa: E731
                s1, s2 = pick(k["axes"]), pick(k["axes2"])
                if not s1 or (k["axes2"] and not s2):
                    continue
                keys = []
                for v in k["vers"]:
                    row = [M.mkey(f.name, size, dict([(s, v) for s in s1] + [(s, w) for s in s2]))
                           for w in (k["vers2"] or [0])]
                    for kk in row:
                        c.do("reference", key=kk)
                    keys.append(row if s2 else row[0])
                if s2:
                    c.do("batch2", f=f.name, size=size, slots=s1, vers=k["vers"], slots2=s2,
                         vers2=k["vers2"], keys=keys, jit=bool(rng.random() < 0.5))
                else:
                    c.do("batch", f=f.name, size=size, slots=s1, vers=k["vers"], keys=keys,
                         axis=int(rng.integers(2)), jit=bool(rng.random() < 0.5))
    for e in c.events:                   # mapped variants are judged as batches
        if e["op"] in ("mapped", "entries"):
            e["op"] = "batch"
        elif e["op"] == "one_entry":
            e["op"] = "reference"
        if "as_" in e["in"]:
            e["in"]["key"] = e["in"].pop("as_")
    c.validate("TR_Calls")
