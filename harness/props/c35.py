"""C35: the diagnostic chart shows the models its legend names"""
from .. import chart as M
from .. import params as P
from ..chart import OPS  # noqa: F401
from ..core import nums

L1, L2 = r"${\rm new\ model}$", r"${\rm default\ model}$"


def run(c):
    cs = c.model("MC_Chart")
    c.notes["samples"] = cs[:2]
    c.rng.shuffle(cs)
    d = M.D(c.scratch)
    dflt = [float(x) for x in d["umzr"].DEFAULT_MZR_PARAMS]
    data = M.published()

    def draw(p, q, named, name):
        c.do("plot", p=nums(p), q=nums(dflt if q is None else q), q_given=q is not None,
             named=named, label1="mine" if named else L1, label2="theirs" if named else L2,
             files=[name] if name else [], data=data)

    for r, k in enumerate(cs[: c.n(8, 60)]):
        c.begin("model charts")
        other = P.inside(c.rng, "mzr")
        pick = {"default": dflt, "other": list(other)}
        for a in k["asks"]:
            draw(pick[a[0]], pick.get(a[1]), a[2], "chart.png" if a[3] else "")
        M.close()
    for r in range(c.n(6, 40)):
        c.begin("random parameters")
        draw(P.inside(c.rng, "mzr"), P.inside(c.rng, "mzr"), bool(r % 2),
             ("", "a.pdf", "b c.png")[r % 3])
        M.close()
    c.validate("TR_Chart")
