"""C17: reddening and attenuation curves"""
from .. import dust as M
from ..core import num, nums
from ..dust import OPS  # noqa: F401


def run(c):
    cs = c.model("MC_Dust")
    c.notes["samples"] = cs[:2]
    c.rng.shuffle(cs)
    for i, k in enumerate(cs[: c.n(150, 1182)]):
        if i % 10 == 0:
            c.begin("model screens")
        p = [] if k["p"] == [""] else k["p"]
        c.do("dust", law=k["law"], p=p, floor=k["floor"], av=k["av"], w=k["w"])
    rng = c.rng
    for n in (8, 37, 300):
        for r in range(c.n(20, 200) if n < 100 else c.n(1, 6)):
            c.begin("random curves")
            w = nums(M.ran_waves(rng, n))
            for law in M.LAWS if n < 100 else [rng.choice(M.LAWS)]:
                c.do("dust", law=law, p=M.ran_par(rng, law), floor=num(M.ran_floor(rng)),
                     av=num(M.ran_av(rng)), w=w)
            if n == 8 and r % 5 == 0:    # the same among many others
                law = rng.choice(M.LAWS)
                c.do("dust", law=law, p=M.ran_par(rng, law), floor=num(M.ran_floor(rng)),
                     av=num(M.ran_av(rng)), w=w, among=int(rng.choice([700, 6000, 40000])))
            c.do("pieces", w=w, slope=num(round(rng.uniform(-2, 2), 4)),
                 v=num(round(rng.uniform(0.3, 1), 3)), xc=rng.choice(w),
                 bump=nums(M.g6([rng.uniform(0.1, 1), 10.0 ** rng.uniform(-3, 0), rng.normal(0, 5)])))
    c.validate("TR_Dust")
