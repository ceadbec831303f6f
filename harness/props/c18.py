"""C18: dust transmission"""
from .. import dust as M
from ..core import num, nums
from ..dust import OPS  # noqa: F401


def run(c):
    cs = c.model("MC_Dust")
    c.notes["samples"] = cs[:2]
    # all columns and floors of one curve in one session
    by = {}
    for k in cs:
        by.setdefault((k["law"], tuple(k["p"])), []).append(k)
    keys = sorted(by)
    c.rng.shuffle(keys)
    for key in [tuple(k) if isinstance(k, list) else k for k in keys][: c.n(10, 100)]:
        c.begin("model screens")
        ks = by[(key[0], tuple(key[1]))]
        c.rng.shuffle(ks)
        for k in ks[: c.n(15, 60)]:
            p = [] if k["p"] == [""] else k["p"]
            c.do("dust", law=k["law"], p=p, floor=k["floor"], av=k["av"], w=k["w"])
    rng = c.rng
    for r in range(c.n(30, 300)):
        c.begin("growing dust column")
        w = nums(M.ran_waves(rng, 9 if r % 15 else 150))
        law = M.LAWS[r % len(M.LAWS)]
        p, floor = M.ran_par(rng, law), num(M.ran_floor(rng))
        for av in [M.ran_av(rng) for _ in range(5)] + [0.0]:
            c.do("dust", law=law, p=p, floor=floor, av=num(av), w=w)
        if r % 6 == 0:
            c.do("dust", law=law, p=p, floor=floor, av=num(M.ran_av(rng)), w=w,
                 among=int(rng.choice([700, 6000, 40000])))
        k = M.g6(rng.choice([0.0, -1.0, 1.0, rng.uniform(0, 1e4), 1e-12], 7) * rng.uniform(0.1, 10, 7))
        for floor in ("", num(M.ran_floor(rng)), num(M.ran_floor(rng))):
            c.do("ftrans", k=nums(k), av=num(M.ran_av(rng)), floor=floor)
    c.validate("TR_Dust")
