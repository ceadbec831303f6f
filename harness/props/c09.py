"""C09: burst parameters"""
from .. import params as M
from ..params import OPS  # noqa: F401


def run(c):
    M.cases(c, "MC_ParamsBurst.cfg", "burst", c.n(400, 2000))
    M.walk(c, "burst", c.n(40, 200), c.n(6, 20), 30.0)
    M.walk(c, "burst", c.n(10, 100), c.n(6, 20), 300.0)
    c.validate("TR_Params")
