"""The calibrations shipped with the package, read off the real code."""

import importlib

import numpy as np

from .core import Absent, import_dsps, num

_D = {}


def D():
    if not _D:
        import_dsps()
        _D["ok"] = True
    return _D


def _flat(x):
    """(names, numbers) of a number, a table of numbers or a table of tables"""
    if hasattr(x, "_asdict"):
        x = x._asdict()
    if isinstance(x, dict):
        ks, vs = [], []
        for k, v in x.items():
            _, w = _flat(v)
            ks.append(str(k))
            vs += w
        return ks, vs
    return [], [num(v) for v in np.asarray(x, dtype="f8").ravel()]


def look(mod, name):
    try:
        x = importlib.import_module(mod)
        for part in name.split("."):
            x = getattr(x, part)
    except (ImportError, AttributeError):
        raise Absent(mod + "." + name)
    return x


def read(c, i):
    D()
    keys, v = _flat(look(*i["where"]))
    return {"keys": keys, "v": v}


def fields(c, i):
    D()
    return {"f": [str(f) for f in look(*i["where"])._fields]}


def text(c, i):
    D()
    x = look(*i["where"])
    return {"t": [x] if isinstance(x, str) else [str(t) for t in x]}


def use(c, i):
    """a function called without, and with, the calibration it should default to"""
    D()
    f = look(*i["fn"])
    x = look(*i["where"])
    a = [float(v) for v in i["args"]]
    kw = dict(x) if isinstance(x, dict) else x._asdict()
    return {"without": num(f(*a)), "with": num(f(*a, **kw))}


def draw(c, i):
    """parameters drawn within a table of bounds the package ships"""
    import_dsps()
    import jax

    f = look("dsps.metallicity.umzr", "get_ran_t0_params")
    p = f(jax.random.PRNGKey(int(i["seed"])), look(*i["where"]))
    return {"p": [num(float(v)) for v in (p._asdict().values() if hasattr(p, "_asdict") else p)]}


OPS = dict(draw=draw, read=read, fields=fields, text=text, use=use)
