"""Data loaders on real files, inside a scratch directory."""

import json
import os
import pathlib
import shutil
import string

import numpy as np

from .core import arr, dec, import_dsps, nums

_D = {}


def D():
    if not _D:
        import_dsps()
        import h5py

        from dsps import data_loaders

        _D.update(dl=data_loaders, h5py=h5py)
    return _D


NONE = "None"


def root(c):
    """the directory that stands for / in this session"""
    if "root" not in c.state:
        c.state["root"] = c.scratch.new("disk")
        c.state["held"] = []
        os.environ.pop("DSPS_DRN", None)
    return c.state["root"]


def place(c, d, n=None):
    p = os.path.join(root(c), d)
    return p if n is None else os.path.join(p, n)


def begin(c, label, dirs=()):
    if c.state.get("root"):
        shutil.rmtree(c.state["root"], ignore_errors=True)
    c.begin(label)
    root(c)
    for d in dirs:
        c.do("mkdir", dir=d)


def mkdir(c, i):
    os.makedirs(place(c, i["dir"]), exist_ok=True)
    return {}


def rmdir(c, i):
    shutil.rmtree(place(c, i["dir"]))
    return {}


def _store(hdf, key, a, extra):
    x = np.array(dec(a["v"]) if a["v"] else np.zeros(a["sh"]), dtype=a["dt"]).reshape(a["sh"])
    if extra == "packed" and x.ndim:
        hdf.create_dataset(key, data=x, chunks=True, compression="gzip")
    else:
        hdf[key] = x


def write(c, i):
    h5py = D()["h5py"]
    d = i["data"]
    p = place(c, i["dir"], i["name"])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if i.get("fresh") and os.path.exists(p):
        os.remove(p)
    if "junk" in d:                     # not a data file at all
        with open(p, "w") as f:
            f.write(d["junk"])
        return {}
    _fill(h5py, p, d, i)
    if i.get("dated"):                  # an archive restores the date of a file with its contents
        os.utime(p, (10 ** 9, 10 ** 9))
    return {}


def _fill(h5py, p, d, i):
    with h5py.File(p, "w") as hdf:
        ex = i.get("how", "")
        if "trans" in d:
            _store(hdf, "wave", d["wave"], ex)
            _store(hdf, "transmission", d["trans"], ex)
        else:
            _store(hdf, "ssp_lgmet", d["lgmet"], ex)
            _store(hdf, "ssp_lg_age_gyr", d["lgage"], ex)
            _store(hdf, "ssp_wave", d["wave"], ex)
            _store(hdf, "ssp_flux", d["flux"], ex)
            if d["lines"]:
                names = [_uni(n) for n in d["names"]]
                if i.get("names") == "vlen":
                    hdf.create_dataset("ssp_emline_name", data=names, dtype=h5py.string_dtype())
                else:
                    hdf.create_dataset("ssp_emline_name",
                                       data=np.array([n.encode() for n in names], dtype="S"))
                _store(hdf, "ssp_emline_wave", d["lwave"], ex)
                _store(hdf, "ssp_emline_luminosity", d["llum"], ex)
            if ex == "more":
                hdf["comment"] = np.arange(3.0)
                hdf["transmission"] = np.arange(3.0)


def link(c, i):
    p = place(c, i["at"])
    if os.path.lexists(p):
        os.remove(p)
    os.symlink(place(c, i["to"]), p)
    return {}


def remove(c, i):
    os.remove(place(c, i["dir"], i["name"]))
    return {}


def move(c, i):
    os.makedirs(os.path.dirname(place(c, i["dir2"], i["name2"])), exist_ok=True)
    os.replace(place(c, i["dir"], i["name"]), place(c, i["dir2"], i["name2"]))
    return {}


def env(c, i):
    if i["dir"] == NONE:
        os.environ.pop("DSPS_DRN", None)
    else:
        os.environ["DSPS_DRN"] = i["dir"] if i.get("rel") else place(c, i["dir"])
    return {}


def _uni(n):
    return n.encode().decode("unicode_escape")      # names travel in ASCII


def _styled(p, style, c):
    if style == "rel":
        return p[2:]
    p = os.path.join(root(c), p[2:])
    if style == "path":
        return pathlib.Path(p)
    if style == "slash" and os.path.isdir(p):
        return p + "/"
    return p


def _ssp_out(s):
    lines = s.ssp_emline_wave is not None
    r = {"lgmet": arr(s.ssp_lgmet), "lgage": arr(s.ssp_lg_age_gyr), "wave": arr(s.ssp_wave),
         "flux": arr(s.ssp_flux), "lines": lines, "dummy": False, "names": [], "lwave": [],
         "llum": "none"}
    if lines != (s.ssp_emline_luminosity is not None):
        r["lines"] = "one of the two"
    elif lines:
        r.update(names=[n.encode("unicode_escape").decode() for n in s.ssp_emline_wave._fields], lwave=nums(list(s.ssp_emline_wave)),
                 llum=arr(s.ssp_emline_luminosity))
    return r


def _where(c, a, kw, style):
    # an empty path is an empty string; the empty directory is the current one
    if a["fn"]:
        kw["fn"] = _styled(os.path.join(".", *a["fn"]), style, c) if any(a["fn"]) else ""
    if a["drn"] != NONE:
        kw["drn"] = _styled(os.path.join(".", a["drn"]), style, c) if a["drn"] else ""


def _at_root(c, f, kw):
    was = os.getcwd()
    os.chdir(root(c))
    try:
        return f(**kw)
    finally:
        os.chdir(was)


def load_ssp(c, i):
    f = D()["dl"].load_ssp_templates
    a, kw = i["a"], {}
    _where(c, a, kw, i["style"])
    if a["bn"] != NONE:
        kw["bn"] = a["bn"]
    if i["dummy"]:
        kw["dummy"] = True
    s = _at_root(c, f, kw)
    if s.ssp_flux.shape == (22, 94, 1963):
        return {"dummy": True}
    c.state["held"].append(s)
    return dict(_ssp_out(s), err="")


def load_filter(c, i):
    f = D()["dl"].load_transmission_curve
    a, kw = i["a"], {}
    _where(c, a, kw, i["style"])
    if a["pat"] != NONE:
        kw["bn_pat"] = a["pat"]
    s = _at_root(c, f, kw)
    c.state["held"].append(s)
    return {"wave": arr(s.wave), "trans": arr(s.transmission), "err": ""}


def recall(c, i):
    s = c.state["held"][i["k"] - 1]
    if hasattr(s, "transmission"):
        return {"was": {"wave": arr(s.wave), "trans": arr(s.transmission), "err": ""}}
    return {"was": dict(_ssp_out(s), err="")}


OPS = dict(link=link, mkdir=mkdir, rmdir=rmdir, write=write, remove=remove, move=move, env=env,
           load_ssp=load_ssp, load_filter=load_filter, recall=recall)

STYLES = ["abs", "rel", "path", "slash"]


def g7(x):
    return np.array([float("%.7g" % v) for v in np.ravel(x)]).reshape(np.shape(x))


def _typed(rng, x, dt, odd=False):
    x = g7(x)
    if odd and x.size and "f" in dt and rng.random() < 0.15:
        # missing and extreme values
        f = x.reshape(-1)
        top, low = (1e308, 5e-324) if "8" in dt or "64" in dt else (3e38, 1e-44)
        f[rng.integers(f.size, size=2)] = rng.choice([np.nan, np.inf, -np.inf, -0.0, 0.0, top, low, -top], 2)
    if dt.startswith(("i", "<i")):
        x = np.round(x)
    return arr(np.array(x, dtype=dt))


FLUX = {"float64": (-100, 60), ">f8": (-100, 60), "float32": (-30, 30), "int64": (0, 18)}


def ssp_data(rng, lines=None, shape=None, dt=None):
    nz, na, nw = (int(v) for v in (rng.integers(1, 4, 3) if shape is None else shape))
    dt = dt or str(rng.choice(["float64", "float64", "float32", ">f8", "int64"]))
    nl = int(rng.integers(0, 5)) if lines is None else lines
    d = {"lgmet": _typed(rng, rng.uniform(-4, -1, nz), dt, True),
         "lgage": _typed(rng, rng.uniform(-4, 1, na), dt, True),
         "wave": _typed(rng, rng.uniform(100, 1e5, nw), dt, True),
         "flux": _typed(rng, 10.0 ** rng.uniform(*FLUX[dt], (nz, na, nw)), dt, True),
         "lines": nl > 0}
    if nl:
        names = []
        while len(names) < nl:
            s = "".join(rng.choice(list(string.ascii_letters), 1)) + \
                "".join(rng.choice(list(string.ascii_letters + string.digits + "_"),
                                   int(rng.integers(0, 9))))
            if rng.random() < 0.1:
                s += str(rng.choice(["\\u03b1", "\\xe9", "\\u0412"]))       # Halpha in greek
            if s not in names and _uni(s).isidentifier() and s not in ("as", "if", "in", "is", "or"):
                names.append(s)
        dl = str(rng.choice(["float64", "float64", "float32"]))
        d.update(names=names, lwave=_typed(rng, rng.uniform(900, 1e6, nl), "float64"),
                 llum=_typed(rng, 10.0 ** rng.uniform(-30, 3, (nz, na, nl)), dl))
    return d


def table(c, cases, dirs, data, kind, label, most=10 ** 9):
    """the decision table of a loader: on each disk, every way of asking"""
    groups = {}
    for k in cases:
        groups.setdefault(json.dumps([sorted(k["files"]), k["env"]]), []).append(k["a"])
    for g in c.rng.permutation(sorted(groups))[:most]:
        files, ev = json.loads(g)
        begin(c, label, dirs)
        for d, n in files:
            c.do("write", dir=d, name=n, data=data(d, n), fresh=False, how="", names="S")
        if ev != NONE:
            c.do("env", dir=ev)
        ext = {} if kind == "load_filter" else {"dummy": False}
        for a in groups[g]:
            c.do(kind, a=a, style=str(c.rng.choice(STYLES)), **ext)


def links(c, cases, kind, data, most):
    """directories and files that are reached through symbolic links"""
    groups = {}
    for k in cases:
        groups.setdefault(json.dumps(sorted(map(list, k["links"]))), []).append(k)
    for g in c.rng.permutation(sorted(groups))[:most]:
        k0 = groups[g][0]
        begin(c, "links", k0["dirs"])
        for d, n in k0["files"]:
            c.do("write", dir=d, name=n, data=data(), fresh=False, how="", names="S")
        for at, to in json.loads(g):
            c.do("link", at=at, to=to)
        ext = {} if kind == "load_filter" else {"dummy": False}
        for k in groups[g]:
            c.do("env", dir=k["env"])
            c.do(kind, a=k["a"], style=str(c.rng.choice(STYLES[:3])), **ext)


# names which mean something elsewhere: to a shell, in a URL, in a pattern
ODD = ["$HOME", "~", "a b", "%2e", "x$PATH.h5", "${HOME}", "-f", "#1", "it's", "{0}", " x", "x ", "a,b",
       "a;b", "a&b", "!x", "x:y", "a=b", "..x", "...", "A.H5", "a" * 200, "x.h5.gz", "none", "0", "%s"]


def odd_names(c, kind, data):
    """files and directories with such names, designated in every way"""
    rng = c.rng
    d, n = (str(x) for x in rng.choice(ODD, 2, replace=False))
    begin(c, "odd names", [d, d + "/filters", "B"])
    rel = {"rel": True} if rng.random() < 0.5 else {}
    at = d + "/filters" if kind == "load_filter" else d
    for p, q in {(d, n), (at, n), ("B", n)}:
        c.do("write", dir=p, name=q, data=data(), fresh=False, how="", names="S")
    key, ext = ("pat", {}) if kind == "load_filter" else ("bn", {"dummy": False})
    c.do("env", dir=d, **rel)
    for a in ({"fn": [d, n], "drn": "None", key: "None"}, {"fn": [], "drn": d, key: n},
              {"fn": [], "drn": "None", key: n}, {"fn": [], "drn": "B", key: n}):
        c.do(kind, a=a, style=str(rng.choice(STYLES)), **ext)


def filter_data(rng, kind=None, n=None):
    # now and then a curve of thousands of pixels, of which one may be bad
    n = n or int(rng.integers(2, 8) if rng.random() < 0.99 else rng.integers(1500, 4000))
    dt = str(rng.choice(["float64", "float64", "float32"]))
    kind = kind or rng.choice(["ok", "ok", "dips", "negative", "above", "at", "nan", "infinite"])
    t = rng.uniform(0, 1, n)
    k = int(rng.integers(n))
    if kind == "dips":
        t[k] = rng.choice([-0.0099, -1e-9, 1.0099, 1 + 1e-9])
    elif kind == "negative":
        t[k] = rng.choice([-0.0101, -0.5, -3e5])
    elif kind == "above":
        t[k] = rng.choice([1.0101, 1.5, 80.0])
    elif kind == "nan":                  # bad pixels, next to good ones or unphysical ones
        t[k] = rng.choice([0.5, -0.5, 1.5, -0.005])
        t[rng.integers(n)] = np.nan
    elif kind == "infinite":
        t[k] = rng.choice([-np.inf, np.inf])
    elif kind == "at":
        dt = "float64"
        t[k] = rng.choice([-0.01, 1.01, 0.0, 1.0])
    return {"wave": _typed(rng, np.sort(rng.uniform(1000, 1e4, n)), rng.choice([dt, "float64"])),
            "trans": _typed(rng, t, dt)}


def replay(c, hist, data, kind):
    """a behaviour of the model, step by step, on the real disk"""
    rng = c.rng
    dated = bool(rng.random() < 0.5)     # every file of the same date, and of one size if it can be
    for h in hist:
        op = h["op"]
        if op == "end":
            break
        if op == "write":
            c.do("write", dir=h["dir"], name=h["name"], data=data(h["v"], dated),
                 fresh=bool(rng.random() < 0.5),
                 how="" if dated else str(rng.choice(["", "packed", "more"])),
                 names=str(rng.choice(["S", "vlen"])), dated=dated)
        elif op in ("load_ssp", "load_filter"):
            ext = {} if op == "load_filter" else {"dummy": bool(rng.random() < 0.004)}
            c.do(op, a=h["a"], style=str(rng.choice(STYLES)), **ext)
            if c.state["held"] and rng.random() < 0.15:
                c.do("recall", k=int(rng.integers(1, len(c.state["held"]) + 1)))
        else:
            c.do(op, **{k: v for k, v in h.items() if k != "op"})
