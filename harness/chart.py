"""The diagnostic chart of the mass-metallicity relation on the real code."""

import hashlib
import os

import numpy as np

from .core import import_dsps, nums

_D = {}


def D(scratch):
    if not _D:
        os.environ["MPLBACKEND"] = "Agg"
        os.environ["MPLCONFIGDIR"] = scratch.new("mpl")
        import_dsps()
        import matplotlib

        matplotlib.use("Agg")
        from dsps.metallicity import umzr
        from dsps.metallicity.diagnostics import plot_mzr

        _D.update(umzr=umzr, plot=plot_mzr)
    return _D


FILES = {"Maiolino": "maiolino_etal18_mzr.dat", "Kirby": "kirby_etal13_mzr.dat",
         "Gallazzi": "galazzi_etal05_mzr.dat"}


def published():
    import dsps

    d = os.path.join(os.path.dirname(dsps.__file__), "metallicity", "tests", "testing_data")
    return {k: nums(np.loadtxt(os.path.join(d, f), delimiter=",")) for k, f in FILES.items()}


def _color(c):
    from matplotlib import colors

    return colors.to_hex(c, keep_alpha=True)


def _lines(fig):
    return [ln for ax in fig.axes for ln in ax.get_lines()]


def _digest(fig):
    h = hashlib.sha256()
    for ln in _lines(fig):
        h.update(np.asarray(ln.get_xydata(), dtype="f8").tobytes())
        h.update((str(ln.get_linestyle()) + _color(ln.get_color())).encode())
    return h.hexdigest()


def plot(c, i):
    from matplotlib.figure import Figure
    from matplotlib.legend import Legend

    d = D(c.scratch)
    figs = c.state.setdefault("figs", [])
    before = [_digest(f) for f in figs]
    where = c.scratch.new("charts")
    from matplotlib import pyplot as plt

    # a figure of the caller's own, with something in it
    mine = plt.figure()
    mine.gca().plot([1, 2, 3], [4, 5, 5 + len(figs)])
    was = _digest(mine)
    here = os.getcwd()
    kw = {}
    if i["q_given"]:
        kw["params2"] = d["umzr"].MZRParams(*[float(x) for x in i["q"]])
    if i["named"]:
        kw.update(label1=i["label1"], label2=i["label2"])
    if i["files"]:
        kw["fname"] = os.path.join(where, i["files"][0])
    os.chdir(where)
    try:
        fig = d["plot"].make_mzr_comparison_plot(
            d["umzr"].MZRParams(*[float(x) for x in i["p"]]), **kw)
    finally:
        os.chdir(here)
    open_ = bool(plt.fignum_exists(mine.number)) and _digest(mine) == was
    plt.close(mine)
    figure = isinstance(fig, Figure)
    curves, points, legend = [], [], []
    for ln in _lines(fig):
        x, y = np.asarray(ln.get_xdata(), "f8"), np.asarray(ln.get_ydata(), "f8")
        rec = dict(style=str(ln.get_linestyle()), color=_color(ln.get_color()),
                   marker=str(ln.get_marker()))
        if rec["marker"] == "None":
            pick = np.unique(np.linspace(0, len(x) - 1, 14).astype(int))
            rec.update(x=nums(x[pick]), y=nums(y[pick]))
            curves.append(rec)
        else:
            rec.update(x=nums(x), y=nums(y))
            points.append(rec)
    for g in fig.findobj(Legend):
        for h, t in zip(g.legend_handles, g.get_texts()):
            s = t.get_text()
            legend.append(dict(label=s, style=str(h.get_linestyle()), color=_color(h.get_color()),
                               marker=str(h.get_marker()),
                               tags=[k for k in ("z=3", "z=0", "Maiolino", "Kirby", "Gallazzi")
                                     if k in s]))
    figs.append(fig)
    out = dict(curves=curves, points=points, legend=legend, figure=figure, open=open_,
               xlim=nums(np.array(fig.axes[0].get_xlim())), before=before,
               after=[_digest(f) for f in figs],
               files=sorted(f for f in os.listdir(where)
                            if os.path.getsize(os.path.join(where, f))))
    return out


def close():
    from matplotlib import pyplot as plt

    plt.close("all")


OPS = dict(plot=plot)
