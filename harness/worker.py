"""A fresh process of the package: one JSON request per line on stdin, one JSON
answer per line on stdout (python -m harness.worker)."""

import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def prepare():
    """make the package importable from the working tree, importing none of it"""
    import types

    from harness import core

    sys.path.insert(0, core.REPO)
    if not os.path.exists(os.path.join(core.REPO, "dsps", "_version.py")):
        m = types.ModuleType("dsps._version")
        m.__version__ = m.version = "0.0.0"
        sys.modules["dsps._version"] = m


def answer(q):
    from harness import registry as R
    from harness.core import arr

    if q["op"] == "import":
        importlib.import_module(q["module"])
        return {}
    if q["op"] == "star":
        ns = {}
        exec("from %s import *" % q["module"], ns)
        return {}
    if q["op"] == "jax":
        import jax

        x = jax.numpy.arange(3.0) + 0.1
        if q.get("jit"):
            jax.jit(lambda y: y * 2)(x)
        return {}
    if q["op"] == "x64":
        import jax

        return {"x64": bool(jax.config.jax_enable_x64)}
    if q["op"] == "call":
        f = R.BY[q["f"]]
        return {"r": [arr(x) for x in R.leaves(f.load()(*f.args(q["ver"], q["size"])))]}
    if q["op"] == "near":
        f = R.BY[q["f"]]
        return {"r": [[arr(x) for x in R.leaves(f.load()(*f.near(q["ver"], q["size"], k)))]
                      for k in range(4)]}
    if q["op"] == "get":
        import numpy as np

        x = importlib.import_module(q["module"])
        for a in q["name"].split("."):
            x = getattr(x, a)
        if callable(x):
            return {"r": []}
        return {"r": [arr(np.asarray(v)) for v in R.leaves(x)]}
    raise ValueError(q["op"])


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                       # whatever the package prints stays out of the answers
    prepare()
    for line in sys.stdin:
        try:
            r = answer(json.loads(line))
            r.setdefault("err", "")
        except BaseException as ex:
            r = {"err": type(ex).__name__, "msg": str(ex)[:200]}
        out.write(json.dumps(r) + "\n")
        out.flush()
    out.close()
    os._exit(0)


if __name__ == "__main__":
    main()
