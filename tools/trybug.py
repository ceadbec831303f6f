#!/usr/bin/env python3
"""tools/trybug.py [--nocheck] [--notest] ID...   try planted bugs in scratch copies of /repo"""
import json, os, threading, shutil, subprocess, sys
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **env), text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
def tests(d):
    x = d + "/junit.xml"
    sh("/opt/venv/bin/python -m pytest -q -n 4 -p no:cacheprovider --junitxml=%s dsps" % x, d,
       PYTHONPATH=d, JAX_PLATFORMS="cpu", PYTHONHASHSEED="0")
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(x).iter("testcase"):
        if len(t) == 0:
            ok.add(t.get("classname") + "::" + t.get("name"))
    return sorted(B - ok)
LOCKS = defaultdict(threading.Lock)
def one(b):
    s = os.path.join(V, "seeded", b); m = json.load(open(s + "/meta.json"))
    d = "/tmp/try-" + b
    shutil.rmtree(d, ignore_errors=True); shutil.copytree("/repo", d, symlinks=True)
    res = []
    try:
        r = sh(s + "/demo.sh", d); res.append("demo clean %s" % ("ok" if r.returncode == 0 else "FAILS " + r.stdout[-800:]))
        r = sh("git apply %s/patch.diff" % s, d)
        if r.returncode: return b, ["patch does not apply " + r.stdout]
        r = sh(s + "/demo.sh", d); res.append("demo bug %s" % ("ok" if r.returncode else "PASSES"))
        if "-v" in sys.argv: res.append(r.stdout[-600:])
        if "--notest" not in sys.argv:
            f = tests(d); res.append("tests ok" if not f else "TESTS FAIL %s" % f)
        if "--nocheck" not in sys.argv:
            with LOCKS[m["property"]]:
                r = sh("./check %s quick" % m["property"], V, DSPS_VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
            res.append("check %s rc=%d %s" % (m["property"], r.returncode, " / ".join(r.stdout.strip().splitlines()[-3:])[-300:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return b, res
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    # several bugs of one property must not run at once (they share build/)
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for b, r in ex.map(one, ids):
            print(b, "|", " | ".join(r), flush=True)
