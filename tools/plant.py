"""Development helper (not used by any check).

plant.py make SPECFILE          create seeded/<id>/ from a spec (dict SPECS: id -> dict(prop, edits, demo, needs, breaks))
plant.py verify ID [--tests T]  in a scratch copy: demo passes clean / fails patched, tests T pass, check catches it
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

V = "/verif"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MPLBACKEND="Agg", PYTHONHASHSEED="0")

DEMO = '''#!/bin/bash
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
export NUMBA_CACHE_DIR=$S PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
PRE = '''import os
import sys
sys.path.insert(0, os.getcwd())
import numpy as np
import pandas as pd
import vectorbt as vbt

'''


def copy_repo():
    d = tempfile.mkdtemp(prefix="plant.")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for bid, s in ns["SPECS"].items():
        d, r = copy_repo()
        try:
            for f, a, b, *n in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                if n:
                    parts = t.split(a)
                    open(p, "w").write(a.join(parts[:n[0] + 1]) + b + a.join(parts[n[0] + 1:]))
                    continue
                assert t.count(a) == 1, (bid, f, t.count(a), a)
                open(p, "w").write(t.replace(a, b))
            diff = subprocess.check_output(["git", "-C", r, "diff"]).decode()
            out = os.path.join(V, "seeded", bid)
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO)
            open(out + "/demo.py", "w").write(PRE + s["demo"].lstrip("\n"))
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
                      open(out + "/meta.json", "w"), indent=1)
            print("made", bid)
        finally:
            shutil.rmtree(d)


def demo(bid, r):
    s = tempfile.mkdtemp(prefix="plantdemo.")
    try:
        for n in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(V, "seeded", bid, n), s)
        p = subprocess.run(["bash", s + "/demo.sh"], cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode()[-600:]
    finally:
        shutil.rmtree(s)


def tests(r, names):
    x = r + "/../junit.xml"
    c = tempfile.mkdtemp(prefix="plantnb.")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest"] + names + [
            "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=600", "-W", "ignore", "--tb=line",
            "--junitxml=" + x], cwd=r, env=dict(ENV, NUMBA_CACHE_DIR=c, PYTHONPATH=""), stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)
        out = p.stdout.decode()
        return out.strip().splitlines()[-1], [l for l in out.splitlines() if l.startswith(("FAILED", "ERROR"))]
    finally:
        shutil.rmtree(c)


def verify(bid, tnames, check=True, tier=()):
    meta = json.load(open(os.path.join(V, "seeded", bid, "meta.json")))
    d, r = copy_repo()
    try:
        rc0, o0 = demo(bid, r)
        subprocess.check_call(["git", "-C", r, "apply", os.path.join(V, "seeded", bid, "patch.diff")])
        rc1, o1 = demo(bid, r)
        print("%s: demo clean=%d patched=%d %s" % (bid, rc0, rc1, "" if rc0 == 0 and rc1 != 0 else "<<<< BAD\n" + o0 + o1))
        if tnames:
            last, bad = tests(r, tnames)
            print("%s: tests %s %s" % (bid, last, bad[:6]))
        if check:
            p = subprocess.run(["bash", V + "/run.sh", meta["property"]] + list(tier), env=dict(os.environ, VERIF_REPO=r),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = [l for l in p.stdout.decode().splitlines() if l.startswith(("facet", "VIOL", meta["property"]))]
            print("%s: check rc=%d %s" % (bid, p.returncode, "CAUGHT" if p.returncode == 1 else "MISSED"))
            for l in out[:6]:
                print("    " + l[:300])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("--") and not a.startswith("tests/")]
        t = [a for a in sys.argv[2:] if a.startswith("tests")]
        if "--all" in sys.argv:
            t = ["tests"]
        for b in ids:
            verify(b, t, "--nocheck" not in sys.argv)
            sys.stdout.flush()
