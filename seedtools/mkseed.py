#!/usr/bin/env python3
"""Makes a planted bug: applies edits to a scratch copy of /repo, confirms tests and demonstration, writes /verif/seeded/<id>/.

A bug is a call of bug(id, property, needs, breaks, edits=[(file, old, new), ...], demo=source) in seedtools/bugs*.py.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), "seeded")
WORK = "/tmp/bugwork"
ENV = dict(os.environ, PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


BUGS = {}


def bug(bid, prop, needs, breaks, edits, demo):
    assert bid not in BUGS
    BUGS[bid] = dict(PROPERTY=prop, NEEDS=needs, BREAKS=breaks, EDITS=edits, DEMO="from simpsr import *\n\n" + demo.strip("\n") + "\n")


for f in sorted(os.listdir(HERE)):
    if f.startswith("bugs") and f.endswith(".py"):
        runpy.run_path(os.path.join(HERE, f), init_globals={"bug": bug})


def make(bid):
    b = BUGS[bid]
    out = os.path.join(SEED, bid)
    w = os.path.join(WORK, bid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    sh("cp -a /repo %s" % w, "/")
    try:
        base = set()
        for f, old, new in b["EDITS"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d places for %r" % (bid, s.count(old), old[:60])
            # the lines taken away must be lines of the original repository
            line0 = s[: s.index(old)].count("\n") + 1
            blame = sh("git blame -s -L%d,+%d 258498e..HEAD -- %s" % (line0, old.rstrip("\n").count("\n") + 1, f), w).stdout.split("\n")
            mine = [x for x in blame if x and not x.startswith("^258498e")]
            base |= set(mine)
            open(p, "w").write(s.replace(old, new))
        d = sh("git diff", w).stdout
        removed = [x[1:] for x in d.split("\n") if x.startswith("-") and not x.startswith("---")]
        bad = [x for x in base if any(r.strip() and r.strip() in x for r in removed)]
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
        open(os.path.join(out, "patch.diff"), "w").write(d)
        shutil.copy(os.path.join(HERE, "simpsr.py"), out)
        open(os.path.join(out, "demo.py"), "w").write(b["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["PROPERTY"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        good = sh("bash %s/demo.sh" % out, "/repo", env=ENV, timeout=300)
        fail = sh("bash %s/demo.sh" % out, w, env=ENV, timeout=300)
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/junit.xml tests; python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml" % (WORK, WORK, WORK), w, env=ENV)
        o = json.load(open(WORK + "/out.json"))
        missing = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in o["passed"]]
        ok = good.returncode == 0 and fail.returncode != 0 and not missing and not bad
        msg = "%s %s: demo %d / %d, missing tests %s%s" % ("ok " if ok else "BAD", bid, good.returncode, fail.returncode, missing[:3], " touches own lines %s" % bad if bad else "")
        if good.returncode:
            msg += "\n" + good.stdout[-800:]
        last = fail.stdout.strip().split("\n")[-1][:160]
        msg += "\n     " + last
        if not ok:
            shutil.rmtree(out)
        return msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


for bid in [x for a in sys.argv[1:] for x in BUGS if x.startswith(a)] or sorted(set(BUGS) - set(os.listdir(SEED))):
    print(make(bid), flush=True)
