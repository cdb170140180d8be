#!/usr/bin/env python3
"""Which checks catch which planted bugs: each patch in a scratch copy, the check of its property with SIM_REPO there."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); S = V + "/seeded"
ids = [x for a in sys.argv[1:] for x in sorted(os.listdir(S)) if x.startswith(a)] or sorted(os.listdir(S))
rec = "/tmp/catch.json"
for b in ids:
    w = "/tmp/catchwork/repo_" + b
    shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/catchwork", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w])
    try:
        subprocess.run(["git", "apply", S + "/" + b + "/patch.diff"], cwd=w, check=True)
        prop = json.load(open(S + "/" + b + "/meta.json"))["property"]
        t = time.time()
        p = subprocess.run(["python3", V + "/check.py", prop], env=dict(os.environ, SIM_REPO=w, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = p.stdout.strip().split("\n")
        d = json.load(open(rec)) if os.path.exists(rec) else {}
        d[b] = [prop, p.returncode]
        json.dump(d, open(rec, "w"), indent=1)
        print("%-7s %s %s %.0f s  %s" % ("CAUGHT" if p.returncode == 1 else "missed" if p.returncode == 0 else "ODD", b, prop, time.time() - t, " | ".join(x[:150] for x in o[-3:])), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
