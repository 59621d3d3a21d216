#!/usr/bin/env python3
"""Replays one recorded violation against /repo's current tree: replay.py evidence/replays/X.json"""
import json, os, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import run
from checks import CHECKS
r = json.load(open(sys.argv[1]))
tmp = tempfile.mkdtemp(prefix="verif-replay-")
try:
    b = run.Builder(tmp)
    j = [x for x in CHECKS[r["property"]].jobs if x.name == r["job"]][0]
    e = b.exe(j)
    env = dict(os.environ); env["VERIF_SCRATCH"] = tmp
    out = tmp + "/r.json"
    rc, to = run.run_proc([e, "--mode", j.mode, "--out", out, "--tier", r["tier"], "--only", str(r["case"])], j.replay_timeout, out + ".log", env, tmp)
    print(run.tail(out + ".log", 4000))
    v = run.read_viol(out)
    for x in v: print("[%s] %s" % (x["key"], x["desc"]))
    bad = bool(v) or to or not os.path.exists(out)
    print("REPRODUCED" if bad else "not reproduced"); sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
