#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's current working tree, explores, replays every
candidate violation alone before reporting it, writes evidence/<id>.json.   usage: run.py <PROPERTY> [quick|thorough]"""
import json, os, sys, subprocess, tempfile, shutil, time, signal, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, Job
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = os.cpu_count() or 4

def die(msg, code=2):
    print("ERROR: " + msg); sys.stdout.flush(); sys.exit(code)

def sh(cmd, cwd=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if r.returncode != 0:
        print(r.stdout[-6000:]); die("build step failed: " + " ".join(cmd)[:300])
    return r.stdout

DEFS = ['-DVDF_MODE=0', '-DFAST_MACHINE=1', '-DCHIAVDF_VERSION="dev"']
class Builder:
    def __init__(self, tmp):
        self.tmp = tmp; self.S = REPO + "/src"; self.asm = None
    def build_asm(self):
        if self.asm: return self.asm
        d = self.tmp + "/asm"; os.makedirs(d)
        sh(["g++", "-std=c++17", "-O1", "-w", *DEFS, "-I", self.S, self.S + "/compile_asm.cpp", "-o", d + "/compile_asm", "-no-pie", "-lgmp", "-lgmpxx", "-pthread"])
        objs = []
        for a, n in ((None, "asm_compiled.s"), ("avx2", "avx2_asm_compiled.s"), ("avx512", "avx512_asm_compiled.s")):
            sh([d + "/compile_asm"] + ([a] if a else []), cwd=d)
            sh(["gcc", "-c", n, "-o", n + ".o"], cwd=d); objs.append(d + "/" + n + ".o")
        self.asm = objs; return objs
    def lzcnt(self, tag=""):
        o = self.tmp + "/lzcnt.o"
        if not os.path.exists(o):
            sh(["gcc", "-O2", "-w", "-c", self.S + "/refcode/lzcnt.c", "-o", o])
        return o
    def exe(self, job):
        out = self.tmp + "/" + job.name; inc = []
        for f, rx, rep in job.gen:   # copies of the tree's headers with size constants made adjustable
            g = self.tmp + "/gen-" + job.name; os.makedirs(g, exist_ok=True); t = g + "/" + os.path.basename(f)
            s = open(t if os.path.exists(t) else self.S + "/" + f).read(); open(t, "w").write(re.sub(rx, rep, s)); inc = ["-I", g]
        src = HERE + "/" + job.src
        cxx = ["g++", "-std=c++17", job.opt, "-w", *DEFS, "-DVERIF_HARNESS", *inc, "-I", self.S, "-I", HERE + "/harness", "-I", HERE + "/sched", "-I", self.S + "/hw", "-I", HERE + "/harness/ftstub", *job.flags]
        extra = [self.S + "/" + s for s in job.repo_srcs]
        link = ["-no-pie", "-lgmpxx", "-lgmp", "-pthread", *job.link]
        pre = []
        for script in job.pre:   # a script of ours that builds a further object from the tree and prints its path last
            pre.append(sh(["python3", HERE + "/" + script, REPO, self.tmp + "/" + job.name + ".pre"]).strip().splitlines()[-1])
        if job.asm: pre += self.build_asm() + [self.lzcnt()]
        if job.lzcnt and not job.asm: pre += [self.lzcnt()]
        objs = []
        if job.runtime:   # our tsan-compatible runtime, itself not instrumented
            for rsrc in job.runtime:
                o = self.tmp + "/" + job.name + "." + os.path.basename(rsrc) + ".o"
                sh(["g++", "-std=c++17", "-O2", "-g", "-fno-pie", "-w", *[f for f in job.flags if f.startswith("-DSCHED_")], "-I", HERE + "/sched", "-I", HERE + "/harness", "-c", HERE + "/" + rsrc, "-o", o]); objs.append(o)
        if job.two_step:  # instrument only the compile step, link without the sanitizer's library
            o = self.tmp + "/" + job.name + ".main.o"
            sh(cxx + job.cflags_only + ["-c", src, "-o", o])
            for r in job.repo_srcs:  # further sources (of the tree, or "@..." of ours), not instrumented
                t = self.tmp + "/" + job.name + "." + os.path.basename(r) + ".o"
                sh(["g++", "-std=c++17", "-O2", "-fno-pie", "-w", *DEFS, *inc, "-I", self.S, "-I", HERE + "/harness", "-I", HERE + "/sched", "-I", self.S + "/hw", "-I", HERE + "/harness/ftstub", "-c", HERE + "/" + r[1:] if r[0] == "@" else self.S + "/" + r, "-o", t]); objs.append(t)
            sh(["g++", o, *objs, *pre, "-o", out, *link])
        else:
            sh(cxx + job.cflags_only + [src, *extra, *objs, *pre, "-o", out, *link])
        return out

def run_proc(cmd, timeout, log, env=None, cwd=None):
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True, env=env, cwd=cwd, stdin=subprocess.DEVNULL)
        try:
            p.wait(timeout=timeout); to = False
        except subprocess.TimeoutExpired:
            to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
    return p.returncode, to

def tail(path, n=1500):
    try:
        b = open(path, "rb").read()[-n:]; return b.decode("utf8", "replace")
    except OSError: return ""

def read_cur(path):
    try:
        b = open(path + ".cur", "rb").read(16)
        i = int.from_bytes(b[:8], "little"); f = int.from_bytes(b[8:16], "little")
        return i if f else None
    except OSError: return None

def read_viol(path):
    r = []
    try:
        for l in open(path + ".viol", errors="replace"):
            try: r.append(json.loads(l))
            except ValueError: pass
    except OSError: pass
    return r

def load_known():
    k = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: k.append(m.groups())
    return k

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    chk = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        rc = run(pid, tier, seed, chk, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, seed, chk, tmp, t0):
    b = Builder(tmp); jobs = chk.jobs
    if any(j.asm for j in jobs): b.build_asm()
    if any(j.asm or j.lzcnt for j in jobs): b.lzcnt()
    key = lambda j: (j.src, j.opt, j.asm, j.lzcnt, j.two_step, tuple(j.flags), tuple(j.cflags_only), tuple(j.link), tuple(j.repo_srcs), tuple(j.runtime), tuple(j.gen), tuple(j.pre))
    uniq = {}
    for j in jobs: uniq.setdefault(key(j), j)
    with ThreadPoolExecutor(NPROC) as ex: built = dict(zip(uniq.keys(), ex.map(b.exe, uniq.values())))
    exes = [built[key(j)] for j in jobs]
    tb = time.time() - t0
    work = []
    for j, e in zip(jobs, exes):
        ns = j.shards
        for s in range(ns): work.append((j, e, s, ns))
    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
    env["VERIF_SCRATCH"] = tmp
    def one(w):
        j, e, s, ns = w
        out = "%s/%s.%d.json" % (tmp, j.name, s)
        d = out + ".d"; os.makedirs(d, exist_ok=True)
        budget = j.budget_quick if tier == "quick" else j.budget_thorough
        cmd = [e, "--mode", j.mode, "--out", out, "--tier", tier, "--shard", str(s), "--nshards", str(ns), "--budget", str(budget)]
        rc, to = run_proc(cmd, budget + j.grace, out + ".log", env, d)
        shutil.rmtree(d, ignore_errors=True)
        return (j, e, s, ns, out, rc, to)
    with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, work))
    cands = []; agg = {"evaluated": 0, "states": 0, "transitions": 0, "traces": 0, "nontrivial": 0, "total": 0}
    samples = []; extra = {}; outcomes = set(); capped = False; per_job = {}
    for j, e, s, ns, out, rc, to in res:
        done = os.path.exists(out)
        vs = read_viol(out)
        for v in vs: cands.append((j, e, v["idx"], v["key"], v["desc"], "violation", s, ns))
        if done:
            r = json.load(open(out))
            for k in ("evaluated", "states", "transitions", "traces", "nontrivial"): agg[k] += r[k]
            pj = per_job.setdefault(j.name, {"cases_evaluated": 0, "cases_in_space": 0, "capped": False})
            pj["cases_evaluated"] += r["evaluated"]; pj["cases_in_space"] = max(pj["cases_in_space"], r["total_cases"])
            pj["capped"] = pj["capped"] or r["capped"]
            capped = capped or r["capped"]
            samples += r["samples"][:2]
            outcomes |= set(r["outcomes"])
            for k, v in r["extra"].items():
                if k.startswith("max_"): extra[k] = max(extra.get(k, 0), v)
                else: extra[k] = extra.get(k, 0) + v
        else:
            cur = read_cur(out)
            kind = "hang" if to else "crash(%s)" % rc
            print("job %s shard %d ended without result: %s, current case %s\n%s" % (j.name, s, kind, cur, tail(out + ".log")))
            cands.append((j, e, cur, "%s-%s" % (j.name, "hang" if to else "crash"), "%s while evaluating case %s of %s: %s" % (kind, cur, j.name, tail(out + ".log", 600)), "hang" if to else "crash", s, ns))
    # replay each distinct key alone before reporting
    known = load_known(); reported = {}; kf = set(); unconfirmed = []; nrep = 0
    for j, e, idx, key, desc, kind, s, ns in cands:
        if key in reported or key in kf: continue
        km = [k for k in known if k[0] == pid and k[1] == key]
        nrep += 1
        if nrep > 40 and reported: break
        ok = False
        if idx is not None:
            ok = replay(j, e, idx, key, kind, tier, tmp, env, nrep)
        if not ok and kind in ("crash",):
            # deterministic shard: run the whole shard again
            out = "%s/re%d.json" % (tmp, nrep)
            d = out + ".d"; os.makedirs(d, exist_ok=True)
            rc, to = run_proc([e, "--mode", j.mode, "--out", out, "--tier", tier, "--shard", str(s), "--nshards", str(ns), "--budget", str(j.budget_quick if tier == "quick" else j.budget_thorough)], 400, out + ".log", env, d)
            ok = (not os.path.exists(out)) and not to
        if not ok: unconfirmed.append((key, desc)); continue
        if km:
            kf.add(key); print("KNOWN-FINDING: property=%s %s [%s]" % (pid, km[0][2], key))
        else:
            reported[key] = (j, idx, desc)
    wall = time.time() - t0
    rdir = HERE + "/evidence/replays"; first = None
    for key, (j, idx, desc) in reported.items():
        os.makedirs(rdir, exist_ok=True)
        safe = re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:80]
        path = "%s/%s-%s.json" % (rdir, pid, safe)
        json.dump({"property": pid, "job": j.name, "mode": j.mode, "tier": tier, "case": idx, "key": key, "description": desc,
                   "how": "python3 /verif/replay.py " + path}, open(path, "w"), indent=1)
        if first is None: first = path
        print("violation: [%s] %s" % (key, desc[:700]))
    cov = dict(chk.coverage(agg, extra, outcomes, tier))
    cov["samples"] = samples[:6] if samples else ["(none)"]
    cov["jobs"] = per_job; cov["exhaustive"] = not capped
    if extra: cov["counters"] = extra
    if outcomes: cov["distinct_outcomes"] = sorted(outcomes)[:60]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov, "assumptions": chk.assumptions,
          "wall_s": round(wall, 2), "violations": len(reported)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: %s capped=%s build %.1fs wall %.1fs" % (pid, tier, json.dumps(agg), capped, tb, wall))
    if reported:
        print("VIOLATION property=%s replay=%s" % (pid, first)); return 1
    if unconfirmed:
        for k, d in unconfirmed: print("unconfirmed: [%s] %s" % (k, d[:500]))
        die("candidate violations that did not reproduce in isolation")
    return 0

def replay(j, e, idx, key, kind, tier, tmp, env, n):
    out = "%s/rp%d.json" % (tmp, n)
    d = out + ".d"; os.makedirs(d, exist_ok=True)
    rc, to = run_proc([e, "--mode", j.mode, "--out", out, "--tier", tier, "--only", str(idx)], j.replay_timeout, out + ".log", env, d)
    shutil.rmtree(d, ignore_errors=True)
    if kind == "violation": return any(v["key"] == key for v in read_viol(out))
    if kind == "hang": return to
    return (not os.path.exists(out)) and not to

if __name__ == "__main__": main()
