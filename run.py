#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses against /repo's working tree in a scratch
directory, explores, confirms every violation by replay, writes evidence/<ID>.json.
usage: run.py ID [--tier quick|thorough] [--replay FILE] [--keep] [--only SCENARIO]"""
import os, sys, json, time, shutil, subprocess, tempfile, argparse, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
import checks
import fcntl

def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("KNOWN-FINDING "):
                body = l[len("KNOWN-FINDING "):]
                d = {}
                pid, rest = body.split(" ", 1)
                d["property"] = pid.split("=", 1)[1]
                k, _, desc = rest.partition(" :: ")
                d["key"] = k.split("=", 1)[1]
                d["desc"] = desc
                out.append(d)
    return out

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

class BuildError(Exception): pass

import threading, hashlib
_pool = ThreadPoolExecutor(8); _objs = {}; _lock = threading.Lock()

def build(prog, bdir, log):
    """prog: dict(name, sources=[...], flags=str, link=str, cc=...)"""
    cc = prog.get("cc", "g++")
    env = dict(os.environ)
    launcher = ""
    if shutil.which("ccache") and not os.environ.get("VERIF_NOCCACHE"):
        env.setdefault("CCACHE_DIR", "/tmp/verif-ccache"); env["CCACHE_NOHASHDIR"] = "1"; env["CCACHE_MAXSIZE"] = "4G"; env["CCACHE_SLOPPINESS"] = "time_macros"
        launcher = "ccache "
    objs = []
    if "prepare" in prog: prog["prepare"](bdir, REPO)
    for s in prog["sources"]:
        flags = prog.get("flags", "")
        if isinstance(s, tuple): s, extra = s; flags = flags + " " + extra
        s = s.replace("{REPO}", REPO).replace("{HERE}", HERE).replace("{B}", bdir)
        flags = flags.replace("{REPO}", REPO).replace("{HERE}", HERE).replace("{B}", bdir)
        c = f"{launcher}{cc} {flags} -c {s}"
        with _lock:     # programs of one check share the objects they have in common
            if c not in _objs:
                o = os.path.join(bdir, hashlib.sha1(c.encode()).hexdigest()[:12] + "_" + os.path.basename(s) + ".o")
                _objs[c] = (o, _pool.submit(lambda c=c, o=o: (c, sh(f"{c} -o {o}", env=env, cwd=bdir))))
        objs.append(_objs[c])
    names = []
    for o, f in objs:
        c, r = f.result(); names.append(o)
        if r.returncode: raise BuildError(c + "\n" + r.stdout.decode(errors="replace")[:6000])
    exe = os.path.join(bdir, prog["name"])
    link = prog.get("link", "").replace("{REPO}", REPO).replace("{HERE}", HERE).replace("{B}", bdir)
    c = f"{cc} {' '.join(names)} {link} -o {exe}"
    r = sh(c, cwd=bdir)
    if r.returncode: raise BuildError(c + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return exe

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--only"); ap.add_argument("--workers", default="8")
    a = ap.parse_args(); tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    chk = checks.CHECKS[a.id]; t0 = time.time()
    bdir = tempfile.mkdtemp(prefix=f"verif-{a.id}-", dir="/tmp"); os.chmod(bdir, 0o755)
    sdir = bdir  # scratch files of the executions: in memory where possible
    try:
        if os.statvfs("/dev/shm").f_bavail * os.statvfs("/dev/shm").f_frsize > 2 << 30: sdir = tempfile.mkdtemp(prefix=f"verif-{a.id}-", dir="/dev/shm"); os.chmod(sdir, 0o755)
    except OSError: pass
    a.scratch = sdir
    rc = 2
    try:
        rc = run_check(a, tier, chk, bdir, t0)
    except BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (a.id, e)); rc = 2
    finally:
        if sdir != bdir: shutil.rmtree(sdir, ignore_errors=True)
        if a.keep: print("kept", bdir)
        else: shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

def run_check(a, tier, chk, bdir, t0):
    pid = a.id
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:allocator_may_return_null=0:hard_rss_limit_mb=2500:detect_stack_use_after_return=0:malloc_context_size=8"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=78"
    env["VERIF_REPO"] = REPO; env["VERIF_HERE"] = HERE; env["VERIF_SCRATCH"] = a.scratch; env["OMPI_ALLOW_RUN_AS_ROOT"] = "1"; env["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
    env["LC_ALL"] = "C"
    progs = chk["programs"](tier) if callable(chk["programs"]) else chk["programs"]
    exes = []
    with ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(build, p, bdir, None) for p in progs]
        for p, f in zip(progs, futs): exes.append((p, f.result()))
    for o, _ in _objs.values():
        if os.path.exists(o): os.unlink(o)
    tb = time.time() - t0
    if a.replay:
        r = json.load(open(a.replay))
        for p, e in exes:
            if p["name"] == r["program"]:
                cmd = [e] + p.get("args", []) + (["--thorough"] if r.get("tier") == "thorough" else []) + ["--replay", r["scenario"], r["trace"]]
                return subprocess.run(cmd, env=env, cwd=bdir).returncode
        print("no such program"); return 2
    budget = chk.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
    tot = dict(executions=0, transitions=0, validated=0, evaluations=0, states=0, pruned=0); complete = True; samples = []; viols = []; per = []
    for p, e in exes:
        out = os.path.join(bdir, p["name"] + ".json")
        w = os.path.join(bdir, "w_" + p["name"]); os.makedirs(w, exist_ok=True)
        cmd = [e] + p.get("args", []) + ["--out", out, "--workers", str(p.get("workers", a.workers)), "--budget", str(p.get("budget", {}).get(tier) or budget / len(exes)), "--logdir", bdir] + (["--thorough"] if tier == "thorough" else [])
        if a.only: cmd += ["--only", a.only]
        print("program", p["name"], flush=True)
        r = subprocess.run(cmd, env=env, cwd=w)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("TOOL-ERROR: harness", p["name"], "ended with", r.returncode); return 2
        d = json.load(open(out))
        for s in d["scenarios"]:
            tot["executions"] += s["executions"]; tot["transitions"] += s["transitions"]; tot["validated"] += s["validated"]; tot["evaluations"] += s["evaluations"]; tot["states"] += s["states"]; tot["pruned"] += s["pruned"]
            complete &= s["complete"]; samples += [f"{p['name']}/{s['name']}: {x}" for x in s["samples"][:2]]
            per.append(dict(program=p["name"], scenario=s["name"], executions=s["executions"], states=s["states"], transitions=s["transitions"], pruned=s["pruned"], complete=s["complete"], wall_s=round(s["wall_s"], 2)))
            for v in s["violations"]: viols.append(dict(v, program=p["name"], scenario=s["name"], exe=e, args=p.get("args", []), cwd=w))
    # confirm by replay
    kf = [k for k in known_findings() if k["property"] == pid]
    new = []; seen_known = []; unstable = []
    rdir = os.path.join(HERE, "evidence", "replay", pid); shutil.rmtree(rdir, ignore_errors=True)
    def confirm(v):
        for _ in range(3):
            try:
                r = subprocess.run([v["exe"]] + v["args"] + (["--thorough"] if tier == "thorough" else []) + ["--replay", v["scenario"], v["trace"]], env=env, cwd=v["cwd"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60 if v["kind"] != 2 else 30)
                if v["kind"] == 0 and r.returncode == 1 and "VIOLATED" in r.stdout.decode(errors="replace"): return True
                if v["kind"] != 0 and r.returncode != 0: return True
            except subprocess.TimeoutExpired:
                return True
        return False
    nconf = 0
    for v in viols:
        m = [k for k in kf if k["key"] == v["key"] or (k["key"].endswith("*") and v["key"].startswith(k["key"][:-1]))]
        if m:
            if m[0] not in seen_known: seen_known.append(m[0])
            continue
        if nconf < 6:
            nconf += 1
            if not confirm(v): unstable.append(v); continue
        new.append(v)
    for k in seen_known: print("KNOWN-FINDING: property=%s %s" % (pid, k["desc"] or k["key"]))
    for k in kf:
        if k not in seen_known: print("NOTE: listed finding not met in this run: %s" % k["key"])
    for v in unstable: print("UNSTABLE (not reproduced on replay, not reported): %s: %s" % (v["key"], v["msg"][:1500]))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=chk.get("level", "model_checking"),
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["validated"], executions=tot["executions"], evaluations=tot["evaluations"],
                            exhaustive=bool(complete), bounds=chk.get("bounds", ""), samples=samples[:12], per_scenario=per, rule=chk.get("rule", "every execution of the choice tree described under bounds, each run on the code compiled from /repo")),
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new), build_s=round(tb, 2))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d traces validated, complete=%s, %.1fs (build %.1fs)" % (pid, tier, tot["executions"], tot["states"], tot["transitions"], tot["validated"], complete, time.time() - t0, tb))
    for i, v in enumerate(new):
        os.makedirs(rdir, exist_ok=True); f = os.path.join(rdir, "%d.json" % i)
        json.dump(dict(property=pid, program=v["program"], scenario=v["scenario"], trace=v["trace"], key=v["key"], msg=v["msg"], kind=v["kind"], tier=tier, how="run.py %s --tier %s --replay %s" % (pid, tier, f)), open(f, "w"), indent=1)
        print("--- %s\n%s" % (v["key"], v["msg"][:1800]))
        print("VIOLATION property=%s replay=%s" % (pid, f), flush=True)
    if new: return 1
    if unstable: return 1 if False else 0
    return 0

if __name__ == "__main__": main()
