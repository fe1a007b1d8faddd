#!/usr/bin/env python3
"""Mutation run: mutants of a copy of /repo, taken at the start, that pass its tests, against a short run of every check. Works on copies under /tmp/mut.

  run.py MUTANTS.jsonl OUT.jsonl [--lanes N] [--share F] [--from N] [--to N] [--props C01,C02]
"""
import argparse, json, os, shutil, subprocess, sys, threading, time
sys.path.insert(0, "/verif")
import run as R

a = argparse.ArgumentParser()
a.add_argument("mutants"); a.add_argument("out")
a.add_argument("--lanes", type=int, default=7)
a.add_argument("--share", type=float, default=0.015)   # of the cases of a quick run
a.add_argument("--props", default="")
a.add_argument("--seed", type=int, default=1)
o = a.parse_args()

ALL = ["C%02d" % i for i in range(1, 32)]
FIRST = {
    "lexer/": ["C03", "C02", "C01", "C04", "C05", "C30"], "token/": ["C03", "C02", "C12", "C04", "C08"],
    "parser/": ["C07", "C05", "C08", "C09", "C10", "C11", "C12", "C30", "C06"], "transforms/": ["C20", "C21", "C22"],
    "cmd/": ["C22", "C23", "C24", "C26", "C27"], "config/": ["C25", "C23", "C24"], "environment/": ["C19", "C09"],
    "runtime/": ["C28", "C29"], "ast/astutils/walk": ["C17"], "ast/astutils/print": ["C18", "C06"], "ast/": ["C31", "C12", "C13", "C14", "C18", "C15", "C07"],
}
env = dict(R.ENV); env["GOMAXPROCS"] = "2"
lock = threading.Lock()
jobs = [json.loads(l) for l in open(o.mutants)]
done = set()
if os.path.exists(o.out):
    for l in open(o.out):
        r = json.loads(l); done.add((r["file"], r["start"], r["end"], r["new"]))
jobs = [j for j in jobs if (j["file"], j["start"], j["end"], j["new"]) not in done]
print(len(jobs), "to do")
if not os.path.isdir("/tmp/mut/src"):
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", "/tmp/mut/src"], check=True)
outfh = open(o.out, "a")

def sh(cmd, cwd, timeout, e=env):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, timeout=timeout, stdin=subprocess.DEVNULL)
        return r.returncode, (r.stdout + r.stderr)[-1500:].decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def lane(i):
    base = f"/tmp/mut/L{i}"
    os.makedirs(base, exist_ok=True)
    if not os.path.isdir(base + "/repo"):
        subprocess.run(["cp", "-a", "/tmp/mut/src", base + "/repo"], check=True)
    shutil.rmtree(base + "/harness", ignore_errors=True)
    shutil.copytree("/verif/harness", base + "/harness")
    m = open(base + "/harness/go.mod").read().replace("=> /repo", f"=> {base}/repo")
    open(base + "/harness/go.mod", "w").write(m)
    tmp = base + "/tmp"; os.makedirs(tmp, exist_ok=True); os.chmod(tmp, 0o1777); os.chmod(base, 0o755)
    e = dict(env, TMPDIR=tmp, VERIF_CDDLC=base + "/cddlc")
    while True:
        with lock:
            if not jobs:
                return
            j = jobs.pop(0)
        path = f"{base}/repo/{j['file']}"
        src = open("/tmp/mut/src/" + j["file"], "rb").read()
        open(path, "wb").write(src[:j["start"]] + j["new"].encode() + src[j["end"]:])
        t = time.time(); res = None; by = ""; msg = ""
        try:
            em = dict(e, GOFLAGS="-mod=mod")
            rc, _ = sh(["go", "build", "-buildvcs=false", "-o", base + "/cddlc", "./cmd/cddlc"], base + "/repo", 120, em)
            if rc: res = "no build"
            if not res:
                rc, _ = sh(["go", "test", "-vet=off", "-timeout", "30s", "./lexer", "./parser", "./environment", "./token", "./transforms/..."], base + "/repo", 120, em)
                if rc: res = "tests"
            if not res:
                rc, msg = sh(["go", "build", "-buildvcs=false", "-o", base + "/worker", "."], base + "/harness", 120, e)
                if rc: res = "no harness build"
            if not res:
                first = next((v for k, v in FIRST.items() if j["file"].startswith(k)), [])
                order = first + [p for p in ALL if p not in first]
                if o.props: order = o.props.split(",")
                for p in order:
                    rc, msg = sh([base + "/worker", "run", "-prop", p, "-seed", str(o.seed), "-factor", repr(R.QUICK[p] * 6 * o.share),
                                  "-out", base + "/out", "-state", base + "/state", "-mem", "2500", "-budget", "100"], tmp, 200, e)
                    if rc:
                        res, by = "caught", p
                        if rc == 1:
                            try: msg = next(r["failure"]["message"] for r in json.load(open(base + "/out")) if r.get("failure"))
                            except Exception: pass
                        break
                else:
                    res, msg = "SURVIVES", ""
        finally:
            open(path, "wb").write(src)
        j.update(result=res, by=by, message=msg[:300], s=round(time.time() - t, 1))
        with lock:
            outfh.write(json.dumps(j) + "\n"); outfh.flush()

ts = [threading.Thread(target=lane, args=(i,)) for i in range(o.lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
