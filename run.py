#!/usr/bin/env python3
"""Driver of the property checks.

  run.py CHECK [--tier quick|thorough] [--seed N]   run the check of a property, write evidence/CHECK.json
  run.py --replay FILE                               run a single replay file
  run.py --setup                                     build everything once

Exit status: 0 the property held, 1 violated (VIOLATION line), 2 the check could not be carried out.
"""
import argparse, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, ".work", "replay")
CLI = {"C22", "C23", "C24", "C26", "C27"}
HANG, MEMORY, RACE = 77, 78, 66

# how many times the registered number of cases a quick shard runs; thorough runs rounds until its time is over
QUICK = {"C01": 30, "C02": 25, "C03": 12, "C04": 30, "C05": 8, "C06": 2.5, "C07": 8, "C08": 6, "C09": 5, "C10": 6, "C11": 5, "C12": 6,
         "C13": 15, "C14": 5, "C15": 4, "C16": 2.5, "C17": 10, "C18": 5, "C19": 5, "C20": 10, "C21": 12, "C22": 2, "C23": 1.5,
         "C24": 2, "C25": 1.5, "C26": 3, "C27": 1.5, "C28": 30, "C29": 30, "C30": 4, "C31": 8}
SHARDS = 6
QUICK_BUDGET = 150.0      # seconds; far more than needed on an idle machine
THOROUGH_BUDGET = float(os.environ.get("VERIF_BUDGET") or 600)
THOROUGH_FACTOR = 6       # of a quick shard, per round

ENV = dict(os.environ)
ENV.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly",
           GOWORK="off", GOPROXY="off", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
ENV["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + ENV.get("PATH", "")
ENV.pop("GOFLAGS_EXTRA", None)


class Trouble(Exception):
    """The check could not be carried out."""


def go(args, cwd, what):
    try:
        r = subprocess.run(["go"] + args, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", timeout=600)
    except subprocess.TimeoutExpired:
        raise Trouble(f"building {what} takes too long")
    if r.returncode != 0:
        raise Trouble(f"building {what} fails:\n{r.stdout}{r.stderr}")


class Build:
    """The programs, built from the current tree into a directory of this run."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vbuild-")
        os.chmod(self.dir, 0o755)
        self.made = {}

    def worker(self, race=False):
        name = "worker-race" if race else "worker"
        if name not in self.made:
            out = os.path.join(self.dir, name)
            go(["build", "-buildvcs=false"] + (["-race"] if race else []) + ["-o", out, "."], HARNESS, name)
            self.made[name] = out
        return self.made[name]

    def cli(self):
        if "cddlc" not in self.made:
            out = os.path.join(self.dir, "cddlc")
            env_flags = ENV["GOFLAGS"]
            ENV["GOFLAGS"] = "-mod=mod"
            try:
                go(["build", "-buildvcs=false", "-o", out, "./cmd/cddlc"], REPO, "cddlc")
            finally:
                ENV["GOFLAGS"] = env_flags
            self.made["cddlc"] = out
        return self.made["cddlc"]

    def env(self, prop):
        e = dict(ENV)
        if prop in CLI:
            e["VERIF_CDDLC"] = self.cli()
        e["GORACE"] = f"exitcode={RACE} halt_on_error=1 atexit_sleep_ms=0"
        e["TMPDIR"] = self.tmp()
        return e

    def tmp(self):
        d = os.path.join(self.dir, "tmp")
        if not os.path.isdir(d):
            os.mkdir(d)
            os.chmod(d, 0o1777)
        return d

    def close(self):
        if os.path.basename(self.dir).startswith("vbuild-"):
            shutil.rmtree(self.dir, ignore_errors=True)


def registered(build):
    out = subprocess.run([build.worker(), "list"], env=ENV, capture_output=True, text=True, timeout=60).stdout
    subs = {}
    for line in out.splitlines():
        p, _, rest = line.partition(" ")
        subs[p] = re.findall(r"(.*?)\((\d+)\) ?", rest)
    return subs


def read_state(path):
    """The case that was being run when a worker died."""
    try:
        with open(path, "rb") as f:
            nh, nr = struct.unpack("<II", f.read(8))
            head = json.loads(f.read(nh))
            raw = f.read(nr)
            return {"property": head["property"], "sub": head["sub"], "case": json.loads(raw)}
    except (OSError, ValueError, struct.error, KeyError):
        return None


def crashed(rc, err):
    """Tells what a worker died of, None if it ended regularly."""
    if rc in (0, 1):
        return None
    if rc == HANG:
        return "does not terminate"
    if rc == MEMORY:
        return "uses memory without bound"
    if rc == RACE:
        return "data race"
    if "fatal error: " in err or re.search(r"^panic: ", err, re.M):
        m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", err, re.M)
        return "crash: " + (m.group(1) if m else "")[:300]
    if rc < 0:
        return f"killed by signal {-rc}"
    return None


def save_replay(f, seed=None):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(json.dumps(f, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{f['property']}-{re.sub('[^a-z0-9]+', '-', f['sub'].lower())}-{h}.json")
    with open(path, "w") as fh:
        json.dump(f, fh, indent=1, ensure_ascii=False)
    return path


def replay(build, path, race=False, timeout=300):
    """Runs a replay file: (violated, message), or raises Trouble."""
    with open(path) as fh:
        prop = json.load(fh)["property"]
    with tempfile.TemporaryDirectory(dir=build.dir) as d:
        try:
            r = subprocess.run([build.worker(race), "replay", "-file", path, "-state", os.path.join(d, "state"), "-mem", "6000"],
                               env=build.env(prop), capture_output=True, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return True, f"no end after {timeout} s"
        out, err = r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
        if r.returncode == 0:
            return False, ""
        if r.returncode == 1:
            return True, out.strip()
        c = crashed(r.returncode, err)
        if c and r.returncode != -signal.SIGKILL:
            return True, c + "\n" + err[-3000:]
        raise Trouble(f"replaying {path} ends with status {r.returncode}:\n{err[-3000:]}")


class Shard:
    def __init__(self, build, prop, seed, factor, n, budget, enums, sub="", race=False):
        self.build, self.prop, self.sub, self.race, self.seed, self.factor = build, prop, sub, race, seed, factor
        self.dir = os.path.join(build.dir, f"shard-{n}-{int(race)}")
        os.mkdir(self.dir)
        self.out, self.state, self.errfile = (os.path.join(self.dir, x) for x in ("out", "state", "err"))
        self.cmd = [build.worker(race), "run", "-prop", prop, "-seed", str(seed), "-factor", repr(factor), "-out", self.out,
                    "-state", self.state, "-mem", "3500", "-budget", repr(budget), f"-enums={'true' if enums else 'false'}"]
        if sub:
            self.cmd += ["-sub", sub]
        self.limit = time.time() + budget + 120
        with open(self.errfile, "wb") as e:
            self.p = subprocess.Popen(self.cmd, env=build.env(prop), stdout=e, stderr=e, stdin=subprocess.DEVNULL, cwd=self.dir,
                                      start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def finish(self):
        """Returns (results, failure or None)."""
        rc = self.p.returncode
        with open(self.errfile, "rb") as f:
            err = f.read().decode("utf-8", "replace")
        results = []
        if os.path.exists(self.out):
            with open(self.out) as f:
                results = json.load(f)
        if rc == 0:
            return results, None
        if rc == 1:
            f = next((r["failure"] for r in results if r.get("failure")), None)
            if f:
                return results, f
        what = crashed(rc, err)
        if what:
            f = read_state(self.state)
            if f:
                f.update(message=what + "\n" + err[-3000:], seed=self.seed, crash=True, race=rc == RACE or self.race)
                return results, f
        raise Trouble(f"worker for {self.prop} ends with status {rc}:\n{err[-4000:]}")


def confirm(build, f):
    """Decides whether a failure is real. Returns (path, message)."""
    race = bool(f.get("race"))
    path = save_replay(f)
    first = f.get("message", "")
    for _ in range(20 if race else 2):
        bad, msg = replay(build, path, race)
        if bad:
            return path, msg
    if race:
        return path, first + "\n(the replay file did not show the race again in 20 runs)"
    if not f.get("crash") and not f.get("alone", True):
        # depends on what ran before: the seed reproduces it
        return path, first + f"\n(only within the run with seed {f.get('seed')}, {f.get('checks')} cases)" if rerun(build, f) else None
    raise Trouble(f"a failure could not be reproduced: {path}\n{first}")


def rerun(build, f):
    with tempfile.TemporaryDirectory(dir=build.dir) as d:
        r = subprocess.run([build.worker(), "run", "-prop", f["property"], "-sub", f["sub"], "-seed", str(f["seed"]), "-checks", str(f["checks"]),
                            "-out", os.path.join(d, "out"), "-state", os.path.join(d, "state")], env=build.env(f["property"]), capture_output=True, timeout=600, cwd=d)
    if r.returncode != 1:
        raise Trouble(f"a failure could not be reproduced, with seed {f['seed']}: {f['message']}")
    return True


def known(prop):
    """The known findings of the property: [(replay file, expected part of the message, description)]"""
    out = []
    with open(os.path.join(VERIF, "known-findings.jsonl")) as fh:
        for line in fh:
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            k = json.loads(line)
            if k["property"] == prop:
                out.append((os.path.join(VERIF, k["replay"]), k["message"], k["what"]))
    return out


def merge(total, results):
    for r in results:
        t = total.setdefault(r["sub"], {"rule": r["rule"], "evaluations": 0, "nontrivial": 0, "distinct": set(), "labels": {}, "samples": [],
                                        "enumerated": r["enumerated"], "cut": False, "runs": 0})
        t["evaluations"] += r["evaluations"]
        t["nontrivial"] += r["nontrivial"]
        if len(t["distinct"]) < 5_000_000:
            t["distinct"].update(r["distinct"] or [])
        for k, v in (r["labels"] or {}).items():
            t["labels"][k] = t["labels"].get(k, 0) + v
        for s in r["samples"] or []:
            if len(t["samples"]) < 6 and s not in t["samples"]:
                t["samples"].append(s)
        t["cut"] = t["cut"] or bool(r.get("cut"))
        t["runs"] += 1


NOT_GUIDED = CLI | {"C16", "C25"}   # what they run is out of sight of the engine, or bound by the file system


def guided(build, prop, seed, seconds, total):
    """Coverage-guided search with the same generators and oracles (thorough tier). Returns a failure or None."""
    if prop in NOT_GUIDED or seconds < 20:
        return None
    out = subprocess.run([build.worker(), "guided", "-prop", prop], env=ENV, capture_output=True, text=True, timeout=60).stdout
    targets = [line.split(" ", 1) for line in out.splitlines()]
    raw = [t for t in targets if t[0] == "raw"]
    targets = raw[:3] + [t for t in targets if t[0] == "drawn"]
    engine = os.path.join(build.dir, "guided.test")
    go(["test", "-c", "-fuzz=FuzzSub", "-o", engine, "./guided"], HARNESS, "the guided search")
    each = seconds / max(1, len(targets))
    for n, (mode, sub) in enumerate(targets):
        d = os.path.join(build.dir, f"guided-{n}")
        os.mkdir(d)
        env = dict(build.env(prop), VERIF_FUZZ=f"{prop}/{sub}", VERIF_FUZZ_DIR=d, VERIF_FUZZ_SEED=str(seed), VERIF_FUZZ_RAW="1" if mode == "raw" else "")
        cmd = [engine, "-test.run=^$", "-test.fuzz=FuzzSub", f"-test.fuzztime={max(5, int(each))}s", "-test.fuzzminimizetime=1x",
               f"-test.fuzzcachedir={d}/cache", "-test.parallel=8"]
        log = os.path.join(d, "log")
        with open(log, "wb") as fh:
            p = subprocess.Popen(cmd, env=env, cwd=d, stdout=fh, stderr=fh, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=each + 120)
            except subprocess.TimeoutExpired:
                rc = 0
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        files = sorted(os.listdir(d))
        t = total.setdefault(f"{sub} (coverage-guided, {'bytes of the source' if mode == 'raw' else 'choices of the generator'})",
                             {"rule": "inputs that reach new code are kept and mutated further; else as " + sub, "evaluations": 0, "nontrivial": 0,
                              "distinct": set(), "labels": {}, "samples": [], "enumerated": False, "cut": False, "runs": 1})
        for name in files:
            path = os.path.join(d, name)
            if name.startswith("counts-"):
                a, b = (open(path).read() + " 0 0").split()[:2]
                t["evaluations"] += int(a)
                t["nontrivial"] += int(b)
            elif name.startswith("hashes-"):
                b = open(path, "rb").read()
                t["distinct"].update(struct.unpack(f"<{len(b) // 8}Q", b[:len(b) // 8 * 8]))
            elif name.startswith("harness-"):
                raise Trouble(open(path).read())
        f = None
        for name in files:
            if name.startswith("failure-"):
                path = os.path.join(d, name)
                subprocess.run([build.worker(), "shrink", "-file", path, "-out", path + ".small"], env=build.env(prop), capture_output=True, timeout=120)
                with open(path + ".small" if os.path.exists(path + ".small") else path) as fh:
                    f = json.load(fh)
                f["alone"] = True
                break
        if f is None and rc != 0:  # a process died: the case it was running
            for name in files:
                if name.startswith("state-"):
                    c = read_state(os.path.join(d, name))
                    if c and replay(build, save_replay(c))[0]:
                        f = dict(c, message="ends the process", crash=True)
                        break
            else:
                t["labels"]["the engine ended early"] = 1
        shutil.rmtree(d, ignore_errors=True)
        if f:
            return f
    return None


def check(prop, tier, seed):
    start = time.time()
    build = Build()
    shards = []
    total = {}
    violation = None
    try:
        subs = registered(build)
        if prop not in subs:
            raise Trouble(f"no check for {prop}")
        findings = 0
        for path, part, what in known(prop):
            bad, msg = replay(build, path)
            if bad and part in msg:
                findings += 1
                print(f"KNOWN-FINDING: property={prop} {what}", flush=True)
            elif bad:
                violation = (path, msg)
        factor = QUICK.get(prop, 1.0)
        budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
        end = start + budget
        if tier == "thorough" and prop not in NOT_GUIDED:
            end = start + budget * 0.6
        base = seed * 1_000_003 + 1
        n = 0

        def launch(first):
            nonlocal n
            left = max(5.0, end - time.time())
            f = factor if tier == "quick" else factor * THOROUGH_FACTOR
            shards.append(Shard(build, prop, base + n, f, n, left, enums=first))
            n += 1

        if not violation:
            for i in range(SHARDS if tier == "quick" else 8):
                launch(i == 0)
            if prop == "C16":  # the same under the race detector
                shards.append(Shard(build, prop, base, 1.0 if tier == "quick" else 20.0, 10_000, max(5.0, end - time.time()), False, "concurrent", True))
        while shards and not violation:
            time.sleep(0.05)
            for s in list(shards):
                if s.p.poll() is None:
                    if time.time() > s.limit:
                        s.kill()
                        raise Trouble(f"worker for {prop} does not end; last case: {json.dumps(read_state(s.state))[:2000]}")
                    continue
                shards.remove(s)
                results, f = s.finish()
                if s.race:
                    for r in results:
                        r["sub"] += " (race detector)"
                merge(total, results)
                shutil.rmtree(s.dir, ignore_errors=True)
                if f:
                    violation = confirm(build, f)
                    break
                if tier == "thorough" and not s.race and time.time() < end - 5:
                    launch(False)
        if tier == "thorough" and not violation:
            f = guided(build, prop, seed, start + budget - time.time(), total)
            if f:
                violation = confirm(build, f)
        evidence(prop, tier, seed, total, 1 if violation else 0, findings, time.time() - start)
        if violation:
            print(violation[1][:4000])
            print(f"VIOLATION property={prop} replay={violation[0]}", flush=True)
            return 1
        n_cases = sum(t["evaluations"] for t in total.values())
        print(f"{prop}: held on {n_cases} cases, {sum(len(t['distinct']) for t in total.values())} of them distinct and non-trivial, in {time.time() - start:.1f} s")
        return 0
    finally:
        for s in shards:
            s.kill()
        build.close()


def evidence(prop, tier, seed, total, violations, findings, wall):
    parts, samples = [], []
    for name, t in sorted(total.items()):
        labels = dict(sorted(t["labels"].items(), key=lambda kv: -kv[1])[:40])
        parts.append({"sub_check": name, "rule": t["rule"], "evaluations": t["evaluations"], "nontrivial": t["nontrivial"],
                      "distinct_nontrivial": len(t["distinct"]), "classes": labels, "complete_enumeration": t["enumerated"],
                      "cut_by_time": t["cut"], "shards": t["runs"]})
        for s in t["samples"][:6]:
            samples.append({"sub_check": name, "case": s[:700]})
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in total.values()),
            "distinct_nontrivial": sum(len(t["distinct"]) for t in total.values()),
            "rule": "; ".join(f"{p['sub_check']}: {p['rule']}" for p in parts),
            "samples": samples[:30],
            "sub_checks": parts,
        },
        "wall_s": round(wall, 2), "violations": violations,
    }
    if findings:
        e["coverage"]["known_findings_reproduced"] = findings
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.replace(path + ".tmp", path)


def setup():
    build = Build()
    try:
        build.worker()
        build.worker(race=True)
        build.cli()
        print(f"built; {len(registered(build))} properties")
    finally:
        build.close()


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    a.add_argument("--replay")
    a.add_argument("--setup", action="store_true")
    o = a.parse_args()
    try:
        if o.setup:
            setup()
            return 0
        if o.replay:
            build = Build()
            try:
                with open(o.replay) as fh:
                    f = json.load(fh)
                bad, msg = replay(build, os.path.abspath(o.replay), bool(f.get("race")))
                print(msg if bad else "holds")
                if bad:
                    print(f"VIOLATION property={f['property']} replay={o.replay}")
                return 1 if bad else 0
            finally:
                build.close()
        if not o.prop:
            a.error("which property?")
        return check(o.prop, o.tier, o.seed)
    except Trouble as e:
        print(f"run.py: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
