#!/usr/bin/env python3
"""Decides one property of the library in /repo by generated cases.

  check.py <property> [quick|thorough]   exit 0, or 1 with a VIOLATION line
  check.py replay <file>                 runs one saved case
  check.py build                         builds the runners once and tests the model

Any other exit code means that the check itself could not reach a verdict.
"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8
RACE = {"C23"}
NARROW = {"C27"}  # run by a runner compiled for a 32-bit platform
CLOCK = {"C22", "C27"}  # run by a runner whose clock can be moved
# When the processes of these shards start, in Unix seconds (else: now).
STARTS = {1: 946684799, 3: 2147483648, 5: 4102444800, 7: 1798761599}
# The coverage-guided stage: seconds per target of harness/vrun/fuzz_test.go.
TEXT = {"C02", "C04", "C05", "C13", "C17", "C24"}
NO_FUZZ = {"C06", "C19", "C20", "C23", "C26", "C27"}  # their cases start processes or need whole-process control


def fuzz_plan(prop, tier):
    plan = []
    if prop in TEXT:
        plan.append(("FuzzText", 15 if tier == "quick" else 600))
    if tier == "thorough" and prop not in NO_FUZZ:
        plan.append(("FuzzCase", 600))
    return plan


OK, VIOLATION, HANG, INTERNAL, RACE_EXIT = 0, 10, 11, 3, 66
LIMIT = {"quick": 780, "thorough": 6 * 3600}
BUDGET = {"quick": 240, "thorough": 3 * 3600}  # a shard starts no new case after this many seconds


class Inconclusive(Exception):
    pass


class NoNarrowBuild(Exception):
    """The library compiles for 64-bit platforms and not for 32-bit ones."""


def go_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE, check=True).stdout
        env.update(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    except (OSError, subprocess.CalledProcessError):
        pass
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
    return env


def build(work, prop):
    """Compiles the runner against the working tree of the repository."""
    race = prop in RACE
    with open(f"{VERIF}/harness/go.mod") as f:
        mod = f.read().replace("=> /repo", f"=> {REPO}")
    with open(f"{work}/go.mod", "w") as f:
        f.write(mod)
    sums = []
    for p in (f"{VERIF}/harness/go.sum", f"{REPO}/go.sum"):
        if os.path.exists(p):
            with open(p) as f:
                sums += f.read().splitlines()
    with open(f"{work}/go.sum", "w") as f:
        f.write("\n".join(sorted(set(sums))) + "\n")
    exe = f"{work}/vrun"
    cmd = ["go", "build", "-modfile", f"{work}/go.mod", "-o", exe] + (["-race"] if race else []) + ["./vrun"]
    cmd = cmd[:2] + clock_flags(work, prop) + cmd[2:]
    for narrow in (True, False) if prop in NARROW else (False,):
        env = go_env()
        if narrow:
            env.update(GOARCH="386", CGO_ENABLED="0")
        r = subprocess.run(cmd, cwd=f"{VERIF}/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 and narrow:
            lib, alone = [subprocess.run(["go", "build", "-modfile", f"{work}/go.mod", what], cwd=f"{VERIF}/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for what in ("github.com/aureleoules/btc", "./ref")]
            wide = subprocess.run(["go", "build", "-modfile", f"{work}/go.mod", "github.com/aureleoules/btc"], cwd=f"{VERIF}/harness", env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if lib.returncode != 0 and alone.returncode == 0 and wide.returncode == 0:
                raise NoNarrowBuild("the library does not compile for a 32-bit platform (GOARCH=386):\n" + lib.stdout.decode(errors="replace")[:3000])
        if r.returncode != 0:
            raise Inconclusive("the runner does not build against the library:\n" + r.stdout.decode(errors="replace"))
        if narrow:
            try:  # this machine may not run 32-bit programs
                subprocess.run([exe, "-mode", "list"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                break
            except (OSError, subprocess.CalledProcessError):
                print("this machine does not run 32-bit programs: the cases run on 64 bits only")
    if race:
        build_yielding(work, cmd)
    return exe


def clock_flags(work, prop):
    """Writes a copy of Go's time package in which Now can be moved. Gives the flags that
    compile the runner with it, or none if that does not work here."""
    if prop not in CLOCK:
        return []
    env = go_env()
    root = subprocess.run(["go", "env", "GOROOT"], env=env, stdout=subprocess.PIPE).stdout.decode().strip()
    path = f"{root}/src/time/time.go"
    try:
        with open(path) as f:
            src = f.read()
    except OSError:
        src = ""
    now = "\nfunc Now() Time {\n"
    if src.count(now) != 1 or src.count("\nimport (\n") != 1:
        print("the clock of the runner cannot be moved")
        return []
    src = src.replace("\nimport (\n", "\nimport (\n\tverifatomic \"sync/atomic\"\n")
    src = src.replace(now, """
func Now() Time {
	shift := verifShift.Add(verifStep.Load())
	if shift == 0 {
		return verifNow()
	}
	t := verifNow()
	t.stripMono()
	return t.Add(Duration(shift))
}

var verifShift, verifStep verifatomic.Int64

// VerifClock moves the clock by so many nanoseconds, and by step more at every look.
func VerifClock(shift, step int64) {
	verifStep.Store(0)
	verifShift.Store(shift)
	verifStep.Store(step)
}

func verifNow() Time {
""")
    os.makedirs(f"{work}/clock", exist_ok=True)
    with open(f"{work}/clock/time.go", "w") as f:
        f.write(src)
    with open(f"{work}/clock/overlay.json", "w") as f:
        json.dump({"Replace": {path: f"{work}/clock/time.go"}}, f)
    flags = ["-overlay", f"{work}/clock/overlay.json", "-tags", "verifclock"]
    r = subprocess.run(["go", "vet", *flags, "-modfile", f"{work}/go.mod", "./source"], cwd=f"{VERIF}/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        print("the clock of the runner cannot be moved: " + r.stdout.decode(errors="replace")[-500:])
        return []
    return flags


def build_yielding(work, cmd):
    """Compiles a second runner with a copy of the library that lets other goroutines run
    between any two statements. The check does without it if it cannot be built."""
    os.makedirs(f"{work}/yielding", exist_ok=True)
    r = subprocess.run(["go", "run", "./yield", REPO, f"{work}/yielding"], cwd=f"{VERIF}/harness", env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode == 0:
        cmd = [c if c != f"{work}/vrun" else f"{work}/vrun-yielding" for c in cmd]
        r = subprocess.run(cmd[:2] + ["-overlay", f"{work}/yielding/overlay.json"] + cmd[2:], cwd=f"{VERIF}/harness", env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        print("no runner with yields: " + r.stdout.decode(errors="replace")[-500:])


def fuzz(run, target, seconds, seed):
    """Runs Go's fuzzer on one target. Returns a record that fails when replayed (or None) and
    counts. What the fuzzer says by itself decides nothing: only a replay of its case does."""
    done = {"target": target, "seconds": seconds, "executions": 0, "nontrivial": 0}
    exe = f"{run.work}/vfuzz"
    if not os.path.exists(exe):
        cmd = ["go", "test", "-c", "-fuzz=Fuzz", "-modfile", f"{run.work}/go.mod", "-o", exe, "./vrun"]
        r = subprocess.run(cmd, cwd=f"{VERIF}/harness", env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            done["skipped"] = r.stdout.decode(errors="replace")[-500:]
            return None, done
    out = f"{run.work}/{target}"
    os.makedirs(out)
    env = run_env(False)
    env.update(VERIF_FUZZ_PROP=run.prop, VERIF_FUZZ_OUT=out, VERIF_FUZZ_KNOWN=run.known, VERIF_SEED=str(seed))
    cmd = [exe, "-test.run=^$", f"-test.fuzz=^{target}$", f"-test.fuzzcachedir={out}/cache", f"-test.fuzztime={seconds}s", "-test.fuzzminimizetime=10s", f"-test.parallel={SHARDS}"]
    with open(f"{out}/log", "wb") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd=out, start_new_session=True)
        try:
            rc = p.wait(timeout=max(1, min(seconds + 90, run.deadline - time.time())))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    names = sorted(os.listdir(out))
    for n in names:
        if n.endswith("-count.json"):
            a = load(f"{out}/{n}") or [0, 0]
            done["executions"] += a[0]
            done["nontrivial"] += a[1]
    if rc == 0:
        return None, done
    for n in [n for n in names if n.endswith("-fail.json")] + [n for n in names if n.endswith("-journal.json")]:
        rec = load(f"{out}/{n}")
        if rec is None:
            continue
        rrc, _, rtext = run.replay(f"{out}/{n}", 120)
        if broke(rrc, rtext):
            rec["error"] = describe(rrc, rtext)
            rec["found_by"] = target
            return rec, done
    with open(f"{out}/log", "rb") as f:
        done["note"] = "the fuzzer stopped early and nothing it left fails when replayed: " + f.read()[-400:].decode(errors="replace")
    return None, done


def findings():
    """Recorded findings: id -> (property, text)."""
    out = {}
    with open(f"{VERIF}/known_findings.txt") as f:
        for line in f:
            if line.startswith("finding: "):
                words = line.split()
                fid, prop = words[1].split("=", 1)[1], words[2].split("=", 1)[1]
                out[fid] = (prop, " ".join(words[3:]))
    return out


def homed(env, out):
    """The environment with the user's directories inside the scratch directory."""
    for name, sub in (("HOME", "home"), ("XDG_CACHE_HOME", "home/cache"), ("XDG_CONFIG_HOME", "home/config"), ("XDG_DATA_HOME", "home/data"), ("XDG_RUNTIME_DIR", "home/run"), ("TMPDIR", "tmp")):
        env[name] = f"{out}/{sub}"
        os.makedirs(env[name], exist_ok=True)
    return env


def run_env(race):
    env = dict(os.environ)
    env["GOTRACEBACK"] = "all"
    env["VERIF_SRC"] = REPO
    if race:
        env["GORACE"] = f"halt_on_error=1 exitcode={RACE_EXIT} history_size=3"
    return env


class Runner:
    def __init__(self, exe, prop, tier, work, deadline):
        self.exe, self.prop, self.tier, self.work, self.deadline = exe, prop, tier, work, deadline
        self.race = prop in RACE
        self.known = ",".join(findings())
        self.n = 0
        # new strings of the source that may name environment variables
        out = subprocess.run([exe, "-mode", "envnames"], env=run_env(False), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.names = out.stdout.decode(errors="replace").split() if out.returncode == 0 else []

    def env(self, shard):
        env = run_env(self.race)
        if shard % 2 == 1:
            if self.prop == "C27":
                env["VERIF_CLOCK"] = str(STARTS[shard % 8])
            env.update((n, ("1", "true", "testnet", "test")[shard // 2 % 4]) for n in self.names if n not in env)
        return env

    def exec(self, args, tag, limit=None, shard=0):
        self.n += 1
        out = f"{self.work}/{tag}-{self.n}"
        os.makedirs(out)
        left = self.deadline - time.time()
        if limit:
            left = min(left, limit)
        if left <= 0:
            raise Inconclusive("out of time")
        with open(f"{out}/stderr", "wb") as err, open(f"{out}/stdout", "wb") as so:
            exe = self.exe
            if shard % 4 >= 2 and os.path.exists(exe + "-yielding"):
                exe += "-yielding"
            pin = []
            if self.prop == "C27" and shard % 8 in (2, 4, 6) and shutil.which("taskset"):  # fewer processors
                cpus = sorted(os.sched_getaffinity(0))
                pin = ["taskset", "-c", ",".join(str(cpus[(shard + i) % len(cpus)]) for i in range(shard // 2 % 4))]
            p = subprocess.Popen([*pin, exe, "-out", out, "-known", self.known, *args], stdout=so, stderr=err, stdin=subprocess.DEVNULL, env=homed(self.env(shard), out), cwd=out)
            try:
                rc = p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
        with open(f"{out}/stderr", "rb") as err:
            text = err.read(20000).decode(errors="replace")
        return rc, out, text

    def shard(self, i, seed, extra=()):
        return self.exec(["-mode", "run", "-prop", self.prop, "-tier", self.tier, "-seed", str(seed), "-shard", str(i), "-shards", str(SHARDS), *extra], f"shard{i}", shard=i)

    def replay(self, path, limit=None):
        rec = load(path) or {}
        return self.exec(["-mode", "replay", "-file", path], "replay", limit, rec.get("shard", 0))


def shard_seed(seed, prop, i):
    h = hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()
    return int.from_bytes(h[:7], "big") | 1


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def broke(rc, text):
    """Does this end of a run on one case mean that the library failed?"""
    if rc is None or rc == OK:
        return False
    if rc == INTERNAL and "vrun:" in text:
        return False
    return rc >= 0 or -rc in (6, 11, 4, 8)  # not killed from outside


def describe(rc, text):
    if rc == RACE_EXIT:
        return "data race reported by the race detector:\n" + text[:3000]
    if rc in (VIOLATION, HANG):
        return text[:3000]
    return f"the process ended (status {rc}):\n" + text[:3000]


def save(prop, rec):
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    body = json.dumps(rec, indent=1, sort_keys=True)
    path = f"{VERIF}/replays/{prop}-{hashlib.sha256(body.encode()).hexdigest()[:12]}.json"
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def investigate(run, i, seed, rc, out, text):
    """Turns the failure of a shard into a replay file, or raises Inconclusive."""
    if rc is None:
        raise Inconclusive(f"shard {i} ran out of time")
    if rc == INTERNAL and "vrun:" in text:
        raise Inconclusive(f"shard {i}: {text}")
    rec = load(f"{out}/fail.json") if rc in (VIOLATION, HANG) else None
    if rec is None:
        rec = load(f"{out}/journal.json")
        if rec is None:
            raise Inconclusive(f"shard {i} ended with status {rc} before its first case: {text}")
        rec["error"] = describe(rc, text)
    path = f"{out}/case.json"
    with open(path, "w") as f:
        json.dump(rec, f)
    for _ in range(10 if rc == RACE_EXIT else 1):
        rrc, _, rtext = run.replay(path)
        if broke(rrc, rtext):
            break
    if broke(rrc, rtext):
        rec["error"] = describe(rrc, rtext)
        if rec.get("iter", -1) >= 0 and rrc != HANG:
            irc, iout, _ = run.exec(["-mode", "isolate", "-prop", run.prop, "-seed", str(rec["seed"]), "-shard", str(i)], "isolate", 200, i)
            small = load(f"{iout}/shrunk.json")
            if small is not None:
                spath = f"{iout}/shrunk-case.json"
                with open(spath, "w") as f:
                    json.dump(small, f)
                src, _, stext = run.replay(spath)
                if broke(src, stext):
                    small["error"] = describe(src, stext)
                    small["shrunk_from"] = rec["case"]
                    rec = small
        return rec
    # not by itself: with the history of the shard?
    hist = {"property": run.prop, "history": {"tier": run.tier, "seed": seed, "shard": i, "iter": rec["iter"]}, "case": rec["case"], "error": rec["error"]}
    hrc, _, htext = run.shard(i, seed, ["-maxiter", str(rec["iter"])])
    if broke(hrc, htext):
        return hist
    if rc in (VIOLATION, RACE_EXIT):
        hist["note"] = "observed once; neither the case alone nor its history showed it again"
        return hist
    raise Inconclusive(f"shard {i} ended with status {rc} and the case does not reproduce it: {text}")


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        rec, regressed, run = None, 0, None
        try:
            exe = build(work, prop)
            run = Runner(exe, prop, tier, work, t0 + LIMIT[tier])
        except NoNarrowBuild as e:
            rec = {"property": prop, "case": "GOARCH=386 go build", "build": "386", "error": str(e)}
        rdir = f"{VERIF}/regress/{prop}"
        files = sorted(os.listdir(rdir)) if os.path.isdir(rdir) and run else []
        with ThreadPoolExecutor(SHARDS) as pool:
            for name, (rc, out, text) in zip(files, pool.map(lambda n: run.replay(f"{rdir}/{n}"), files)):
                regressed += 1
                if rc is None or rc == INTERNAL and "vrun:" in text:
                    raise Inconclusive(f"regression case {name}: status {rc}: {text}")
                if broke(rc, text) and rec is None:
                    rec = load(f"{rdir}/{name}")
                    rec["error"] = describe(rc, text)
                    rec["regression"] = name
                elif not broke(rc, text) and rc != OK:
                    raise Inconclusive(f"regression case {name}: status {rc}: {text}")
        total = {"evaluations": regressed, "enumerated": 0, "labels": {}, "known": {}, "samples": [], "rule": "", "exhaustive": False}
        distinct = set()
        if rec is None:
            seeds = [shard_seed(seed, prop, i) for i in range(SHARDS)]
            with ThreadPoolExecutor(SHARDS) as pool:
                results = list(pool.map(lambda i: run.shard(i, seeds[i], ["-budget", str(BUDGET[tier])]), range(SHARDS)))
            problem = None
            for i, (rc, out, text) in enumerate(results):
                st = load(f"{out}/stats.json")
                if rc == OK and st is not None:
                    total["evaluations"] += st["evaluations"]
                    total["enumerated"] += st["enumerated"]
                    for k, v in st["labels"].items():
                        total["labels"][k] = total["labels"].get(k, 0) + v
                    total["known"].update(st["known"])
                    total["samples"] += (st["samples"] or [])[: 2 if i < 4 else 0]
                    total["cut"] = total.get("cut", 0) + bool(st.get("cut"))
                    total["rule"], total["exhaustive"] = st["rule"], st["exhaustive"]
                    distinct.update(load(f"{out}/hashes.json"))
                    continue
                if rec is not None:
                    continue
                if rc == OK:
                    rc, text = 1000, "the process ended with status 0 in the middle of the run\n" + text
                try:
                    rec = investigate(run, i, seeds[i], rc, out, text)
                except Inconclusive as e:
                    problem = problem or e
            if rec is None and problem is not None:
                raise problem
        fuzzed = []
        if rec is None:
            for target, seconds in fuzz_plan(prop, tier):
                rec, done = fuzz(run, target, seconds, seed)
                fuzzed.append(done)
                total["evaluations"] += done["executions"]
                if rec is not None:
                    break
        violations = 0
        if rec is not None:
            violations = 1
            path = save(prop, rec)
            print(rec["error"])
            print("case:", json.dumps(rec["case"])[:3000])
            total["samples"] = [rec["case"]]
            total["evaluations"] = max(total["evaluations"], 1)
        for fid, (p, text) in findings().items():
            if p == prop and fid in total["known"]:
                print(f"KNOWN-FINDING: property={prop} {text}")
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump({
                "property": prop, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {
                    "evaluations": total["evaluations"],
                    "distinct_nontrivial": len(distinct),
                    "rule": "cases drawn by rapid from the generator of the property (harness/vrun), plus enumerated edge cases and committed regression cases; non-trivial: " + total["rule"],
                    "samples": total["samples"],
                    "enumerated": total["enumerated"],
                    "regression_cases": regressed,
                    "classes": dict(sorted(total["labels"].items())),
                    "exhaustive": total["exhaustive"],
                    "shards_ended_by_time_budget": total.get("cut", 0),
                    **({"shards_with_yields_between_statements": sum(i % 4 >= 2 for i in range(SHARDS)) if os.path.exists(f"{work}/vrun-yielding") else 0} if prop in RACE else {}),
                    "coverage_guided": fuzzed,
                },
                "assumptions": ["the reference model in harness/ref is right (it tests itself against published vectors at every start)", "the pseudo-random generators of rapid"],
                "wall_s": round(time.time() - t0, 2),
                "violations": violations,
            }, f, indent=1)
            f.write("\n")
        print(f"{prop} {tier} seed={seed}: {total['evaluations']} cases, {len(distinct)} distinct non-trivial, {time.time() - t0:.1f} s")
        if violations:
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rec = load(path)
    if rec is None:
        raise Inconclusive("cannot read " + path)
    prop = rec["property"]
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        try:
            exe = build(work, prop)
        except NoNarrowBuild as e:
            print(e)
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        if rec.get("build"):
            print("the case passes")
            return 0
        h = rec.get("history")
        run = Runner(exe, prop, h["tier"] if h else "quick", work, time.time() + 3600)
        for _ in range(10 if prop in RACE else 1):
            if h:
                rc, _, text = run.shard(h["shard"], h["seed"], ["-maxiter", str(h["iter"])])
            else:
                rc, _, text = run.replay(os.path.abspath(path))
            if rc != OK:
                break
        if rc == OK:
            print("the case passes")
            return 0
        if not broke(rc, text):
            raise Inconclusive(f"status {rc}: {text}")
        print(describe(rc, text))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    try:
        if args[:1] == ["build"]:
            work = tempfile.mkdtemp(prefix="verif-build-")
            try:
                for prop in ("C01", "C23", "C27"):
                    build(work, prop)
                subprocess.run(["go", "test", "-c", "-fuzz=Fuzz", "-modfile", f"{work}/go.mod", "-o", f"{work}/vfuzz", "./vrun"], cwd=f"{VERIF}/harness", env=go_env())
                r = subprocess.run(["go", "test", "-modfile", f"{work}/go.mod", "./ref"], cwd=f"{VERIF}/harness", env=go_env())
                return r.returncode
            finally:
                shutil.rmtree(work, ignore_errors=True)
        if args[:1] == ["replay"] and len(args) == 2:
            return replay(args[1])
        if len(args) in (1, 2):
            tier = args[1] if len(args) == 2 else os.environ.get("VERIF_TIER", "quick")
            if tier not in LIMIT:
                raise Inconclusive("unknown tier " + tier)
            return check(args[0], tier)
    except Inconclusive as e:
        print("INCONCLUSIVE:", e, file=sys.stderr)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
