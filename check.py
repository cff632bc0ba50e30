#!/usr/bin/env python3
"""check.py PROPERTY: runs the workload of a property against /repo's current tree under its monitors.

Builds the harness (/verif/harness) and /repo in the variants that the property needs, runs the cases in
parallel shards, watches the shards, and judges what they report. Exit 0: held on everything that was
explored. 1, with a line `VIOLATION property=<id> replay=<path>`: broken. 2: no answer.

check.py PROPERTY --replay FILE repeats the case of a replay file. check.py --build builds everything.
"""
import concurrent.futures
import json
import os
import re
import resource
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, ".target")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()

VARIANTS = ("dbg", "asan", "tsan", "miri", "cost")
# cases of (debug assertions, ASan, TSan, Miri, counted costs) in the quick tier
PLAN = {
    "C01": (40000, 12000, 0, 0),
    "C02": (1800, 440, 0, 0),
    "C03": (200000, 40000, 0, 0),
    "C04": (14000, 3600, 0, 0),
    "C05": (36000, 7000, 0, 0),
    "C06": (10000, 1800, 0, 0),
    "C07": (8000, 1400, 0, 16),
    "C08": (32000, 8000, 0, 0),
    "C09": (60000, 14000, 0, 0),
    "C10": (9000, 3000, 0, 0),
    "C11": (16000, 4000, 0, 0),
    "C12": (30000, 7000, 0, 0),
    "C13": (8000, 3000, 0, 0),
    "C14": (4200, 1000, 0, 0),
    "C15": (13000, 3200, 160, 0),
    "C16": (2400, 600, 600, 0),
    "C17": (9000, 2600, 500, 0),
    "C18": (25000, 5000, 0, 0),
    "C19": (20000, 5000, 0, 0),
    "C20": (28000, 7000, 0, 0),
    "C21": (20000, 6000, 0, 0),
    "C22": (160000, 60000, 0, 0),
    "C23": (60000, 16000, 0, 0),
    "C24": (300000, 100000, 0, 0),
    "C25": (60000, 18000, 0, 0),
    "C26": (3000, 600, 500, 0),
    "C27": (0, 0, 0, 0, 2400),
}
THOROUGH_FACTOR = 25
# only in the thorough tier
MIRI_THOROUGH = {"C01": 24, "C03": 48, "C07": 400, "C08": 48, "C10": 24, "C12": 24, "C15": 64, "C16": 24, "C17": 64,
                 "C18": 64, "C19": 64, "C20": 64, "C22": 64, "C24": 100}
# properties whose memory must be released in the end
LEAKS = {"C15", "C17", "C18", "C19", "C20", "C26"}
# several threads in each shard
THREADED = {"C16", "C17", "C26"}
# probes of defects, and the variant that shows them
PROBES = {"C06": [("deep_nesting", "dbg"), ("shared_subarrays", "dbg")], "C17": [("key_outlives_scope", "asan")]}

CASE_CPU_S = {"dbg": 100, "asan": 240, "tsan": 240, "miri": 100000, "cost": 240}
STALL_S = 150


def out(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------- build

def build_cmd(variant):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "MIRIFLAGS", "RUST_"))}
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, variant)
    env["RUSTFLAGS"] = "-Awarnings"
    h = os.path.join(VERIF, "harness")
    if variant == "dbg":
        return ["cargo", "build", "--offline"], env, h, "debug/fleece-verif"
    if variant == "asan":
        env["RUSTFLAGS"] += " -Zsanitizer=address"
        return ["cargo", "+nightly", "build", "--release", "--offline", "--target", TRIPLE], env, h, f"{TRIPLE}/release/fleece-verif"
    if variant == "tsan":
        env["RUSTFLAGS"] += " -Zsanitizer=thread"
        return ["cargo", "+nightly", "build", "--release", "--offline", "-Zbuild-std", "--target", TRIPLE], env, h, f"{TRIPLE}/release/fleece-verif"
    if variant == "cost":
        # calls a counter of the harness at each edge
        env["RUSTFLAGS"] += " --cfg fleece_cost -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
        return ["cargo", "build", "--release", "--offline", "--target", TRIPLE], env, h, f"{TRIPLE}/release/fleece-verif"
    env["MIRIFLAGS"] = "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"
    return ["cargo", "+nightly", "miri", "run", "--offline", "--", "run"], env, os.path.join(VERIF, "harness-miri"), None


def build(variant):
    cmd, env, cwd, exe = build_cmd(variant)
    if variant == "miri":
        # an unknown property builds everything and ends with 2
        subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=cwd, env=env, capture_output=True, timeout=900)
        p = subprocess.run([*cmd, "NONE"], cwd=cwd, env=env, capture_output=True, text=True, timeout=900)
        if "no such property" not in p.stderr:
            raise NoAnswer(f"the build of {variant} fails:\n{p.stderr[-4000:]}")
        return None
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=1500)
    if p.returncode != 0:
        raise NoAnswer(f"the build of {variant} fails:\n{p.stderr[-4000:]}")
    return os.path.join(TARGET, variant, exe)


def build_all(variants):
    os.makedirs(TARGET, exist_ok=True)
    # cargo goes by modification times, which a checkout may set back
    subprocess.run(["touch", "-c", f"{REPO}/src/lib.rs"], check=False)
    with concurrent.futures.ThreadPoolExecutor() as ex:
        return dict(zip(variants, ex.map(build, variants)))


# ---------------------------------------------------------------- run

def command(variant, exe):
    if variant == "miri":
        cmd, env, cwd, _ = build_cmd("miri")
        return cmd[:-1], env, cwd
    env = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
    env["RUST_BACKTRACE"] = "0"
    return [exe], env, VERIF


def limits(variant):
    def f():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant == "dbg":
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    return f


def cpu_of(pid):
    """CPU seconds of a child of ours."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def sanitizer_report(err):
    """The first report of a sanitizer, or of Miri, as one line."""
    for pat in (r"SUMMARY: (\w+Sanitizer: .*)", r"(ERROR: \w+Sanitizer: .*)", r"(WARNING: ThreadSanitizer: .*)", r"error: (Undefined Behavior: .*)",
                r"error: (the evaluated program deadlocked.*)", r"error: (memory leaked.*)", r"error: (abnormal termination.*)", r"error: (.*stack overflow.*)"):
        m = re.search(pat, err)
        if m:
            return m.group(1)[:300]
    return None


class Shard:
    def __init__(self, prop, variant, exe, shard, shards, frm, to, max_secs, seed, tier, dirname):
        self.prop, self.variant, self.shard = prop, variant, shard
        self.seed, self.tier = seed, tier
        self.base = os.path.join(dirname, f"{prop}.{variant}.{shard}.{frm}")
        cmd, env, cwd = command(variant, exe)
        leaks = 1 if prop in LEAKS else 0
        env["ASAN_OPTIONS"] = f"detect_leaks={leaks}:exitcode=99:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:max_allocation_size_mb=16384"
        env["LSAN_OPTIONS"] = "exitcode=97"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
        self.cmd = [*cmd, "run", prop, "--seed", str(seed), "--shard", str(shard), "--shards", str(shards), "--from", str(frm), "--to", str(to),
                    "--max-secs", str(max_secs), "--progress", self.base + ".progress", "--variant", variant, "--tier", tier]
        for suffix in ("progress", "out", "err"):
            try:
                os.unlink(f"{self.base}.{suffix}")
            except OSError:
                pass
        self.fout, self.ferr = open(self.base + ".out", "w+b"), open(self.base + ".err", "w+b")
        self.p = subprocess.Popen(self.cmd, env=env, cwd=cwd, stdout=self.fout, stderr=self.ferr, stdin=subprocess.DEVNULL, preexec_fn=limits(variant))
        self.started = time.time()
        self.case, self.case_cpu, self.case_wall = None, 0.0, time.time()
        self.killed = None
        self.max_secs = max_secs

    def progress(self):
        try:
            with open(self.base + ".progress") as f:
                return int(f.read().strip())
        except (OSError, ValueError):
            return None

    def kill(self, why):
        self.killed = why
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def watch(self):
        """Poll once. True when it has ended."""
        if self.p.poll() is not None:
            return True
        now, cpu, case = time.time(), cpu_of(self.p.pid), self.progress()
        if case != self.case:
            self.case, self.case_cpu, self.case_wall, self.last_cpu = case, cpu, now, cpu
            self.cpu_moved = now
        if cpu > getattr(self, "last_cpu", 0.0) + 0.2:
            self.last_cpu, self.cpu_moved = cpu, now
        if self.variant == "miri":
            if now - self.started > self.max_secs * 3 + 300:
                self.kill("time")
            return False
        if case is not None and cpu - self.case_cpu > CASE_CPU_S[self.variant] * (8 if self.prop in THREADED else 1):
            self.kill("cpu")
        elif case is not None and now - self.case_wall > STALL_S and now - self.cpu_moved > STALL_S:
            self.kill("stall")
        elif now - self.started > self.max_secs + 600:
            self.kill("time")
        return False

    def result(self):
        """(report or None, [violations], [reasons for no answer])"""
        rc = self.p.wait()
        self.fout.seek(0)
        self.ferr.seek(0)
        o, err = self.fout.read().decode("utf-8", "replace"), self.ferr.read().decode("utf-8", "replace")
        self.fout.close()
        self.ferr.close()
        case = self.progress()
        rep = None
        for line in reversed(o.splitlines()):
            if line.startswith('{"property"'):
                try:
                    rep = json.loads(line)
                except ValueError:
                    pass
                break
        viol, none = [], []

        def v(case, error, inp=""):
            viol.append({"property": self.prop, "variant": self.variant, "seed": self.seed, "tier": self.tier, "case": case, "error": error, "input": inp})

        if rep:
            for x in rep["violations"]:
                if x["error"].startswith("HARNESS-PANIC"):
                    none.append(f"{self.variant} case {x['case']}: {x['error']}")
                else:
                    v(x["case"], x["error"], x["input"])
        if self.killed == "cpu":
            v(case, "the case does not end: it uses CPU without progress")
        elif self.killed == "stall":
            v(case, "the case does not end: it is blocked")
        elif self.killed == "time":
            none.append(f"{self.variant} shard {self.shard} is killed at its time limit, in case {case}")
        elif rc in (0, 1) and rep:
            pass
        elif "LeakSanitizer has encountered a fatal error" in err:
            if not rep:
                none.append("LeakSanitizer can't run here")
        elif "FATAL: ThreadSanitizer" in err or "Shadow memory range interleaves" in err or "unexpected memory mapping" in err:
            none.append(f"{self.variant} can't run here: {err[-300:]}")
        elif "unsupported operation" in err and self.variant == "miri":
            none.append(f"Miri can't run case {case}: {err[-600:]}")
        elif sanitizer_report(err):
            v(case, sanitizer_report(err), err[:6000] if len(err) < 6000 else err[:3000] + "\n…\n" + err[-3000:])
        elif rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
            v(case, f"the process dies of {signal.Signals(-rc).name}: {err.strip()[-300:]}")
        else:
            none.append(f"{self.variant} shard {self.shard} ends with {rc} in case {case}: {err.strip()[-600:]}")
        for suffix in ("progress", "out", "err"):
            try:
                os.unlink(f"{self.base}.{suffix}")
            except OSError:
                pass
        return rep, viol, none


def run_shards(shards):
    running, results = list(shards), []
    while running:
        time.sleep(0.1)
        for s in list(running):
            if s.watch():
                running.remove(s)
                results.append((s, s.result()))
        # one crash is enough, but let the others report for a while
    return results


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    found = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\w+) case=(\w+) (.*)", line)
                if m and m.group(1) == prop:
                    found[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return found


def probe(name, variant, exe):
    """None if the behaviour is right, or how it fails."""
    def lim():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (6, 7))
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99")
    p = subprocess.run([exe, "known", name], env=env, capture_output=True, text=True, errors="replace", preexec_fn=lim, stdin=subprocess.DEVNULL)
    if p.returncode == 0:
        return None
    if p.returncode == 2:
        raise NoAnswer(f"no probe {name}")
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return "no end within 6 s of CPU"
    return sanitizer_report(p.stderr) or f"ends with {p.returncode}: {p.stderr.strip()[-200:]}"


# ---------------------------------------------------------------- main

RULES = json.load(open(os.path.join(VERIF, "rules.json"))) if os.path.exists(os.path.join(VERIF, "rules.json")) else {}


def check(prop):
    plan = dict(zip(VARIANTS, PLAN[prop]))
    thorough = TIER == "thorough"
    if thorough:
        plan = {k: n * THOROUGH_FACTOR for k, n in plan.items()}
        plan["miri"] = MIRI_THOROUGH.get(prop, 0)
    plan = {k: n for k, n in plan.items() if n}
    max_secs = 1500 if thorough else 300
    exes = build_all(list(plan))
    built = time.time() - T0
    scratch = os.path.join(TARGET, f"run.{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    shards = []
    per = {"dbg": 4, "asan": 4, "tsan": 3, "miri": 8, "cost": 8}
    if prop in THREADED:
        per.update({"dbg": 2, "asan": 2, "tsan": 2})
    groups = [["dbg", "asan", "tsan", "cost"], ["miri"]]
    results = []
    for group in groups:
        shards = []
        for variant in group:
            n = plan.get(variant, 0)
            # each variant has a workload of its own
            seed = SEED * 4 + VARIANTS.index(variant)
            # the first cases are enumerations, which are too many for Miri
            frm = 1000 if variant == "miri" else 0
            for i in range(min(per[variant], n)):
                shards.append(Shard(prop, variant, exes[variant], i, min(per[variant], n), frm, frm + n, max_secs, seed, TIER, scratch))
        results += run_shards(shards)
        if any(r[1] for _, r in results):
            break
    try:
        os.rmdir(scratch)
    except OSError:
        pass

    violations, none = [], []
    counts, samples, fps, by_variant = {}, [], {}, {}
    evaluations = 0
    for s, (rep, v, n) in results:
        violations += v
        none += n
        if not rep:
            continue
        evaluations += rep["evaluations"]
        b = by_variant.setdefault(s.variant, {"evaluations": 0, "stopped_at_time_limit": 0, "shards": 0})
        b["evaluations"] += rep["evaluations"]
        b["shards"] += 1
        b["stopped_at_time_limit"] += 1 if rep["stopped"] and not rep["violations"] else 0
        fps.setdefault("all", set()).update(rep["fps"])
        for k, x in rep["counts"].items():
            counts[k] = max(counts.get(k, 0), x) if k.endswith("_max") else counts.get(k, 0) + x
        if len(samples) < 6:
            samples += [f"{s.variant} seed {s.seed} {x}"[:500] for x in rep["samples"][:2] if len(x) > 12]
    # the probes of known defects
    listed = known_findings(prop)
    known = []
    for name, variant in PROBES.get(prop, []):
        how = probe(name, variant, exes[variant])
        if how is None:
            continue
        if name in listed:
            out(f"KNOWN-FINDING: property={prop} {name}: {listed[name]}")
            known.append(f"{name}: {how}")
        else:
            violations.append({"property": prop, "variant": variant, "seed": SEED, "tier": TIER, "case": f"known {name}", "error": how, "input": ""})

    rule, assumptions = RULES.get(prop, {}).get("rule", ""), RULES.get(prop, {}).get("assumptions", [])
    evidence = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(fps.get("all", ())), "rule": rule, "samples": samples[:8],
            "variants": by_variant, "observed": dict(sorted(counts.items())), "known_findings_seen": known, "build_s": round(built, 1),
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")

    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in violations[:5]:
            path = os.path.join(VERIF, "replays", f"{prop}-{v['variant']}-{v['seed']}-{str(v['case']).replace(' ', '_')}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
                f.write("\n")
            out(f"{prop} {v['variant']} case {v['case']}: {v['error'][:600]}")
            out(f"VIOLATION property={prop} replay={path}")
        return 1
    if none:
        for n in none[:5]:
            out(f"NO ANSWER: {n}")
        return 2
    if len(fps.get("all", ())) < 50:
        out(f"NO ANSWER: only {len(fps.get('all', ()))} distinct cases were observed")
        return 2
    missing = [k for k in RULES.get(prop, {}).get("must_observe", []) if not counts.get(k)]
    if missing:
        out(f"NO ANSWER: the monitors observed nothing of {', '.join(missing)}")
        return 2
    out(f"{prop}: held on {evaluations} executions, {len(fps['all'])} distinct, {time.time() - T0:.1f} s (build {built:.1f} s)")
    return 0


def replay(prop, path):
    with open(path) as f:
        v = json.load(f)
    exes = build_all([v["variant"]])
    if str(v["case"]).startswith("known "):
        how = probe(v["case"].split()[1], v["variant"], exes[v["variant"]])
        out(how or "the behaviour is right")
        if how:
            out(f"VIOLATION property={prop} replay={path}")
        return 1 if how else 0
    scratch = os.path.join(TARGET, f"run.{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    # races depend on the schedule: try several times
    for _ in range(20 if prop in THREADED else 1):
        s = Shard(prop, v["variant"], exes[v["variant"]], 0, 1, v["case"], v["case"] + 1, 600, v["seed"], v["tier"], scratch)
        (_, (rep, viol, none)), = run_shards([s])
        if viol:
            break
    os.rmdir(scratch)
    for x in viol:
        out(f"{prop} {x['variant']} case {x['case']}: {x['error']}\ninput: {x['input'][:4000]}")
        out(f"VIOLATION property={prop} replay={path}")
    for x in none:
        out(f"NO ANSWER: {x}")
    return 1 if viol else 2 if none else 0


def main():
    a = sys.argv[1:]
    try:
        if a == ["--build"]:
            build_all(list(VARIANTS))
            return 0
        if len(a) == 1 and a[0] in PLAN:
            return check(a[0])
        if len(a) == 3 and a[0] in PLAN and a[1] == "--replay":
            return replay(a[0], a[2])
    except NoAnswer as e:
        out(f"NO ANSWER: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        out(f"NO ANSWER: {e}")
        return 2
    sys.stderr.write(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
