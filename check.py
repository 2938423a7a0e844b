#!/usr/bin/env python3
"""Decides one property: `check.py P07` builds the property's monitors from
/repo's working tree, runs them and judges what they observed.

Exit 0: quiet. Exit 1, with a VIOLATION line: the property is broken.
Exit 2: no verdict (build failure, time-out, nothing observed).

`check.py --replay FILE` runs the case a replay file describes once more.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plans  # noqa: E402

HARNESS = os.path.join(HERE, "harness")
SERDE = os.path.join(HERE, "serde_harness")
WORK = os.path.join(HERE, "target")
GB = 1 << 30
T0 = time.time()


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class NoVerdict(Exception):
    pass


def env_for(stage):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    # Seconds without progress until a block is named as stuck: the interpreter
    # and the sanitizers are slow, and a hang shows in the native stages first.
    if stage.get("budget"):
        e["NIMON_BUDGET_S"] = str(int(stage["budget"]))
    e["NIMON_STUCK_S"] = {"native": "60", "miri": "600"}.get(stage["kind"], "240")
    if stage["kind"] == "miri":
        e["MIRIFLAGS"] = " ".join(["-Zmiri-disable-isolation"] + stage.get("miriflags", []))
    if stage["kind"] == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address"
        e["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    if stage["kind"] == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77"
    return e


def crate_dir(stage):
    return SERDE if stage.get("crate") == "serde" else HARNESS


def target_dir(stage):
    return os.path.join(WORK, stage.get("crate", "main") + "-" + stage["kind"] + "-" + stage.get("profile", ""))


def build(stage):
    """Starts the build; returns the process."""
    b = stage["bin"]
    td = target_dir(stage)
    k = stage["kind"]
    if k == "miri":
        # Builds (the interpreter's standard library too) and says what it would run.
        return subprocess.Popen(argv(stage, ["--nothing"]), cwd=crate_dir(stage), env=env_for(stage), stdin=subprocess.DEVNULL,
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    cmd = ["cargo"]
    if k in ("asan", "tsan"):
        cmd += ["+nightly"]
    cmd += ["build", "--offline", "--quiet", "--bin", b, "--target-dir", td, "--profile", stage["profile"]]
    if k in ("asan", "tsan"):
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
    if k == "tsan":
        cmd += ["-Zbuild-std"]
    return subprocess.Popen(cmd, cwd=crate_dir(stage), env=env_for(stage), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def binary(stage):
    p = stage["profile"]
    sub = ["x86_64-unknown-linux-gnu"] if stage["kind"] in ("asan", "tsan") else []
    return os.path.join(target_dir(stage), *sub, p, stage["bin"])


def argv(stage, extra):
    if stage["kind"] == "miri":
        return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", stage["bin"],
                "--target-dir", target_dir(stage), "--"] + extra
    return [binary(stage)] + extra


def limits(stage, cpu=None):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if stage["kind"] == "native":
            resource.setrlimit(resource.RLIMIT_AS, (8 * GB, 8 * GB))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


REPORTS = [
    (re.compile(r"ERROR: AddressSanitizer: ([^\n]*)"), "AddressSanitizer"),
    (re.compile(r"WARNING: ThreadSanitizer: ([^\n]*)"), "ThreadSanitizer"),
    (re.compile(r"error: Undefined Behavior: ([^\n]*)"), "Miri undefined behaviour"),
    (re.compile(r"error: (memory leaked: [^\n]*)"), "Miri"),
    (re.compile(r"error: (the evaluated program deadlocked[^\n]*)"), "Miri"),
    (re.compile(r"error: (the program aborted execution[^\n]*)"), "Miri"),
    (re.compile(r"error: (abnormal termination: [^\n]*)"), "Miri"),
]


def sanitizer_report(out):
    for r, who in REPORTS:
        m = r.search(out)
        if m:
            return f"{who}: {m.group(1)}"
    return None


def replay_file(prop, stage, seed, tier, only, what, detail):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, re.sub(r"[^A-Za-z0-9._-]", "_", f"{prop}-{stage['name']}-{only}") + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "stage": stage, "seed": seed, "tier": tier, "only": only, "what": what,
                   "detail": detail, "reproduce": f"python3 check.py --replay {path}"}, f, indent=1)
    return path


def start(stage, extra, cpu=None):
    """Starts one process of a stage, its output going to a file."""
    out = tempfile.TemporaryFile("w+", errors="replace")
    p = subprocess.Popen(argv(stage, extra), cwd=crate_dir(stage), env=env_for(stage), preexec_fn=limits(stage, cpu),
                         stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT, text=True)
    return p, out


def finish(po, until):
    p, out = po
    rc = None
    try:
        rc = p.wait(timeout=max(1, until - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    out.seek(0)
    return rc, out.read()


def run(stage, extra, wall, cpu=None):
    return finish(start(stage, extra, cpu), time.time() + wall)


def merge(a, r):
    if a is None:
        return r
    a["evaluations"] += r["evaluations"]
    a["distinct"] += r["distinct"]
    a["samples"] += r["samples"]
    merge_events(a["events"], r["events"])
    for k, v in r["suites"].items():
        e = a["suites"].setdefault(k, {"evaluations": 0, "blocks": 0})
        for x in e:
            e[x] += v[x]
    return a


def judge(prop, stage, seed, tier, budget):
    """Runs one stage. Returns (report, violation): one of them None.

    A stage may be split into shards, which run at once and see different
    blocks of the workload."""
    n = stage.get("shards", 1)
    until = time.time() + budget
    base = ["--prop", prop, "--seed", str(seed), "--tier", tier] + stage.get("args", [])
    if stage.get("suites"):
        base += ["--suites", stage["suites"]]
    runs = []
    for i in range(n):
        td = os.path.join(WORK, "run", f"{prop}-{stage['name']}-{i}")
        shutil.rmtree(td, ignore_errors=True)
        os.makedirs(td)
        args = base + ["--threads", str(stage.get("threads", 8)), "--out", os.path.join(td, "out.json"), "--status", os.path.join(td, "status")]
        if n > 1:
            args += ["--shard", f"{i}/{n}"]
        runs.append((td, start(stage, args)))
    total = None
    bad = None
    for td, po in runs:
        if bad:
            try:
                os.killpg(po[0].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            po[0].wait()
            continue
        rc, out = finish(po, until)
        r, v = verdict(stage, td, rc, out, base)
        if v:
            bad = v
        else:
            total = merge(total, r)
    return (None, bad) if bad else (total, None)


def verdict(stage, td, rc, out, base):
    outf, trace = os.path.join(td, "out.json"), os.path.join(td, "trace")
    rep = sanitizer_report(out)
    blocks = []
    for n in sorted(os.listdir(td)):
        if n.startswith("status."):
            blocks.append(open(os.path.join(td, n)).read())
    if rep:
        return None, dict(only=blocks[0] if blocks else "run", what=rep, detail=out[-6000:])
    if rc == 0 and os.path.exists(outf):
        return json.load(open(outf)), None
    if rc == 10 and os.path.exists(outf):
        v = json.load(open(outf))["violations"][0]
        return None, dict(only=f"{v['suite']}:{v['block']}:{v['case']}", what=v["msg"], detail=v["desc"])
    if stage["kind"] != "native":
        raise NoVerdict(f"{stage['name']}: ended with {rc}\n{out[-3000:]}")
    # The process died or hung. Each block in progress is run again alone, with
    # the case in hand on disk: only what happens again is a violation.
    m = re.search(r"^STUCK (\S+)", out, re.M)
    if m:
        blocks = [m.group(1)]
    log(f"{stage['name']}: ended with {rc}; re-running {blocks}\n{out[-1500:]}")
    for b in blocks:
        if os.path.exists(outf):
            os.remove(outf)
        rc2, out2 = run(dict(stage, budget=None), base + ["--threads", "1", "--out", outf, "--only", b, "--trace", trace], max(70, min(240, T0 + 860 - time.time())))
        if rc2 == 10 and os.path.exists(outf):
            v = json.load(open(outf))["violations"][0]
            return None, dict(only=f"{v['suite']}:{v['block']}:{v['case']}", what=v["msg"], detail=v["desc"])
        case = open(trace).read() if os.path.exists(trace) else ""
        if not case:
            continue
        num, _, desc = case.partition(" ")
        if rc2 is not None and rc2 < 0 and -rc2 != signal.SIGKILL:
            return None, dict(only=f"{b}:{num}", what=f"the process is ended by {signal.Signals(-rc2).name}: {out2.strip()[-300:]}", detail=desc)
        if rc2 == 11:
            return None, dict(only=f"{b}:{num}", what="the operation does not finish: one step used over a minute of processor time (steps normally take well under a second)", detail=desc)
    raise NoVerdict(f"{stage['name']}: ended with {rc}, which did not recur\n{out[-3000:]}")


def findings(prop):
    """Entries of the known-findings file: only repaired ones are expected."""
    known = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        if line.startswith("known: "):
            m = re.match(r"known: property=(\S+) signature=(.*?) :: (.*)$", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def merge_events(a, b):
    for k, v in b.items():
        a[k] = max(a.get(k, 0), v) if k.startswith("max ") else a.get(k, 0) + v
    return a


def check(prop):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) & 0x7FFFFFFF
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    plan = plans.PLANS[prop]
    stages = [dict(s, bin=s.get("bin", prop.lower())) for s in plan["stages"] if tier == "thorough" or not s.get("thorough_only")]
    builds = [(s, build(s)) for s in stages]
    for s, b in builds:
        if b is None:
            continue
        out, _ = b.communicate()
        if b.returncode != 0:
            print(out)
            raise NoVerdict(f"build of {s['name']} failed")
    log("built", ", ".join(s["name"] for s in stages))
    wall = 800 if tier == "quick" else 6 * 3600
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": plan["rule"], "samples": [], "stages": {}, "events_observed": {}}
    violation = None
    try:
        for i, s in enumerate(stages):
            # Each stage draws its own cases.
            sseed = seed * 16 + i
            left = wall - (time.time() - T0)
            if left < 5:
                raise NoVerdict("out of time")
            # No case is begun once a stage's share of the time is used up.
            share = (left - 60) * (0.6 if i + 1 < len(stages) else 1)
            r, v = judge(prop, dict(s, budget=max(5, share)), sseed, tier, left)
            if v:
                violation = (s, sseed, v)
                break
            for e in s.get("must", plan.get("must_observe", [])):
                if not s.get("partial") and not r["events"].get(e):
                    raise NoVerdict(f"{s['name']}: no '{e}' observed")
            if r["evaluations"] == 0:
                raise NoVerdict(f"{s['name']}: nothing observed")
            cov["evaluations"] += r["evaluations"]
            cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], r["distinct"])
            cov["samples"] += r["samples"][:6]
            merge_events(cov["events_observed"], r["events"])
            cov["stages"][s["name"]] = {"how": s["how"], "seed": sseed, "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct"], "suites": r["suites"]}
            log(f"{s['name']}: quiet on {r['evaluations']} cases, {r['distinct']} distinct non-trivial")
    finally:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": plan.get("assumptions", []) + plans.ASSUMPTIONS,
              "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if violation:
        s, sseed, v = violation
        text = v["what"] + " || " + v["detail"]
        for sig, what in findings(prop):
            if sig in text:
                print(f"KNOWN-FINDING: property={prop} {what}")
                return 0
        path = replay_file(prop, s, sseed, tier, v["only"], v["what"], v["detail"])
        print(f"{prop} is violated in stage {s['name']}, case {v['only']}:\n  {v['what'][:3000]}\n  case: {v['detail'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    log(f"{prop} held on everything observed")
    return 0


def replay(path):
    r = json.load(open(path))
    s = r["stage"]
    b = build(s)
    if b is not None:
        out, _ = b.communicate()
        if b.returncode:
            print(out)
            return 2
    extra = ["--prop", r["property"], "--seed", str(r["seed"]), "--tier", r["tier"]] + s.get("args", [])
    if s.get("suites"):
        extra += ["--suites", s["suites"]]
    if r["only"].count(":") == 2:
        extra += ["--only", r["only"], "--threads", "1"]
    rc, out = run(s, extra, 600, cpu=75)
    print(out)
    print("exit", rc)
    return 0 if rc == 0 else 1


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    try:
        return check(sys.argv[1])
    except NoVerdict as e:
        print(f"no verdict: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
