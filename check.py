#!/usr/bin/env python3
"""Decides one property on /repo's current working tree by running the real code under monitors.

    python3 check.py ID [--tier quick|thorough] [--seed N]
    python3 check.py --replay FILE
    python3 check.py --setup

Exit 0: the property held on everything explored. Exit 1 and a line `VIOLATION property=<id>
replay=<path>`: it is broken. Exit 2: the check could not give an answer.
"""

import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
HOST = "x86_64-unknown-linux-gnu"

sys.path.insert(0, VERIF)
from meta import PROPS  # noqa: E402


class CheckError(Exception):
    """The check can't give an answer."""


class Found(Exception):
    """A violation seen outside the harness (by the compiler, say)."""

    def __init__(self, detail, replay):
        self.detail, self.replay = detail, replay


START = time.time()
DEADLINE = None
LOCK = threading.Lock()


def say(*args):
    with LOCK:
        print(*args, flush=True)


def env(**more):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO_BUILD", "CARGO_TARGET", "CARGO_PROFILE", "MIRI"))}
    for k in ("RUSTUP_HOME", "RUSTUP_TOOLCHAIN"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update({k: str(v) for k, v in more.items()})
    return e


def left():
    return max(1.0, DEADLINE - time.time())


STUCK = "stuck"
STUCK_SECS = 40


def asleep(pid):
    """The CPU time a process of ours has used, if all its threads are asleep; None if not."""
    total = 0
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/stat") as f:
                fields = f.read().rpartition(")")[2].split()
            if fields[0] != "S":
                return None
            total += int(fields[11]) + int(fields[12])
    except (OSError, ValueError, IndexError):
        return None
    return total / os.sysconf("SC_CLK_TCK")


def run(cmd, cwd=None, timeout=None, stuck=False, **more):
    """(return code, stdout, stderr). As the code: None if it was stopped by the time limit, and,
    with `stuck`, STUCK if all its threads slept for STUCK_SECS without using the CPU."""
    began = time.time()
    p = subprocess.Popen(
        cmd,
        cwd=cwd,
        env=env(**more),
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        start_new_session=True,
    )
    end = time.time() + min(timeout or 1e9, left())
    still, cpu = time.time(), -1.0
    while True:
        try:
            out, err = p.communicate(timeout=max(0.1, min(end - time.time(), 5 if stuck else 1e9)))
            code = p.returncode
            break
        except subprocess.TimeoutExpired:
            now = time.time()
            state = asleep(p.pid) if stuck else None
            if state is None or state > cpu + 0.1:
                still, cpu = now, state or 0.0
            if now < end and now - still < STUCK_SECS:
                continue
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            code = STUCK if now - still >= STUCK_SECS else None
            break
    if os.environ.get("VERIF_TIMES"):
        print(f"{began - START:6.1f} +{time.time() - began:6.1f} {' '.join(map(str, cmd))[:150]}", file=sys.stderr)
    return code, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


# ---------------------------------------------------------------------------------------------
# Building. Each check compiles the library from /repo's working tree.


def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", ".bin", "node_modules"))
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


REPO_HASH = repo_hash()
OURS = ["cubing_core", "cubing_macros", "cubing", "alg-cli", "vh", "gen_t02", "gen_t03"]


class Locked:
    """One build at a time in a target directory, and never with stale outputs of /repo's crates."""

    def __init__(self, target):
        self.target = os.path.join(TARGET, target)

    def __enter__(self):
        os.makedirs(self.target, exist_ok=True)
        self.f = open(os.path.join(self.target, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        stamp = os.path.join(self.target, ".repo-hash")
        try:
            old = open(stamp).read()
        except OSError:
            old = None
        if old != REPO_HASH:
            # Whatever the timestamps say, the sources are others now.
            for pat in OURS:
                name = pat.replace("-", "?")
                for depth in ("*", "*/*"):
                    for p in glob.glob(f"{self.target}/{depth}/.fingerprint/{name}-*"):
                        shutil.rmtree(p, ignore_errors=True)
                    for p in glob.glob(f"{self.target}/{depth}/incremental/{name}-*"):
                        shutil.rmtree(p, ignore_errors=True)
            with open(stamp, "w") as s:
                s.write(REPO_HASH)
        return self.target

    def __exit__(self, *_):
        self.f.close()


def cargo(args, cwd, **more):
    code, out, err = run(["cargo"] + args, cwd=cwd, timeout=1700, **more)
    if code != 0:
        raise CheckError(f"cargo {' '.join(args)} failed ({code}):\n{out[-1500:]}\n{err[-6000:]}")
    return out, err


def keep(path, name):
    """A copy that no other build replaces while it runs."""
    bin_dir = os.path.join(TARGET, "bin")
    os.makedirs(bin_dir, exist_ok=True)
    final = os.path.join(bin_dir, name)
    tmp = f"{final}.{os.getpid()}.{threading.get_ident()}"
    shutil.copy2(path, tmp)
    os.replace(tmp, final)
    return final


def features(groups, monalloc=True):
    names = (["monalloc"] if monalloc else []) + ["g_" + g for g in groups]
    return ["--no-default-features", "--features", ",".join(names)]


def build_vh(groups, profile):
    with Locked(profile) as target:
        cargo(
            ["build", "--offline", "--bin", "vh"] + (["--release"] if profile == "rel" else []) + features(groups),
            HARNESS,
            CARGO_TARGET_DIR=target,
        )
        return keep(
            os.path.join(target, "release" if profile == "rel" else "debug", "vh"),
            f"vh-{profile}-{'-'.join(groups)}",
        )


def build_sanitizer(groups, which):
    flags = "-Zsanitizer=" + which
    args = ["+nightly", "build", "--offline", "--bin", "vh", "--target", HOST]
    if which == "thread":
        args.append("-Zbuild-std")
    with Locked(which) as target:
        cargo(args + features(groups, False), HARNESS, CARGO_TARGET_DIR=target, RUSTFLAGS=flags)
        return keep(os.path.join(target, HOST, "debug", "vh"), f"vh-{which}-{'-'.join(groups)}")


def build_cli():
    out = {}
    for profile, args in (("dev", []), ("rel", ["--release"])):
        with Locked("cli") as target:
            cargo(
                ["build", "--offline", "--manifest-path", os.path.join(REPO, "alg_cli/Cargo.toml"), "--target-dir", target] + args,
                VERIF,
            )
            out[profile] = keep(os.path.join(target, "release" if profile == "rel" else "debug", "alg"), f"alg-{profile}")
    return "VH_CLI", out


def build_example():
    out = {}
    for profile, args in (("dev", ["--config", "profile.dev.opt-level=1"]), ("rel", ["--release"])):
        with Locked("cli") as target:
            cargo(
                ["build", "--offline", "--manifest-path", os.path.join(REPO, "cubing/Cargo.toml"), "--example", "f2lfast", "--target-dir", target] + args,
                VERIF,
            )
            out[profile] = keep(os.path.join(target, "release" if profile == "rel" else "debug", "examples/f2lfast"), f"f2lfast-{profile}")
    return "VH_EXAMPLE", out


PROGRAMS = {"cli": build_cli, "example": build_example}


# ---------------------------------------------------------------------------------------------
# Known findings: a committed file, read only.


def known_findings():
    out = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) probe=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def known_names(prop):
    return ",".join(name for p, name, _ in known_findings() if p == prop)


# ---------------------------------------------------------------------------------------------


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evals = 0
        self.distinct = set()
        self.extra_distinct = 0
        self.buckets = {}
        self.samples = []
        self.violations = []
        self.errors = []
        self.truncated = []
        self.notes = {}
        self.lock = threading.Lock()

    def bucket(self, k, v, prefix=""):
        k = prefix + k
        if "max:" in k:
            self.buckets[k] = max(self.buckets.get(k, 0), v)
        else:
            self.buckets[k] = self.buckets.get(k, 0) + v

    def add(self, r, distinct_file, where, prefix=""):
        with self.lock:
            self.evals += r["evals"]
            for k, v in r["buckets"].items():
                self.bucket(k, v, prefix)
            if len(self.samples) < 12:
                self.samples += r["samples"][:4]
            if r.get("frees_checked"):
                self.bucket("frees checked by the monitoring allocator", r["frees_checked"])
            for v in r["violations"]:
                self.violations.append(dict(v, **where))
            for e in r["harness_errors"]:
                self.errors.append(f"{where}: {e}")
            self.truncated += r["truncated"]
            if distinct_file and os.path.exists(distinct_file):
                with open(distinct_file, "rb") as f:
                    data = f.read()
                self.distinct.update(data[i : i + 8] for i in range(0, len(data), 8))

    def violation(self, detail, **where):
        with self.lock:
            self.violations.append(dict(where, detail=detail))


def box(path):
    """What the black box says about the case in flight: (stream, index, message)."""
    try:
        with open(path, "rb") as f:
            parts = f.read().decode("utf-8", "replace").strip().split("\t")
        return parts[0], int(parts[1]), parts[2].strip() if len(parts) > 2 else ""
    except (OSError, ValueError, IndexError):
        return "?", -1, ""


def vh_shard(rep, exe, profile, work, shard, shards, prop=None, scale=1.0, only_crashes=False, max_secs=None, extra_env=None, cpu_limit=None, tag=""):
    prop = prop or rep.prop
    name = f"{tag}{profile}-{prop}-{shard}"
    out, bb, log = (os.path.join(work, f"{name}.{x}") for x in ("json", "box", "log"))
    cmd = [
        exe, "run", prop, "--seed", str(rep.seed), "--tier", rep.tier, "--shard", f"{shard}/{shards}",
        "--out", out, "--blackbox", bb, "--scale", str(scale),
    ]  # fmt: skip
    if max_secs:
        cmd += ["--max-secs", str(int(max_secs))]
    if profile in ("dev", "rel"):
        cmd += ["--quiet", "2" if prop in ("A01", "A07") and shard % 2 else "1"]
    if cpu_limit:
        cmd += ["--cpu-limit", str(cpu_limit)]
    e = dict(extra_env or {})
    code, stdout, stderr = run(cmd, stuck="VH_CLI" not in e and "VH_EXAMPLE" not in e, **e)
    where = {"profile": profile, "workload": prop, "scale": scale}
    prefix = f"[{tag.rstrip('-')}] " if tag else ""
    if code == 0:
        with open(out) as f:
            r = json.load(f)
        if only_crashes:
            r["violations"] = []
        rep.add(r, out + ".distinct", where, prefix)
        return
    stream, index, msg = box(bb)
    where.update(stream=stream, index=index)
    if code == STUCK:
        rep.violation(f"does not finish: every thread waits for another one ({msg})", **where)
    elif code is None:
        rep.errors.append(f"{name}: stopped by the check's own time limit at {stream} {index}")
    elif code == -signal.SIGKILL:
        rep.errors.append(f"{name}: killed (out of memory?) at {stream} {index}")
    elif code in (2, 101):
        rep.errors.append(f"{name}: harness failed ({code}) at {stream} {index}: {stdout[-500:]} {stderr[-2000:]}")
    elif code == 96:
        rep.violation(msg or "the monitoring allocator found a fault", **where)
    elif code == 97:
        rep.violation(msg or "does not finish", **where)
    elif code < 0:
        try:
            s = signal.Signals(-code).name
        except ValueError:
            s = str(-code)
        rep.violation(f"the process died by {s} ({msg}) {stderr[-1500:]}", **where)
    else:
        # Sanitizers exit with a code of their own.
        m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer)[^\n]*(\n[^\n]*){0,25}", stderr)
        if m:
            rep.violation(m.group(0)[:3000], **where)
        else:
            rep.errors.append(f"{name}: ended with {code} at {stream} {index}: {stderr[-2000:]}")


def probe(rep, exes, name):
    """Runs a probe in a process of its own; (name of what happened, text) per profile."""
    out = {}
    for profile, exe in exes.items():
        code, stdout, _ = run([exe, "probe", name], timeout=120)
        if code == 2 or code is None:
            raise CheckError(f"probe {name} gave {code}")
        out[profile] = (code, stdout.strip())
        with rep.lock:
            rep.bucket(f"probe {name}", 1)
            rep.evals += 1
    return out


def known_or_violation(rep, probe_name, outcomes, is_bad, describe):
    bad = {p: o for p, o in outcomes.items() if is_bad(o)}
    if not bad:
        return
    for prop, name, text in known_findings():
        if prop == rep.prop and name == probe_name:
            say(f"KNOWN-FINDING: property={prop} {text}")
            rep.notes.setdefault("known_findings_seen", []).append(text)
            return
    for profile, (code, out) in bad.items():
        rep.violation(f"{describe}: exit code {code} {out}", profile=profile, probe=probe_name)


# ---------------------------------------------------------------------------------------------
# The kinds of checks


def jobs(fs):
    """Run functions in parallel; the first exception ends the check."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as pool:
        futures = [pool.submit(f) for f in fs]
        for f in futures:
            f.result()


def max_secs(rep):
    return 300 if rep.tier == "quick" else 900


def check_vh(rep, work, spec):
    groups = spec["groups"]
    exes = {}

    def build(profile):
        exes[profile] = build_vh(groups, profile)

    jobs([lambda p=p: build(p) for p in ("dev", "rel")])
    n = 4
    fs = []
    for profile in ("dev", "rel"):
        for i in range(n):
            fs.append(lambda p=profile, i=i: vh_shard(rep, exes[p], p, work, i, n, max_secs=max_secs(rep)))
    jobs(fs)
    for name in spec.get("probes", []):
        outcomes = probe(rep, exes, name)
        if name == "deepnest":
            known_or_violation(rep, name, outcomes, lambda o: o[0] != 0, "parsing deeply nested text ends the process")
        elif name == "deepchain":
            known_or_violation(rep, name, outcomes, lambda o: o[0] != 0, "a long chain of derived moves ends the process")
        elif name == "default_pattern":
            known_or_violation(rep, name, outcomes, lambda o: o[0] != 0, "default_pattern() panics")
        else:
            for profile, (code, out) in outcomes.items():
                if code != 0:
                    rep.violation(f"probe {name}: exit code {code} {out}", profile=profile, probe=name)
    return exes


def check_cli(rep, work, spec):
    built = {}

    def program():
        built["var"], built["program"] = PROGRAMS[spec["kind"]]()

    def vh():
        built["vh"] = build_vh(spec["groups"], "dev")

    jobs([program, vh])
    n = 4
    fs = []
    for profile in ("dev", "rel"):
        for i in range(n):
            fs.append(
                lambda p=profile, i=i: vh_shard(
                    rep, built["vh"], p, work, i, n, max_secs=max_secs(rep), extra_env={built["var"]: built["program"][p], "VH_KNOWN": known_names(rep.prop)}
                )
            )
    jobs(fs)
    # The workload only tolerates what VH_KNOWN lists, and counts it.
    for prop, name, text in known_findings():
        if prop == rep.prop and rep.buckets.get(f"known finding: {name}"):
            say(f"KNOWN-FINDING: property={prop} {text}")
            rep.notes.setdefault("known_findings_seen", []).append(text)


MIRI_FLAGS = "-Zmiri-disable-isolation"


def miri(rep, groups, prop, shards, scale, n, tag, **more):
    """`shards` processes out of a division into `n`; a different schedule seed for each."""
    base = ["+nightly", "miri", "run", "--offline", "--bin", "vh"] + features(groups, False) + ["--"]
    target = os.path.join(TARGET, "miri")
    with Locked("miri"):
        # The first run builds everything.
        code, out, err = run(
            ["cargo"] + base + ["probe", "nothing"], cwd=HARNESS, CARGO_TARGET_DIR=target, MIRIFLAGS=MIRI_FLAGS
        )
        if code != 2 or "no such probe" not in err:
            raise CheckError(f"building for Miri failed ({code}): {err[-4000:]}")

    def one(i):
        seed = rep.seed * 1000 + i
        cmd = ["cargo"] + base + [
            "run", prop, "--seed", str(rep.seed), "--tier", rep.tier, "--shard", f"{i}/{n}", "--scale", str(scale),
            "--max-secs", "90" if rep.tier == "quick" else "1200",
        ]  # fmt: skip
        flags = f"{MIRI_FLAGS} -Zmiri-seed={seed}"
        code, out, err = run(cmd, cwd=HARNESS, CARGO_TARGET_DIR=target, MIRIFLAGS=flags, **more)
        where = {"profile": "miri", "workload": prop, "shard": f"{i}/{n}", "scale": scale, "miri_seed": seed}
        lines = [l for l in out.splitlines() if l.startswith("{")]
        if code == 0 and lines:
            rep.add(json.loads(lines[-1]), None, where, f"[{tag}] ")
            with rep.lock:
                rep.bucket(f"[{tag}] executions", 1)
        elif code is None:
            # Only fewer executions seen, not an answer of another kind.
            with rep.lock:
                rep.truncated.append(f"{tag} {i}: stopped by the time limit")
        else:
            m = re.search(r"error: (Undefined Behavior|memory leaked|deadlock|[^\n]*data race)[^\n]*(\n[^\n]*){0,20}", err, re.I)
            if m:
                rep.violation("Miri: " + m.group(0)[:3000], **where)
            else:
                rep.errors.append(f"Miri {prop} {i}: ended with {code}: {out[-500:]} {err[-3000:]}")

    return [lambda i=i: one(i) for i in range(shards)]


def check_memory(rep, work, spec):
    quick = rep.tier == "quick"
    exes = {}

    def build(kind):
        if kind == "address":
            exes[kind] = build_sanitizer(["memory", "data"] if quick else ["memory", "data", "alg", "eval", "cube", "misc"], kind)
        else:
            exes[kind] = build_vh(["memory"], kind)

    miri_jobs = []

    def build_miri():
        # Out of so many shards a few: Miri is slow.
        miri_jobs.extend(
            miri(rep, ["memory", "data"], "K11", 6 if quick else 24, 0.006, 6 if quick else 24, "Miri")
        )
        for p in () if quick else ("K08", "K07", "K06"):
            miri_jobs.extend(miri(rep, ["memory", "data"], p, 4, 0.001, 4, f"Miri {p}"))

    jobs([lambda k=k: build(k) for k in ("dev", "rel", "address")] + [build_miri])
    asan_env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=98:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1"}
    fs = list(miri_jobs)
    n = 3
    for profile in ("dev", "rel"):
        for i in range(n):
            fs.append(lambda p=profile, i=i: vh_shard(rep, exes[p], p, work, i, n, max_secs=max_secs(rep)))
    for i in range(n):
        fs.append(
            lambda i=i: vh_shard(rep, exes["address"], "address", work, i, n, scale=0.5, max_secs=max_secs(rep), extra_env=asan_env, tag="ASan-")
        )
    others = ["K05", "K06", "K07", "K08", "K10"]
    if not quick:
        others += ["A01", "A02", "A03", "A05", "A06", "A07", "A08", "K01", "K02", "K03", "K04", "K09", "K13", "K14", "K16", "K17"]
    for p in others:
        fs.append(
            lambda p=p: vh_shard(
                rep, exes["address"], "address", work, 0, 1, prop=p, scale=(0.01 if p == "K05" else 0.04) if quick else 0.01, only_crashes=True,
                max_secs=max_secs(rep), extra_env=asan_env, tag="ASan-",
            )
        )  # fmt: skip
    jobs(fs)


def check_threads(rep, work, spec):
    quick = rep.tier == "quick"
    exes = {}
    miri_jobs = []

    def build(kind):
        if kind == "thread":
            exes[kind] = build_sanitizer(["memory"], kind)
        else:
            exes[kind] = build_vh(["memory"], kind)

    def build_miri():
        k = 6 if quick else 40
        miri_jobs.extend(miri(rep, ["memory"], "K12", k, 0.06 if quick else 0.02, k, "Miri"))

    jobs([lambda k=k: build(k) for k in ("dev", "rel", "thread")] + [build_miri])
    tsan_env = {"TSAN_OPTIONS": "exitcode=98:halt_on_error=1:second_deadlock_stack=1"}
    fs = list(miri_jobs)
    # Many processes: the first use of a shipped puzzle happens once in each.
    n = 6 if quick else 24
    for i in range(n):
        fs.append(
            lambda i=i: vh_shard(rep, exes["thread"], "thread", work, i, n, scale=1.0 if quick else 0.5, max_secs=max_secs(rep), extra_env=tsan_env, tag="TSan-")
        )
    for profile in ("dev", "rel"):
        for i in range(3):
            fs.append(lambda p=profile, i=i: vh_shard(rep, exes[p], p, work, i, 3, max_secs=max_secs(rep)))
        for k in range(20 if quick else 200):
            fs.append(lambda p=profile, k=k: first_use(rep, exes[p], p, work, k))
    jobs(fs)


def first_use(rep, exe, profile, work, k):
    out = os.path.join(work, f"first-{profile}-{k}.json")
    bb = os.path.join(work, f"first-{profile}-{k}.box")
    code, _, err = run(
        [exe, "run", "K12", "--seed", str(rep.seed * 1000 + k), "--only", "first use", "--out", out, "--blackbox", bb, "--quiet", "1"],
        stuck=True,
    )
    where = {"profile": profile, "workload": "K12", "stream": "first use", "index": 0, "seed": rep.seed * 1000 + k}
    if code == 0:
        with open(out) as f:
            rep.add(json.load(f), None, where)
    elif code == STUCK:
        rep.violation("racing first uses never finish: every thread waits for another one", **where)
    elif code is not None and (code < 0 or code in (96, 97)) and code != -signal.SIGKILL:
        rep.violation(f"racing first uses ended with {code} {box(bb)[2]}", **where)
    else:
        rep.errors.append(f"first use {k}: {code} {err[-500:]}")


def generated(rep, spec):
    exe = build_vh(["alg", "gen"], "dev")
    d = os.path.join(TARGET, "gen", f"{rep.prop}-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    code, out, err = run(
        [exe, "gen", rep.prop, "--seed", str(rep.seed), "--tier", rep.tier, "--dir", d, "--harness", HARNESS], timeout=300
    )
    if code != 0:
        raise CheckError(f"generating failed ({code}): {err[-2000:]}")
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "uses.json")) as f:
        return d, json.load(f)


def diagnostics(d, args, file_name):
    """Compiles; the lines of the file that errors point at, and whether it compiled."""
    with Locked("dev") as target:
        code, out, err = run(
            ["cargo"] + args + ["--offline", "--message-format=json"], cwd=d, CARGO_TARGET_DIR=target, timeout=1700
        )
    if code is None:
        raise CheckError("the compiler was stopped by the time limit")
    lines, others = {}, []
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        hit = False
        for s in m["message"]["spans"]:
            at = s
            while at:
                if at["file_name"].endswith(file_name) and "/repo/" not in at["file_name"]:
                    for x in range(at["line_start"], at["line_end"] + 1):
                        lines.setdefault(x, m["message"]["message"])
                        hit = True
                at = (at.get("expansion") or {}).get("span")
        if not hit and m["message"]["spans"]:
            others.append(m["message"]["message"])
    return code == 0, lines, others, err


def check_macros(rep, work, spec):
    d, uses = generated(rep, spec)
    try:
        ok, lines, others, err = diagnostics(d, ["build", "--bin", "gen_t02"], "src/main.rs")
        valid, refused = uses["valid"], uses["refused"]
        rep.evals += len(valid) + len(refused)
        for u in valid + refused:
            rep.distinct.add(hashlib.sha256((u["kind"] + u["text"]).encode("utf-8", "surrogatepass")).digest()[:8])
        rep.samples += [{"kind": u["kind"], "text": u["text"][:200]} for u in valid[:3] + refused[:3]]
        if not ok:
            hit = [u for u in valid if any(x in lines for x in range(u["from"], u["to"] + 1))]
            if not hit:
                raise CheckError(f"the generated crate does not compile: {others[:3]} {err[-3000:]}")
            for u in hit[:3]:
                msg = next(lines[x] for x in range(u["from"], u["to"] + 1) if x in lines)
                name = "parse_alg" if u["kind"] == "a" else "parse_move"
                rep.violation(f"{name}!({json.dumps(u['text'])}) does not compile: {msg}", text=u["text"])
        else:
            exe = os.path.join(TARGET, "dev", "debug", "gen_t02")
            exe = keep(exe, f"gen_t02-{os.getpid()}")
            code, out, err = run([exe], timeout=300)
            os.remove(exe)
            bad = [l[4:] for l in out.splitlines() if l.startswith("BAD ")]
            if code is not None and code < 0:
                rep.violation(f"the program made of macro invocations died by signal {-code}")
            elif "DONE" not in out:
                raise CheckError(f"the generated program failed ({code}): {err[-2000:]}")
            for b in bad[:3]:
                rep.violation(b)
            rep.bucket("expansions whose value was compared", len(valid))
        ok, lines, others, err = diagnostics(d, ["check", "--bin", "refused"], "src/bin/refused.rs")
        if ok:
            rep.violation(f"none of {len(refused)} invalid invocations is a compile-time error")
        if not ok and not lines:
            raise CheckError(f"the crate of invalid invocations fails for another reason: {others[:3]} {err[-3000:]}")
        if not ok:
            accepted = [u for u in refused if not any(x in lines for x in range(u["from"], u["to"] + 1))]
            for u in accepted[:3]:
                rep.violation(f"{u['text']} is no compile-time error", text=u["text"])
            panicked = [u for u in refused if any("panicked" in lines.get(x, "") for x in range(u["from"], u["to"] + 1))]
            for u in panicked[:3]:
                rep.violation(f"the macro panics on {u['text']}", text=u["text"])
            rep.bucket("invocations refused by the compiler", len(refused) - len(accepted))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_loaders(rep, work, spec):
    d, uses = generated(rep, spec)
    try:
        for profile, args in (("dev", []), ("rel", ["--release"])):
            with Locked(profile) as target:
                code, out, err = run(
                    ["cargo", "build", "--offline", "--bin", "gen_t03"] + args, cwd=d, CARGO_TARGET_DIR=target, timeout=1700
                )
                if code != 0:
                    raise CheckError(f"the generated crate does not compile: {err[-4000:]}")
                exe = keep(
                    os.path.join(target, "release" if profile == "rel" else "debug", "gen_t03"), f"gen_t03-{profile}-{os.getpid()}"
                )
            n = 60 if rep.tier == "quick" else 1500
            if rep.samples == []:
                with open(os.path.join(d, "src/main.rs")) as f:
                    rep.samples += [l.strip() for l in f if "_from_json_file!(" in l][:4]

            def one(k):
                if rep.violations:
                    return
                code, out, err = run([exe, str(rep.seed * 100_000 + k)], timeout=300, stuck=True)
                where = {"profile": profile, "run": k}
                if code == STUCK:
                    return rep.violation("racing first uses never finish: every thread waits for another one", **where)
                if code is not None and code < 0 and code != -signal.SIGKILL:
                    return rep.violation(f"racing first uses died by signal {-code}", **where)
                bad = [l[4:] for l in out.splitlines() if l.startswith("BAD ")]
                for b in bad[:2]:
                    rep.violation(b, **where)
                done = re.search(r"DONE (\d+)", out)
                if not done:
                    if code == 101 and not bad:
                        return rep.violation(f"a first use panicked: {err[-500:]}", **where)
                    rep.errors.append(f"run {k}: {code} {err[-500:]}")
                    return
                first = re.search(r"FIRST (\d*)", out).group(1)
                with rep.lock:
                    rep.evals += 1
                    rep.bucket("uses of embedded values", int(done.group(1)))
                    rep.bucket("values initialized under a race", len(first))
                    rep.distinct.add(hashlib.sha256(f"{profile}{first}".encode()).digest()[:8])

            jobs([lambda k=k: one(k) for k in range(n)])
            os.remove(exe)
        rep.notes["loaders"] = uses["loaders"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


KINDS = {
    "vh": check_vh,
    "cli": check_cli,
    "example": check_cli,
    "memory": check_memory,
    "threads": check_threads,
    "macros": check_macros,
    "loaders": check_loaders,
}


def finish(rep, spec):
    wall = time.time() - START
    coverage = {
        "evaluations": rep.evals,
        "distinct_nontrivial": len(rep.distinct),
        "rule": spec["rule"],
        "samples": rep.samples[:12],
        "observed": dict(sorted(rep.buckets.items())),
    }
    if rep.truncated:
        coverage["stopped_by_the_time_limit"] = rep.truncated
    coverage.update(rep.notes)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": rep.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len(rep.violations),
    }
    path = os.path.join(VERIF, "evidence", f"{rep.prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    os.replace(path + ".tmp", path)
    say(f"{rep.prop}: {rep.evals} executions, {len(rep.distinct)} distinct, {wall:.0f} s")
    if rep.violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, v in enumerate(rep.violations[:3]):
            replay = os.path.join(VERIF, "replays", f"{rep.prop}-{i}.json")
            body = dict(v, property=rep.prop, tier=rep.tier)
            body.setdefault("seed", rep.seed)
            body["how"] = f"python3 check.py --replay {replay}"
            with open(replay, "w") as f:
                json.dump(body, f, indent=1, ensure_ascii=True)
            say("  " + json.dumps(v.get("detail", ""), ensure_ascii=True)[:1500])
            say(f"VIOLATION property={rep.prop} replay={replay}")
        return 1
    if rep.errors:
        say("the check could not give an answer:")
        for e in rep.errors[:5]:
            say("  " + e)
        return 2
    if rep.evals == 0 or not rep.distinct:
        say("the check observed nothing")
        return 2
    for need in spec.get("must_see", []):
        if not any(need in k and v for k, v in rep.buckets.items()):
            say(f"the check never observed {need!r}")
            return 2
    return 0


def replay(path):
    global DEADLINE
    DEADLINE = time.time() + 3600
    with open(path) as f:
        r = json.load(f)
    spec = PROPS[r["property"]]
    say(json.dumps(r, indent=1))
    if "stream" not in r or r.get("profile") not in ("dev", "rel", "address", "thread"):
        say("this violation is reproduced by the check itself (same seed, same tier)")
        return main(r["property"], r["tier"], r["seed"])
    profile = r["profile"]
    workload = r.get("workload", r["property"])
    groups = PROPS[workload]["groups"]
    e = {}
    if spec["kind"] in PROGRAMS:
        var, programs = PROGRAMS[spec["kind"]]()
        e[var] = programs[profile]
        e["VH_KNOWN"] = known_names(r["property"])
        exe = build_vh(groups, "dev")
    elif profile in ("dev", "rel"):
        exe = build_vh(groups, profile)
    else:
        exe = build_sanitizer(groups, profile)
    code, out, err = run(
        [exe, "replay", workload, r["stream"], str(r["index"]), "--seed", str(r["seed"]), "--tier", r["tier"]], **e
    )
    say(out[-6000:])
    say(err[-3000:])
    say(f"exit code {code}")
    return 0 if code == 0 else 1


def main(prop, tier, seed):
    global DEADLINE
    spec = PROPS[prop]
    DEADLINE = START + (840 if tier == "quick" else 3 * 3600)
    work = os.path.join(TARGET, "work", f"{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep = Report(prop, tier, seed)
    try:
        try:
            KINDS[spec["kind"]](rep, work, spec)
        except CheckError as e:
            rep.errors.insert(0, str(e))
        return finish(rep, spec)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    """Only sees that the tools are there: every check builds for itself."""
    global DEADLINE
    DEADLINE = time.time() + 1700
    jobs([lambda p=p: build_vh(["alg"], p) for p in ("dev", "rel")])
    code, out, err = run(["cargo", "+nightly", "miri", "setup", "--offline"], cwd=HARNESS, timeout=600)
    if code != 0:
        code, out, err = run(["cargo", "+nightly", "miri", "setup"], cwd=HARNESS, timeout=600)
    if code != 0:
        say(err[-2000:])
        return 1
    say("ready")
    return 0


if __name__ == "__main__":
    args = sys.argv[1:]

    def opt(name, default):
        return args[args.index(name) + 1] if name in args else default

    if args[:1] == ["--replay"]:
        sys.exit(replay(args[1]))
    if args[:1] == ["--setup"]:
        try:
            sys.exit(setup())
        except CheckError as e:
            say(e)
            sys.exit(2)
    if not args or args[0] not in PROPS:
        print(__doc__)
        sys.exit(2)
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1"))
    sys.exit(main(args[0], tier, seed))
