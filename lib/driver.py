"""Builds monitors from /repo's working tree, runs them in shards, and turns what they observed
into a verdict and an evidence file."""
import array
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
TRIPLE = "x86_64-unknown-linux-gnu"


class Trouble(Exception):
    """The check could not give an answer (exit 2)."""


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or {}


# mode -> (toolchain, cargo arguments, extra environment, directory of the binaries)
MODES = {
    "debug": ("", [], {}, "debug"),
    "release": ("", ["--release"], {}, "release"),
    "opt": ("", ["--profile", "opt"], {}, "opt"),
    "asan": ("+nightly", ["--release", "--target", TRIPLE], {"RUSTFLAGS": "-Zsanitizer=address"}, TRIPLE + "/release"),
    "asan-debug": ("+nightly", ["--target", TRIPLE], {"RUSTFLAGS": "-Zsanitizer=address"}, TRIPLE + "/debug"),
    # these two need the standard library instrumented as well: it is built from its sources
    "tsan": ("+nightly", ["--release", "-Zbuild-std", "--target", TRIPLE], {"RUSTFLAGS": "-Zsanitizer=thread"}, TRIPLE + "/release"),
    "msan": ("+nightly", ["--release", "-Zbuild-std", "--target", TRIPLE],
             {"RUSTFLAGS": "-Zsanitizer=memory -Zsanitizer-memory-track-origins"}, TRIPLE + "/release"),
    "miri": ("+nightly", [], {}, ""),
    "miri-release": ("+nightly", ["--release"], {}, ""),
}
# One target directory per kind of code, so that builds of different kinds can run side by side
TDIR = {"asan-debug": "asan", "miri-release": "miri"}


def env_for(mode):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(MODES[mode][2])
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, TDIR.get(mode, mode))
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    if mode.startswith("miri"):
        # aliasing: tree borrows, since smallvec 0.6 breaks the stricter stacked borrows by itself
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks"
    if mode.startswith("asan"):
        e["EVMON_NO_SEGV"] = "1"
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77"
    if mode == "msan":
        e["EVMON_NO_SEGV"] = "1"
        e["MSAN_OPTIONS"] = "exitcode=78:allocator_may_return_null=1"
    if mode == "tsan":
        e["EVMON_NO_SEGV"] = "1"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    return e


def build(mode, bin_, features=(), manifest=None):
    """Build one monitor; returns the command prefix that runs it."""
    manifest = manifest or os.path.join(VERIF, "harness", "Cargo.toml")
    tc, args, _, sub = MODES[mode]
    env = env_for(mode)
    if mode.startswith("miri"):
        # building happens in the first run; -V style dry run keeps shards from racing
        cmd = ["cargo"] + ([tc] if tc else []) + ["miri", "run", "-q", "--offline", "--manifest-path", manifest, "--bin", bin_] + args
        if features:
            cmd += ["--features", ",".join(features)]
        p = subprocess.run(cmd + ["--", "--noop"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise Trouble("cannot build %s under miri:\n%s" % (bin_, p.stdout[-3000:]))
        return cmd + ["--"], env
    cmd = ["cargo"] + ([tc] if tc else []) + ["build", "-q", "--offline", "--manifest-path", manifest, "--bin", bin_] + args
    if features:
        cmd += ["--features", ",".join(features)]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise Trouble("cannot build %s (%s):\n%s" % (bin_, mode, p.stdout[-6000:]))
    return [os.path.join(env["CARGO_TARGET_DIR"], sub, bin_)], env


SIG = {6: "SIGABRT", 4: "SIGILL", 11: "SIGSEGV", 7: "SIGBUS", 101: "uncaught panic"}


class Part:
    """One monitor workload: a binary, a mode, arguments and a budget."""

    def __init__(self, name, mode, bin_, prop, count, ms, shards=4, features=(), extra=(), tiny=False, sub=0, threads=False, alone=False):
        self.threads = threads
        self.alone = alone  # runs when no other part does
        self.name, self.mode, self.bin, self.prop = name, mode, bin_, prop
        self.count, self.ms, self.shards = count, ms, shards
        self.features, self.extra, self.tiny, self.sub = tuple(features), list(extra), tiny, sub


class Agg:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.distinct_extra = 0
        self.counts = {}
        self.samples = []
        self.parts = {}
        self.foreign = []

    def add_counts(self, c):
        for k, v in c.items():
            self.counts[k] = self.counts.get(k, 0) + v


def last_json(out, tag):
    r = None
    for line in out.splitlines():
        if line.startswith(tag + " "):
            try:
                r = json.loads(line[len(tag) + 1 :])
            except ValueError:
                pass
    return r


def run_shard(cmd, env, part, seed, shard, deadline_ms):
    """Runs one shard to its end, going on after crashes that are not this property's business.
    Returns (done list, violation or None, foreign list, hash files)."""
    os.makedirs(WORK, exist_ok=True)
    start = 0
    dones, foreign, files = [], [], []
    if part.mode.startswith("miri") and part.threads:
        # each shard under its own schedule
        env = dict(env, MIRIFLAGS=env["MIRIFLAGS"] + " -Zmiri-seed=%d -Zmiri-preemption-rate=0.%02d" % (seed * 100 + shard, 3 + 9 * (shard % 4)))
    t0 = time.time()
    for attempt in range(12):
        left = deadline_ms - int((time.time() - t0) * 1000)
        if attempt and left < 300:
            break
        hf = os.path.join(WORK, "%s-%s-%s-%d-%d.hash" % (part.prop, part.name.replace("/", "_").replace(" ", "_"), part.mode, shard, attempt))
        args = ["--prop", part.prop, "--seed", str(seed), "--start", str(start), "--count", str(part.count),
                "--shard", str(shard), "--shards", str(part.shards), "--max-ms", str(max(left, 300)), "--hashes", hf]
        args += part.extra + (["--tiny"] if part.tiny else [])
        hard = left / 1000.0 + 120
        try:
            p = subprocess.run(cmd + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=hard)
        except subprocess.TimeoutExpired:
            return dones, None, foreign + [{"why": "no end within %d s" % hard}], files
        out, err = p.stdout, p.stderr
        rerun = {"mode": part.mode, "args": args, "cwd": VERIF}
        v = last_json(out, "@@VIOL")
        if v is not None:
            v["rerun"] = rerun
            return dones, v, foreign, files
        marks = ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "WARNING: MemorySanitizer", "error: Undefined Behavior")
        if part.mode.startswith("miri"):
            # no signal handler there to report an abort
            marks += ("unsafe precondition(s) violated", "error: abnormal termination")
        at = [err.find(x) for x in marks if x in err]
        if at:
            i = min(at)
            first = err[i:].splitlines()[0]
            return dones, {"what": first, "sanitizer": err[i : i + 6000], "rerun": rerun, "case": None, "trace": []}, foreign, files
        if p.returncode == 0:
            d = last_json(out, "@@DONE")
            if d is None:
                raise Trouble("%s ended without a verdict:\n%s\n%s" % (part.name, out[-1500:], err[-1500:]))
            dones.append(d)
            files.append(hf)
            break
        ev = None
        for tag in ("@@CRASH", "@@MEMCAP", "@@HANG"):
            j = last_json(out, tag)
            if j is not None:
                ev = (tag, j)
        if ev is None:
            if p.returncode < 0 and -p.returncode in (signal.SIGKILL,):
                foreign.append({"why": "killed"})
                break
            raise Trouble("%s: exit %s without a verdict\n%s\n%s" % (part.name, p.returncode, out[-1500:], err[-2500:]))
        tag, j = ev
        if tag == "@@CRASH":
            what = "the process died with %s" % SIG.get(j["x"], j["x"])
        elif tag == "@@MEMCAP":
            what = "a call asked for more than the memory limit (%d bytes)" % j["x"]
        else:
            what = "one step made no progress for %d seconds" % j["x"]
        tail = [x for x in err.splitlines() if x.strip()][-6:]
        info = {"what": "%s in case %d, step %d: %s" % (what, j["case"], j["step"], " | ".join(tail)[:600]), "case": j["case"], "rerun": rerun, "trace": []}
        mine = j["scope"] == 1 and (tag != "@@MEMCAP" or part.prop in ("C09", "C10", "C26", "C21"))
        if mine:
            try:
                q = subprocess.run(cmd + args + ["--case", str(j["case"]), "--trace"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
                info["trace"] = [x.strip() for x in q.stderr.splitlines()][-80:]
            except subprocess.TimeoutExpired:
                pass
            return dones, info, foreign, files
        foreign.append({"why": info["what"]})
        start = j["case"] + 1
    return dones, None, foreign, files


def collect(agg, p, dones, v, foreign, files):
    """takes up what one shard reported; returns (part, violation) or None"""
    rec = agg.parts.setdefault("%s (%s)" % (p.name, p.mode), {"evaluations": 0, "shards": 0})
    rec["shards"] += 1
    for d in dones:
        rec["evaluations"] += d["evaluations"]
        agg.evaluations += d["evaluations"]
        agg.add_counts(d["counts"])
        if len(agg.samples) < 6:
            agg.samples += d["samples"][:1]
    for f in files:
        if os.path.exists(f):
            a = array.array("Q")
            with open(f, "rb") as fh:
                a.frombytes(fh.read())
            agg.distinct.update(a)
            os.remove(f)
    agg.foreign += foreign
    return (p, v) if v is not None else None


def run_parts(parts, seed, agg):
    """Builds and runs all parts; raises Violation."""
    builds = {}
    keys = sorted({(p.mode, p.bin, p.features) for p in parts})
    # one cargo at a time per target directory
    groups = {}
    for k in keys:
        groups.setdefault(TDIR.get(k[0], k[0]), []).append(k)

    def do(group):
        r = {}
        for m, b, f in group:
            r[(m, b, f)] = build(m, b, f)
        return r

    with cf.ThreadPoolExecutor(max(1, len(groups))) as ex:
        for fut in [ex.submit(do, g) for g in groups.values()]:
            builds.update(fut.result())
    jobs = []
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        # interleave parts so that each gets its share of the processors
        for sh in range(max([p.shards for p in parts if not p.alone] or [0])):
            for i, p in enumerate(parts):
                if sh < p.shards and not p.alone:
                    cmd, env = builds[(p.mode, p.bin, p.features)]
                    s = seed * 1000 + p.sub * 10 + len(p.mode)
                    jobs.append((p, ex.submit(run_shard, cmd, env, p, s, sh, p.ms)))
        # a violation anywhere counts for more than a part that gave no verdict
        found = trouble = None
        for p, fut in jobs:
            try:
                v = collect(agg, p, *fut.result())
                found = found or v
            except Trouble as t:
                trouble = trouble or t
    for p in parts:
        for sh in range(p.shards if p.alone and not found else 0):
            cmd, env = builds[(p.mode, p.bin, p.features)]
            found = found or collect(agg, p, *run_shard(cmd, env, p, seed * 1000 + p.sub * 10 + len(p.mode), sh, p.ms))
    if trouble and not found:
        raise trouble
    if found:
        p, v = found
        raise Violation(v["what"], {"part": p.name, "mode": p.mode, "trace": v.get("trace", []), "case": v.get("case"), "sanitizer": v.get("sanitizer"), "rerun": v.get("rerun")})


def cargo_bins(mode, manifest, extra):
    tc, args, _, sub = MODES[mode]
    env = env_for(mode)
    cmd = ["cargo"] + ([tc] if tc else []) + ["build", "-q", "--offline", "--manifest-path", manifest] + extra + args
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    return p, env, os.path.join(env["CARGO_TARGET_DIR"], sub)


def first_errors(out, n=3):
    """the first compiler errors with their places"""
    r, keep = [], 0
    for line in out.splitlines():
        if line.startswith("error"):
            if len([x for x in r if x.startswith("error")]) >= n:
                break
            keep = 12
        if keep > 0:
            r.append(line[:300])
            keep -= 1
    return r


def run_generated(prop, seed, tier, agg, modes, bins, ms):
    """Writes a crate of generated types, builds it against /repo and runs its programs."""
    import gentypes

    dir_ = os.path.join(WORK, "gen-%s" % prop)
    shutil.rmtree(dir_, ignore_errors=True)
    names, total = gentypes.write(dir_, prop, seed, tier, os.path.join(VERIF, "harness"), REPO, bins)
    manifest = os.path.join(dir_, "Cargo.toml")
    agg.counts["programs generated"] = len(names)
    agg.counts["types generated"] = total

    def do(mode):
        return cargo_bins(mode, manifest, ["--bins", "--keep-going"])

    built = {}
    with cf.ThreadPoolExecutor(len(modes)) as ex:
        for m, (p, env, d) in zip(modes, ex.map(do, modes)):
            if p.returncode != 0:
                q, _, _ = cargo_bins(m, manifest, ["--bin", "probe"])
                if q.returncode != 0:
                    raise Trouble("the generated crate's probe does not build:\n%s" % q.stdout[-4000:])
                errs = first_errors(p.stdout)
                raise Violation("definitions that should be accepted do not build (%s): %s" % (m, " / ".join(x for x in errs if x.startswith("error"))[:600]),
                                {"part": "build", "mode": m, "trace": errs, "rerun": {"crate": dir_}})
            built[m] = (env, d)
    jobs = []
    found = trouble = None
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for m in modes:
            env, d = built[m]
            for i, n in enumerate(names):
                part = Part("generated types %d" % i, m, n, prop, 10**9, ms, shards=1)
                jobs.append((part, ex.submit(run_shard, [os.path.join(d, n)], env, part, seed * 1000 + i, 0, ms)))
        for p, fut in jobs:
            try:
                v = collect(agg, p, *fut.result())
                found = found or v
            except Trouble as t:
                trouble = trouble or t
    if trouble and not found:
        raise trouble
    if found:
        p, v = found
        raise Violation(v["what"], {"part": p.name, "mode": p.mode, "trace": v.get("trace", []), "case": v.get("case"), "rerun": v.get("rerun"), "crate": dir_})
    shutil.rmtree(dir_, ignore_errors=True)


def known_findings(prop):
    """Open findings of this property: (key, description). A violation whose account contains the key is listed."""
    r = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"open: property=(\S+) key=\"([^\"]+)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def finish(prop, tier, seed, t0, agg, rule, level, assumptions, violation):
    cov = {
        "evaluations": agg.evaluations,
        "distinct_nontrivial": len(agg.distinct) + agg.distinct_extra,
        "rule": rule,
        "samples": agg.samples[:6],
        "counts": dict(sorted(agg.counts.items())),
        "parts": agg.parts,
    }
    if agg.foreign:
        cov["ended_by_something_outside_the_property"] = [f["why"] for f in agg.foreign[:10]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key, text in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if violation:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", "%s-%d.json" % (prop, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "what": violation.what, **violation.detail}, f, indent=1)
            f.write("\n")
        print(violation.what)
        for line in (violation.detail.get("trace") or [])[:60]:
            print("   ", line)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d evaluations, %d distinct, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0
