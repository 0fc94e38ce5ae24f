"""C26: instruction counts from callgrind, compared between lengths."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess

from driver import WORK, Trouble, Violation, build

# instructions one operation may vary by between lengths without meaning anything
SLACK = 60


def run_shard(cmd, env, seed, shard, shards, extra):
    d = os.path.join(WORK, "cost-%s-%d" % (os.path.basename(os.path.dirname(cmd[0])), shard))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    full = ["valgrind", "--tool=callgrind", "--callgrind-out-file=" + os.path.join(d, "o"), "--dump-line=no", "--error-exitcode=0"] + cmd + [
        "--prop", "C26", "--seed", str(seed), "--shard", str(shard), "--shards", str(shards)] + extra
    p = subprocess.run(full, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=3000)
    if "@@END" not in p.stdout or p.returncode != 0:
        raise Trouble("the cost monitor did not finish (%s):\n%s\n%s" % (p.returncode, p.stdout[-500:], p.stderr[-2500:]))
    cut = "@@END cut short" in p.stdout
    work = {}
    for f in os.listdir(d):
        label = total = None
        with open(os.path.join(d, f)) as fh:
            for line in fh:
                m = re.match(r"desc: Trigger: Client Request: m(\d+)", line)
                if m:
                    label = int(m.group(1))
                m = re.match(r"summary: (\d+)", line)
                if m:
                    total = int(m.group(1))
                    break
        if label is not None:
            work[label] = total
    rows = []
    for line in p.stdout.splitlines():
        if line.startswith("@@M "):
            id_, kind, who, op, n, units, packed, allocs, asked = line[4:].split("\t")
            if int(id_) not in work:
                raise Trouble("no instruction count for measurement " + line)
            rows.append(dict(kind=kind, who=who, op=op, n=int(n), units=int(units), packed=int(packed), allocs=int(allocs), asked=int(asked), work=work[int(id_)]))
    shutil.rmtree(d, ignore_errors=True)
    return rows, cut


def judge(rows):
    """yields (row, what) for each measurement out of proportion"""
    groups = {}
    for r in rows:
        groups.setdefault((r["kind"], r["who"], r["op"]), []).append(r)
    for (kind, who, op), g in groups.items():
        g.sort(key=lambda r: r["n"])
        a = g[0]
        for r in g[1:]:
            if kind == "constant":
                per, was = r["work"] / r["units"], a["work"] / a["units"]
                if per > 1.5 * was + SLACK:
                    yield r, "%s, %s: %.0f instructions each at length %d but %.0f at length %d" % (who, op, was, a["n"], per, r["n"])
            else:
                per, was = r["work"] / r["n"], a["work"] / a["n"]
                if per > 2.5 * was + 20:
                    yield r, "%s, %s: %.1f instructions per element at length %d but %.1f at length %d" % (who, op, was, a["n"], per, r["n"])
            if kind == "fill":
                for what, unit in (("allocs", "allocations"), ("asked", "bytes asked of the allocator")):
                    if r[what] / r["n"] > 2.5 * a[what] / a["n"] + 0.1:
                        yield r, "%s, %s: %d %s at length %d but %d at length %d" % (who, op, a[what], unit, a["n"], r[what], r["n"])


def run(agg, seed, tier):
    modes = ["release"] if tier == "quick" else ["release", "debug", "opt"]
    extra = [] if tier == "quick" else ["--deep", "1"]
    shards = 12 if tier == "quick" else 24
    built = [build(m, "costmon") for m in modes]
    bad = None
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        jobs = [(m, ex.submit(run_shard, b[0], b[1], seed, s, shards, extra)) for m, b in zip(modes, built) for s in range(shards)]
        for m, j in jobs:
            rows, cut = j.result()
            if cut:
                agg.add_counts({"shards that ran out of time": 1})
            rec = agg.parts.setdefault("instruction counts (%s)" % m, {"evaluations": 0, "shards": 0})
            rec["shards"] += 1
            rec["evaluations"] += len(rows)
            agg.evaluations += len(rows)
            for r in rows:
                agg.add_counts({"measurements of kind " + r["kind"]: 1, "instructions counted": r["work"]})
                agg.distinct.add(hash((r["who"], r["op"], r["n"], m)))
            if rows and len(agg.samples) < 6:
                r = rows[len(rows) // 2]
                agg.samples.append("%s, %s, length %d: %d instructions, %d allocations, %d bytes asked for" % (r["who"], r["op"], r["n"], r["work"], r["allocs"], r["asked"]))
            for r, what in judge(rows):
                bad = bad or (what, m, r)
    if bad:
        raise Violation(bad[0], {"part": "instruction counts", "mode": bad[1], "measurement": bad[2], "trace": [bad[0]]})
