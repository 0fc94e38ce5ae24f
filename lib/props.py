"""What each property's check runs."""
import os
import subprocess

import costs
import limits
from driver import Part, Trouble, Violation, run_generated, run_parts

PROPS = {}

HIST = ("Random operation histories on three vectors of one storage variant and element type, with block edges, "
        "palettes and positions chosen per history; each operation is executed on the real vector and on a plain Vec model. ")


HUGE = ("C01", "C02", "C03", "C04", "C05", "C06", "C11")


def huge(prop, tier):
    return Part("more than 2^32 elements", "opt", "hugemon", prop, 10_000_000, 4000 if tier == "quick" else 90000, shards=2, sub=5)


def vec(prop, rule, assumptions, ms=9000, thorough_ms=120000, modes=("debug", "release"), features=()):
    def run(agg, seed, tier):
        parts = []
        t = thorough_ms if tier == "thorough" else ms
        ms_list = list(modes)
        if tier == "thorough":
            ms_list.append("opt")
        n = max(1, 6 // len(ms_list))
        for m in ms_list:
            parts.append(Part("histories", m, "vecmon", prop, 10_000_000, t, shards=n, features=features, sub=1))
        parts.append(Part("long vectors", "release", "vecmon", prop, 10_000_000, t, shards=2, features=features, extra=["--size", "large"], sub=4))
        if prop in HUGE:
            parts.append(huge(prop, tier))
        run_parts(parts, seed, agg)

    PROPS[prop] = {"run": run, "rule": rule, "assumptions": assumptions}


CONTRACT = "Element types honour the EnumLike contract; the monitors' own types do by construction."
OBS = "Verdicts come from executions observed in this run; unexplored histories are not covered."

vec("C01", HIST + "Every return value, length and the full contents read back are compared after every step. "
    "A case is non-trivial when something is held or supplied; distinct by storage, variant count, operation, arguments and resulting contents.",
    [CONTRACT, OBS])
vec("C02", HIST + "Judged steps are insert, remove, swap_remove, swap, retain, truncate and split_off, weighted up and aimed at block edges; "
    "other operations only make the history. Distinct by storage, variant count, operation, position, values and resulting contents.", [CONTRACT, OBS])
vec("C03", HIST + "Judged steps are the bulk constructions and growth operations. Distinct by storage, variant count, operation, items and resulting contents.", [CONTRACT, OBS])
vec("C04", HIST + "After the steps every stored value, its neighbours, bit flips of it and the extreme values are searched with any and all, and the answers "
    "compared with a scan of the elements. Distinct by storage, variant count, queried value and contents; empty vectors count as trivial.", [CONTRACT, OBS])
vec("C05", HIST + "Iterators of each kind are driven by random interleavings of next, next_back, nth, nth_back, len, size_hint and adaptors against "
    "the iterator of a plain list. Distinct by storage, variant count, contents and script.", [CONTRACT, OBS])
vec("C06", HIST + "Vectors are compared with a rebuilt one, hashed, and both are then driven by the same operations. Distinct by storage, variant count, contents.", [CONTRACT, OBS])
vec("C10", HIST + "Capacity promises are tracked per vector, allocations are counted by the global allocator, and requests beyond the address space are made. "
    "Distinct by storage, variant count, operation, arguments and contents.", [CONTRACT, OBS])
vec("C11", HIST + "Positions at, just past and far past the end, up to usize::MAX, for every positional operation; state is compared before and after. "
    "Distinct by storage, variant count, operation, position and contents.", [CONTRACT, OBS])
vec("C12", HIST + "Panics injected at each point of iterators and callbacks, and dishonest size hints; the contents afterwards are compared with what was yielded. "
    "Distinct by storage, variant count, operation, panic point and contents.", [CONTRACT, OBS])
vec("C13", "The same random history runs on the six storage variants in lockstep; return values, panics, contents, iteration, equality, hashes and Debug output are compared "
    "after every step. Distinct by variant count, operation, arguments and contents.", [CONTRACT, OBS])
vec("C14", HIST + "Element types sweep every bit width a storage accepts: variant counts 2^k-1, 2^k, 2^k+1 and the largest, and reads, edits, any, all and comparisons are all judged. "
    "Distinct by storage, variant count, operation and contents.", [CONTRACT, OBS], modes=("debug", "release"), features=("wide",))
vec("C25", HIST + "storage() is decoded from first principles after every step; raw gets, sets, set_len and block edits are checked bit by bit. "
    "Distinct by storage, variant count, operation and storage contents.", [CONTRACT, OBS])

def mixed(prop, rule, assumptions, parts):
    """parts(tier) -> list of Part"""
    def run(agg, seed, tier):
        run_parts(parts(tier), seed, agg)

    PROPS[prop] = {"run": run, "rule": rule, "assumptions": assumptions}


BIG = 1_000_000_000


def c07(tier):
    q = tier == "quick"
    t = 1 if q else 8
    P = []
    P.append(Part("vectors", "debug", "vecmon", "C07", BIG, 6000 * t, shards=2, sub=1))
    P.append(Part("vectors", "release", "vecmon", "C07", BIG, 6000 * t, shards=2, sub=1))
    P.append(Part("vectors", "asan", "vecmon", "C07", BIG, 14000 * t, shards=4, sub=1))
    P.append(Part("sets", "asan", "setmon", "C07", BIG, 6000 * t, shards=2, sub=2))
    P.append(Part("conversions", "asan", "likemon", "C07", BIG, 5000 * t, shards=1, sub=3))
    P.append(Part("vectors", "miri", "vecmon", "C07", BIG, 26000 * t, shards=3, tiny=True, sub=1))
    P.append(Part("vectors", "miri-release", "vecmon", "C07", BIG, 26000 * t, shards=3, tiny=True, sub=1))
    P.append(Part("sets", "miri", "setmon", "C07", BIG, 14000 * t, shards=1, tiny=True, sub=2))
    P.append(Part("conversions", "miri", "likemon", "C07", BIG, 14000 * t, shards=1, tiny=True, sub=3))
    P.append(Part("vectors", "msan", "vecmon", "C07", BIG, 10000 * t, shards=3, sub=1))
    P.append(Part("sets", "msan", "setmon", "C07", BIG, 6000 * t, shards=1, sub=2))
    P.append(Part("conversions", "msan", "likemon", "C07", BIG, 5000 * t, shards=1, sub=3))
    if not q:
        P.append(Part("vectors", "asan-debug", "vecmon", "C07", BIG, 14000 * t, shards=4, sub=1))
        P.append(Part("sets", "miri-release", "setmon", "C07", BIG, 14000 * t, shards=1, tiny=True, sub=2))
        P.append(Part("conversions", "miri-release", "likemon", "C07", BIG, 14000 * t, shards=1, tiny=True, sub=3))
    return P


mixed("C07", HIST + "Arguments are extreme and hostile, panics are injected and caught, and the histories run under AddressSanitizer, under MemorySanitizer (with an instrumented standard library), under Miri in both overflow modes, and natively "
      "with crashes attributed; EnumSet histories and conversions there and back over composed types run under the same. "
      "Distinct by operation, arguments and contents.",
      [CONTRACT, OBS, "Miri judges aliasing by tree borrows: smallvec 0.6 itself breaks the stricter stacked borrows."], c07)


def c08(tier):
    t = 1 if tier == "quick" else 12
    P = []
    for m in ("debug", "release"):
        P.append(Part("histories", m, "vecmon", "C08", BIG, 9000 * t, shards=3, sub=1))
        P.append(Part("sets", m, "setmon", "C08", BIG, 6000 * t, shards=1, sub=2))
        P.append(Part("values and wrappers", m, "likemon", "C08", BIG, 4000 * t, shards=1, sub=3))
    P.append(Part("long vectors", "release", "vecmon", "C08", BIG, 6000 * t, shards=2, extra=["--size", "large"], sub=4))
    return P


mixed("C08", HIST + "Injected panics in iterators and callbacks and dishonest size hints; the element type records each argument of from_discr, and every value handed "
      "out is checked to be one of the type's. Sets, Values and the packed wrappers are driven the same way. Distinct by operation, arguments and contents.",
      [CONTRACT, "Element conversions do not themselves panic.", OBS], c08)


def c09(tier):
    t = 1 if tier == "quick" else 12
    P = []
    for m in ("debug", "release"):
        P.append(Part("use during histories", m, "vecmon", "C09", BIG, 10000 * t, shards=2, sub=1))
        P.append(Part("vectors returned", m, "vecmon", "C09", BIG, 6000 * t, shards=1, extra=["--part", "leak"], sub=2))
        P.append(Part("sets returned", m, "setmon", "C09", BIG, 6000 * t, shards=1, sub=3))
    P.append(Part("long vectors", "release", "vecmon", "C09", BIG, 6000 * t, shards=1, extra=["--size", "large"], sub=4))
    return P


mixed("C09", HIST + "The global allocator counts live bytes and the peak during each operation, against the packed size of the longest length and reservation so far; "
      "whole histories with injected panics are wound up and every byte is accounted for. Distinct by operation, arguments and contents.", [CONTRACT, OBS], c09)


def c24(tier):
    q = tier == "quick"
    t = 1 if q else 10
    P = [Part("threads", "debug", "threadmon", "C24", BIG, 6000 * t, shards=2, sub=1),
         Part("threads", "release", "threadmon", "C24", BIG, 6000 * t, shards=2, sub=1),
         Part("threads", "miri", "threadmon", "C24", BIG, 20000 * t, shards=6 if q else 8, tiny=True, sub=2, threads=True),
         Part("threads", "tsan", "threadmon", "C24", BIG, 12000 * t, shards=4, sub=1),
         Part("one operation on all threads", "opt", "threadmon", "C24", BIG, 16000 * t, shards=1, extra=["--part", "hammer"], sub=3, alone=True)]
    if not q:
        P.append(Part("threads", "opt", "threadmon", "C24", BIG, 6000 * t, shards=2, sub=1))
    return P


mixed("C24", "Whether each container, iterator and wrapper may be sent and shared is observed for element types that may and that may not. Then threads read one container at once, and containers "
      "and iterators travel between threads that edit them, and repeat one operation on all threads at once, natively, under ThreadSanitizer (with an instrumented standard library) and under Miri with a schedule per shard; each result is compared "
      "with the same script run alone. Distinct by container and recorded interleaving, and by travelling history.",
      [CONTRACT, OBS, "Schedules are those the machine, ThreadSanitizer and Miri's seeded scheduler produced."], c24)


def one(bin_, prop, ms=8000, shards=4, big=False):
    def parts(tier):
        t = 1 if tier == "quick" else 12
        ms_list = ("debug", "release") + (() if tier == "quick" else ("opt",))
        parts = [Part("histories" if bin_ == "setmon" else "scripts", m, bin_, prop, BIG, ms * t, shards=shards, sub=1) for m in ms_list]
        return parts + [huge(prop, tier)] if big else parts
    return parts


SETS = ("Random histories over two or three EnumSets of element types from 1 to 2^64 - 1 values (of those with more than 2^32 only small ones), with members drawn from word edges and far apart, each operation executed on the real set "
        "and on a BTreeSet. ")
mixed("C18", "Random scripts of iterator calls over values() of many types - no values, one, machine-integer edges up to usize::MAX - against an integer range. "
      "Distinct by type and script.", [CONTRACT, OBS], one("likemon", "C18"))
mixed("C19", "Every value of every listed type (sampled beyond 2^12) is packed and unpacked, and pairs are compared, ordered and hashed against their discriminants. "
      "Distinct by type and pair.", [CONTRACT, OBS], one("likemon", "C19"))
mixed("C21", SETS + "Judged: results, contents, len, is_empty, contains after each step. Distinct by type, operation and contents.", [CONTRACT, OBS], one("setmon", "C21", big=True))
mixed("C22", SETS + "Judged: algebra as iterators and in place, relations, iteration order and size bounds at every position. Distinct by type and the two sets.", [CONTRACT, OBS], one("setmon", "C22", big=True))
mixed("C23", SETS + "Judged: equality, order (with transitivity over triples), hashes, conversions, clones and Debug, on sets of equal members and different histories. "
      "Distinct by type, and contents.", [CONTRACT, OBS], one("setmon", "C23"))


def generated(prop, rule, assumptions):
    def run(agg, seed, tier):
        modes = ("debug", "release") if tier == "quick" else ("debug", "release", "opt")
        run_generated(prop, seed, tier, agg, modes, 8, 5000 if tier == "quick" else 60000)

    PROPS[prop] = {"run": run, "rule": rule, "assumptions": assumptions}


GEN = ("A program of many types is generated (by the seed) together with an account of their values that does not use the library; each value of a type of up to 5000 values, "
       "and 430 or more of a larger one (ends, powers of two, random), is converted there and back. ")
generated("C15", GEN + "Types: every tuple arity 1 to 32 and array length 0 to 32 over several part types, uninhabited parts, counts up to 2^64-1, and random nestings. "
          "Distinct by type and value; each pair of values of a type is compared through its discriminant.", [CONTRACT, OBS])
generated("C16", GEN + "Types: random structs and enums with the derive, generic, nested, bounded, with explicit discriminants and uninhabited parts; many are also used as elements of vectors and sets. "
          "Definitions that build on the unchanged tree must build. Distinct by type and value.", [CONTRACT, OBS])
generated("C17", GEN + "The exact number of each value is judged, for built-in nestings and derived types, and for tuples, arrays and structs of the same parts. "
          "Distinct by type and value.", [CONTRACT, OBS])


PROPS["C26"] = {
    "run": costs.run,
    "rule": "Instructions are counted by callgrind around each operation, on vectors of all six storages at lengths up to 2^20 (constant-time operations), and for whole fills, copies and passes at lengths "
            "a factor of 8 apart; allocations and bytes are counted by the allocator. Per unit of work the count may not grow between lengths by more than half (constant-time operations) or by a factor of 2.5 (the others). Distinct by container, operation, length and build.",
    "assumptions": ["Machine instructions stand for work; the count includes the monitors' element conversions, which do the same work for each element.", OBS],
}
PROPS["C20"] = {
    "run": limits.run,
    "rule": "Each program stores three values (or packs a few) by one operation and reads them back; programs within the limits must build and run, programs that differ from them only in the "
            "number of values of the type, beyond a limit, must be refused by the compiler. Distinct by storage or wrapper, operation, type and optimisation.",
    "assumptions": ["Types are El<K>, derived enums, arrays, tuples and options of the exact counts; the operations are all that put elements into a vector that has none.", OBS],
}


PROPS["C27"] = {
    "run": limits.run_counts,
    "rule": "Each program uses the number of values of a composed type, at 2^64-1 values or fewer (must build, print that number and convert values there and back) or, differing in one number only, beyond it "
            "(must be refused by the compiler); the same for definitions outside what the derive accepts. Distinct by type, use and optimisation.",
    "assumptions": [OBS],
}


def setup():
    for cmd in (["cargo", "--version"], ["cargo", "+nightly", "miri", "--version"], ["valgrind", "--version"]):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p.stdout.strip())
        if p.returncode != 0:
            return 1
    return 0
