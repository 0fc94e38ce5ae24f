"""C20: programs around each limit, differing from a twin in one number only; their build verdicts and runs are observed."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess

import driver
from driver import Trouble, Violation

LIMIT = {"vec_u8": 2**8, "vec_u16": 2**16, "vec_u32": 2**32, "smallvec_u32": 2**32, "vec_u64": None, "vec_u128": None}
TOP = 2**64 - 1

# each stores elements; `a` and `b` are two values of the type, the result is read back by the caller
OPS = {
    "push": "let mut v: V = V::new(); for x in it { v.push(x); } v",
    "insert": "let mut v: V = V::new(); for x in it.rev() { v.insert(0, x); } v",
    "extend": "let mut v: V = V::default(); v.extend(it); v",
    "collect": "it.collect::<V>()",
    "from Vec": "let w: Vec<T> = it.collect(); let v: V = w.into(); v",
    "from_slice": "let w: Vec<T> = it.collect(); V::from_slice(&w)",
    "enum_vec!": "let mut w: Vec<T> = it.collect(); w.truncate(3); if w.len() < 3 { return None } type EnumVec<U> = enum_vec::%(m)s::EnumVec<U>; let v: V = enum_vec::enum_vec![w[0], w[1], w[2]]; v",
    "from_elem": "let mut it = it; let x = it.next()?; let mut v: V = V::from_elem(x, 3); let _ = &mut v; v",
    "resize": "let mut it = it; let x = it.next()?; let mut v: V = V::with_capacity(2); v.resize(3, x); v",
    "push on a clone": "let v: V = V::new(); let mut v = v.clone(); for x in it { v.push(x); } v",
}
SAME = ("from_elem", "resize")


def source(m, op, ty, decl, values, expect):
    """a program that stores three values and reads them back"""
    return """#![allow(dead_code, unused)]
use enum_like::EnumLike;
use enum_like_derive::EnumLike;
use evmon::el::El;
use evmon::gen::{Spec, No, Nz};
%(decl)s
type T = %(ty)s;
type V = enum_vec::%(m)s::EnumVec<T>;
const VALUES: &[u128] = &[%(values)s];
fn store<I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(it: I) -> Option<V> { Some({ %(op)s }) }
fn main() {
    let vals = || VALUES.iter().map(|i| <T as Spec>::nth(*i));
    let n = VALUES.len();
    let v = match store(vals()) { Some(v) => v, None => return };
    let got: Vec<u128> = v.iter().map(|x| x.idx()).collect();
    let want: Vec<u128> = vec![%(expect)s];
    if got != want { println!("BAD stored {:?}, read {:?}", want, got); std::process::exit(9) }
    println!("GOOD {}", got.len());
}
""" % {"decl": decl, "ty": ty, "m": m, "values": values, "op": OPS[op] % {"m": m} if "%(m)s" in OPS[op] else OPS[op], "expect": expect}


def packed_source(w, ty, decl, values):
    return """#![allow(dead_code, unused)]
use enum_like::{EnumLike, %(w)s};
use enum_like_derive::EnumLike;
use evmon::el::El;
use evmon::gen::{Spec, No, Nz};
%(decl)s
type T = %(ty)s;
const VALUES: &[u128] = &[%(values)s];
fn main() {
    for i in VALUES {
        let p = %(w)s::<T>::new(<T as Spec>::nth(*i));
        if p.get().idx() != *i { println!("BAD packed {}, unpacked {}", i, p.get().idx()); std::process::exit(9) }
    }
    println!("GOOD {}", VALUES.len());
}
""" % {"w": w, "ty": ty, "decl": decl, "values": values}


# programs that put a value into a wrapper and never take it out
KEPT = {
    "compared": "let a = %(w)s::<T>::new(x(0)); let b = %(w)s::<T>::new(x(VALUES.len() - 1)); if (a == b) != (VALUES[0] == VALUES[VALUES.len() - 1]) { println!(\"BAD ==\"); std::process::exit(9) }",
    "ordered": "let a = %(w)s::<T>::new(x(0)); let b = %(w)s::<T>::new(x(VALUES.len() - 1)); if (a < b) != (x(0).to_discr() < x(VALUES.len() - 1).to_discr()) { println!(\"BAD <\"); std::process::exit(9) }",
    "hashed": "use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); %(w)s::<T>::new(x(0)).hash(&mut h); if h.finish() == 1 { println!(\"?\") }",
    "kept in a list": "let v: Vec<%(w)s<T>> = (0..VALUES.len()).map(|i| %(w)s::new(x(i))).collect(); if std::mem::size_of_val(&v[..]) != VALUES.len() * %(b)s { println!(\"BAD size\"); std::process::exit(9) }",
    "packed by reference to new": "let f: fn(T) -> %(w)s<T> = %(w)s::new; if std::mem::size_of_val(&f(x(0))) != %(b)s { println!(\"BAD size\"); std::process::exit(9) }",
}


def kept_source(w, how, ty, decl, values):
    return """#![allow(dead_code, unused)]
use enum_like::{EnumLike, %(w)s};
use enum_like_derive::EnumLike;
use evmon::el::El;
use evmon::gen::{Spec, No, Nz};
%(decl)s
type T = %(ty)s;
const VALUES: &[u128] = &[%(values)s];
fn x(i: usize) -> T { <T as Spec>::nth(VALUES[i]) }
fn main() {
    %(body)s
    println!("GOOD {}", VALUES.len());
}
""" % {"w": w, "ty": ty, "decl": decl.replace("derive(Copy, Clone, EnumLike)", "derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)"), "values": values, "body": KEPT[how] % {"w": w, "b": "1" if w == "PackedU8" else "2"}}


def types_of(n, r):
    """types with exactly n values: (text, declarations)"""
    out = [("El<%d>" % n, "")]
    if n == 0:
        out += [("No", ""), ("(bool, No)", "")]
    elif n == 1:
        out += [("()", ""), ("[bool; 0]", ""), ("Option<No>", ""), ("((), ())", "")]
    elif n <= 300:
        vs = ["V%d" % i for i in range(n)]
        out.append(("E", "#[derive(Copy, Clone, EnumLike)] enum E { %s }\nimpl Spec for E { const COUNT: u128 = %d; fn nth(i: u128) -> E { match i { %s _ => panic!() } } fn idx(&self) -> u128 { *self as u128 } }" % (
            ", ".join(vs), n, " ".join("%d => E::%s," % (i, v) for i, v in enumerate(vs)))))
    k = max(n.bit_length() - 1, 0)
    if n == 1 << k and 0 < k <= 32:
        out.append(("[bool; %d]" % k, ""))
        if k % 2 == 0:
            out.append(("([bool; %d], [bool; %d])" % (k // 2, k // 2), ""))
    if n > 1 and n - 1 == 1 << k and 0 < k <= 32:
        out.append(("Option<[bool; %d]>" % k, ""))
        out.append(("Result<(), [bool; %d]>" % k, ""))
    if n > 4 and n % 3 == 0:
        out.append(("(Nz, El<%d>)" % (n // 3), ""))
    return out


def externs():
    env = driver.env_for("debug")
    cmd = ["cargo", "build", "-q", "--offline", "--message-format=json", "--manifest-path", os.path.join(driver.VERIF, "harness", "Cargo.toml"), "--lib", "--features", "bare"]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode != 0:
        raise Trouble("cannot build the libraries:\n%s" % p.stderr[-3000:])
    ex, deps = {}, None
    for line in p.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact":
            n = j["target"]["name"]
            if n in ("enum_vec", "enum_like", "enum_like_derive", "evmon"):
                # a cfg'd feature of the same crate can appear once only: everything is patched to /repo
                f = [x for x in j["filenames"] if x.endswith((".rlib", ".so"))]
                ex[n] = f[0]
    deps = os.path.join(env["CARGO_TARGET_DIR"], "debug", "deps")
    if len(ex) != 4:
        raise Trouble("library artifacts missing: %s" % sorted(ex))
    return ex, deps


def cases(seed, tier):
    """(name, positive?, source, twin) with twin the name of the positive program that differs only in its type"""
    r = random.Random("C20-%s" % seed)
    L = []

    def vals(n):
        v = [n - 1, 0, n // 2] if n > 0 else [0, 0, 0]
        return [x if 0 <= x < max(n, 1) else 0 for x in v]

    def vec_case(m, op, n, ty, decl, positive):
        v = vals(n)
        e = [v[0]] * 3 if op in SAME else v
        src = source(m, op, ty, decl, ", ".join(map(str, v)), ", ".join(map(str, e)))
        L.append({"name": "%s, %s, %s (%d values)" % (m, op, ty if len(ty) > 2 or not decl else "an enum", n), "positive": positive, "src": src, "group": (m, op)})

    for m, lim in LIMIT.items():
        for op in OPS:
            ts = types_of(2, r)
            vec_case(m, op, 2, *r.choice(ts), True)
            top = lim or TOP
            vec_case(m, op, top, *r.choice(types_of(top, r)), True)
            if tier != "quick":
                for n in (3, top - 1):
                    vec_case(m, op, n, *r.choice(types_of(n, r)), True)
            for n in (0, 1):
                ts = types_of(n, r)
                for t in (ts if tier != "quick" else [r.choice(ts)]):
                    vec_case(m, op, n, *t, False)
            if lim:
                ts = types_of(lim + 1, r)
                for t in (ts if tier != "quick" else [ts[0], r.choice(ts[1:])]):
                    vec_case(m, op, lim + 1, *t, False)
                more = [lim + 2, lim * 2, 2 * lim - 1, TOP, 2**32 + 1, 2**63, r.randrange(lim + 1, TOP), lim + r.randrange(1, 100)]
                more = sorted({x for x in more if x > lim})
                for n in (more if tier != "quick" else [r.choice(more)]):
                    vec_case(m, op, n, "El<%d>" % n, "", False)
    for w, lim in (("PackedU8", 2**8), ("PackedU16", 2**16)):
        for n in [1, 2, 3, lim // 2, lim // 2 + 1, lim - 1, lim]:
            for t in types_of(n, r):
                v = sorted({0, n // 2, n - 1})
                L.append({"name": "%s, %s (%d values)" % (w, t[0], n), "positive": True, "src": packed_source(w, t[0], t[1], ", ".join(map(str, v))), "group": (w, "")})
        for t in types_of(0, r):
            L.append({"name": "%s, %s (no values)" % (w, t[0]), "positive": True, "src": packed_source(w, t[0], t[1], ""), "group": (w, "")})
        for n in [lim + 1, lim + 2, 2 * lim, 2 * lim + 1, TOP, 2**32, 2**32 + 1, lim * lim, r.randrange(lim + 1, TOP)]:
            for t in types_of(n, r):
                L.append({"name": "%s, %s (%d values)" % (w, t[0], n), "positive": False, "src": packed_source(w, t[0], t[1], "0"), "group": (w, "")})
        for how in KEPT:
            plain = lambda n: [t for t in types_of(n, r) if "Nz" not in t[0]]
            for n in (lim, 3) if tier != "quick" else (lim,):
                t = r.choice(plain(n))
                L.append({"name": "%s %s, %s (%d values)" % (w, how, t[0], n), "positive": True, "src": kept_source(w, how, t[0], t[1], "0, %d" % (n - 1)), "group": (w, how)})
            for n in (lim + 1, 2 * lim, r.randrange(lim + 1, TOP)):
                for t in plain(n):
                    L.append({"name": "%s %s, %s (%d values)" % (w, how, t[0], n), "positive": False, "src": kept_source(w, how, t[0], t[1], "0, %d" % (n - 1)), "group": (w, how)})
    for i, c in enumerate(L):
        c["opt"] = r.random() < (0.12 if tier == "quick" else 0.35)
    return L


COUNTED = """#![allow(dead_code, unused)]
use enum_like::{EnumLike, EnumValues};
use enum_like_derive::EnumLike;
use evmon::el::El;
%(decl)s
type T = %(ty)s;
const N: u64 = %(n)d;
fn same(x: T, d: u64) {
    if x.to_discr() as u64 != d { println!("BAD {} became {}", d, x.to_discr()); std::process::exit(9) }
}
fn main() {
    let ds: [u64; 5] = [0, 1, N / 2, N - 2, N - 1];
    %(use)s
    println!("GOOD");
}
"""
USES = {
    "NUM_VARIANTS": "if T::NUM_VARIANTS as u64 != N { println!(\"BAD NUM_VARIANTS {}\", T::NUM_VARIANTS); std::process::exit(9) } for d in ds { same(T::from_discr(d as usize), d); }",
    "a constant": "const C: usize = <T as EnumLike>::NUM_VARIANTS; static S: usize = C; if S as u64 != N { println!(\"BAD constant {}\", S); std::process::exit(9) }",
    "values()": "let v = T::values(); if v.len() as u64 != N { println!(\"BAD values() {}\", v.len()); std::process::exit(9) } for d in ds { same(T::values().nth(d as usize).unwrap(), d); }",
    "EnumVec": "let mut v: enum_vec::vec_u64::EnumVec<T> = enum_vec::vec_u64::EnumVec::new(); for d in ds { v.push(T::from_discr(d as usize)); } for (x, d) in v.into_iter().zip(ds.iter()) { same(x, *d); }",
    "small EnumVec": "let mut v: enum_vec::vec_u128::EnumVec<T> = ds.iter().map(|d| T::from_discr(*d as usize)).collect(); for (x, d) in v.iter().zip(ds.iter()) { same(x, *d); }",
    "Option": "if <Option<T> as EnumLike>::NUM_VARIANTS as u128 != N as u128 + 1 { println!(\"BAD\"); std::process::exit(9) }",
}


def count_types(r):
    """(declarations, type within, its count, declarations, type beyond)"""
    P = 2**32
    el = lambda n: "El<%d>" % n
    # syn 0.12 does not parse const arguments: derived types name their parts by aliases
    al = lambda f: "".join("type A%d = %s; " % (i, x) for i, x in enumerate(f))
    st = lambda *f: al(f) + "#[derive(Copy, Clone, EnumLike)] struct S { %s }" % ", ".join("f%d: A%d" % (i, i) for i, x in enumerate(f))
    tp = lambda *f: al(f) + "#[derive(Copy, Clone, EnumLike)] struct S(%s);" % ", ".join("A%d" % i for i in range(len(f)))

    def en(*v):
        L = []
        parts = re.compile(r"El<\d+>")
        shown = [parts.sub(lambda m: L.append(m.group()) or "A%d" % (len(L) - 1), x) for x in v]
        return al(L) + "#[derive(Copy, Clone, EnumLike)] enum E { %s }" % ", ".join("V%d%s" % (i, x) for i, x in enumerate(shown))

    a = r.randrange(3, 2**20)
    most = TOP // a
    b = r.randrange(2**40, 2**63)
    gen = "#[derive(Copy, Clone, EnumLike)] struct G<A, B> { a: A, b: B }"
    return [
        ("", "(%s, %s)" % (el(P - 1), el(P + 1)), TOP, "", "(%s, %s)" % (el(P), el(P))),
        ("", "([bool; 31], [bool; 32])", 2**63, "", "([bool; 32], [bool; 32])"),
        ("", "(%s, %s)" % (el(a), el(most)), a * most, "", "(%s, %s)" % (el(a), el(most + 1))),
        ("", "(El<3>, El<5>, El<17>, El<257>, El<65537>, El<%d>)" % (P + 1), TOP, "", "(El<3>, El<5>, El<17>, El<257>, El<65538>, El<%d>)" % (P + 1)),
        ("", "[El<4>; 31]", 2**62, "", "[El<4>; 32]"),
        ("", "[%s; 2]" % el(P - 1), (P - 1) ** 2, "", "[%s; 2]" % el(P)),
        ("", "[%s; 3]" % el(2642245), 2642245**3, "", "[%s; 3]" % el(2642246)),
        ("", "Option<%s>" % el(TOP - 1), TOP, "", "Option<%s>" % el(TOP)),
        ("", "Result<%s, %s>" % (el(2**63), el(2**63 - 1)), TOP, "", "Result<%s, %s>" % (el(2**63), el(2**63))),
        ("", "Result<%s, %s>" % (el(b), el(TOP - b)), TOP, "", "Result<%s, %s>" % (el(b), el(TOP - b + 1))),
        (st(el(P - 1), el(P + 1)), "S", TOP, st(el(P), el(P)), "S"),
        (st("El<65535>", "El<65537>", el(P + 1)), "S", TOP, st("El<65536>", "El<65536>", el(P)), "S"),
        (tp(el(a), el(most)), "S", a * most, tp(el(a), el(most + 1)), "S"),
        (en("(%s)" % el(TOP - 1), ""), "E", TOP, en("(%s)" % el(TOP - 1), "", ""), "E"),
        (en("(%s)" % el(2**63), "{ x: %s }" % el(2**63 - 1)), "E", TOP, en("(%s)" % el(2**63), "{ x: %s }" % el(2**63)), "E"),
        (en("", "(%s, %s)" % (el(P - 1), el(P)), "(%s)" % el(P - 2)), "E", TOP, en("", "(%s, %s)" % (el(P - 1), el(P)), "(%s)" % el(P - 1)), "E"),
        (gen, "G<%s, %s>" % (el(P - 1), el(P + 1)), TOP, gen, "G<%s, %s>" % (el(P), el(P))),
        (gen, "G<Option<%s>, bool>" % el(2**63 - 2), 2**64 - 2, gen, "G<Option<%s>, bool>" % el(2**63 - 1)),
    ]


# (name, definition that is accepted, definition that must be refused); each is used as T
DERIVES = [
    ("a union", "#[derive(Copy, Clone, EnumLike)] struct U { a: bool, b: bool }", "#[derive(Copy, Clone, EnumLike)] union U { a: bool, b: bool }"),
    ("a struct with a field that is not EnumLike", "#[derive(Copy, Clone, EnumLike)] struct U { a: bool, b: bool }", "#[derive(Copy, Clone, EnumLike)] struct U { a: bool, b: u8 }"),
    ("a tuple struct with a field that is not EnumLike", "#[derive(Copy, Clone, EnumLike)] struct U(bool, bool);", "#[derive(Copy, Clone, EnumLike)] struct U(bool, char);"),
    ("an enum with a field that is not EnumLike", "#[derive(Copy, Clone, EnumLike)] enum U { A, B(bool), C { x: bool } }", "#[derive(Copy, Clone, EnumLike)] enum U { A, B(bool), C { x: u16 } }"),
    ("an enum with a tuple field that is not EnumLike", "#[derive(Copy, Clone, EnumLike)] enum U { A, B(bool, bool) }", "#[derive(Copy, Clone, EnumLike)] enum U { A, B(u8, bool) }"),
    ("a type that is not Copy", "#[derive(Copy, Clone, EnumLike)] struct U(bool);", "#[derive(Clone, EnumLike)] struct U(bool);"),
    ("an enum that is not Copy", "#[derive(Copy, Clone, EnumLike)] enum U { A, B }", "#[derive(Clone, EnumLike)] enum U { A, B }"),
    ("a generic type over something that is not EnumLike", "#[derive(Copy, Clone, EnumLike)] struct G<A>(A); type U = G<bool>;", "#[derive(Copy, Clone, EnumLike)] struct G<A>(A); type U = G<u8>;"),
    ("a generic enum over something that is not EnumLike", "#[derive(Copy, Clone, EnumLike)] enum G<A, B> { X(A), Y(B) } type U = G<bool, bool>;", "#[derive(Copy, Clone, EnumLike)] enum G<A, B> { X(A), Y(B) } type U = G<bool, [u8; 2]>;"),
    ("a reference field", "#[derive(Copy, Clone, EnumLike)] struct U(bool, ());", "#[derive(Copy, Clone, EnumLike)] struct U(bool, &'static bool);"),
]
DERIVED = """#![allow(dead_code, unused)]
use enum_like::{EnumLike, EnumValues};
use enum_like_derive::EnumLike;
%(decl)s
fn main() {
    let mut n = 0;
    for x in U::values() { if x.to_discr() != n { println!("BAD {}", n); std::process::exit(9) } n += 1; }
    if n != U::NUM_VARIANTS { println!("BAD"); std::process::exit(9) }
    println!("GOOD");
}
"""


def count_cases(seed, tier):
    L = []
    r = random.Random("C27-%s" % seed)
    for draw in range(1 if tier == "quick" else 6):
        for i, (d1, t1, n, d2, t2) in enumerate(count_types(r)):
            for u in USES:
                if draw and "randrange" not in u and i not in (2, 9, 12):
                    continue
                if u == "Option" and n == TOP:
                    # one more than the largest count
                    L.append({"name": "Option of %s %s" % (t1, d1), "positive": False, "src": COUNTED % {"decl": d1, "ty": t1, "n": n, "use": USES[u]}, "group": (i, "NUM_VARIANTS", draw)})
                else:
                    L.append({"name": "%s of %s %s" % (u, t1, d1), "positive": True, "src": COUNTED % {"decl": d1, "ty": t1, "n": n, "use": USES[u]}, "group": (i, u, draw)})
                    if u != "Option":
                        L.append({"name": "%s of %s %s" % (u, t2, d2), "positive": False, "src": COUNTED % {"decl": d2, "ty": t2, "n": n, "use": USES[u]}, "group": (i, u, draw)})
    for i, (name, good, bad) in enumerate(DERIVES):
        L.append({"name": "twin of " + name, "positive": True, "src": DERIVED % {"decl": good}, "group": ("derive", i)})
        L.append({"name": name, "positive": False, "src": DERIVED % {"decl": bad}, "group": ("derive", i)})
    both = []
    for c in L:
        c["opt"] = False
        both.append(c)
        # constant arithmetic in an optimised build is another path through the compiler
        if tier != "quick" or (not c["positive"] and r.random() < 0.5):
            both.append(dict(c, opt=True))
    return both


def run(agg, seed, tier):
    run_cases(agg, cases(seed, tier), "limits")


def run_counts(agg, seed, tier):
    run_cases(agg, count_cases(seed, tier), "counts")


def run_cases(agg, L, where):
    ex, deps = externs()
    dir_ = os.path.join(driver.WORK, where)
    shutil.rmtree(dir_, ignore_errors=True)
    os.makedirs(dir_)
    base = ["rustc", "--edition", "2021", "-L", "dependency=" + deps, "--cap-lints", "allow", "-C", "debuginfo=0"]
    for n, f in ex.items():
        base += ["--extern", "%s=%s" % (n, f)]

    def one(i):
        c = L[i]
        src = os.path.join(dir_, "p%d.rs" % i)
        out = os.path.join(dir_, "p%d" % i)
        with open(src, "w") as f:
            f.write(c["src"])
        cmd = base + ["-C", "opt-level=%d" % (2 if c["opt"] else 0), src, "--crate-name", "p%d" % i, "--out-dir", dir_]
        cmd += ["--emit=link"] if c["positive"] else ["--emit=obj"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, errors="replace")
        c["rc"], c["err"] = p.returncode, p.stderr
        c["cmd"] = " ".join(cmd)
        if c["positive"] and p.returncode == 0:
            q = subprocess.run([out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, errors="replace")
            c["run"], c["out"] = q.returncode, q.stdout
        for f in (out, os.path.join(dir_, "p%d.o" % i)):
            if os.path.exists(f):
                os.remove(f)

    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
        list(pool.map(one, range(len(L))))
    good = {c["group"] for c in L if c["positive"] and c["rc"] == 0}
    bad = None

    def viol(c, what):
        return Violation("%s: %s" % (c["name"], what), {"part": "limit programs", "trace": c["err"].splitlines()[:30] + c["src"].splitlines(), "rerun": {"cmd": c["cmd"]}})

    for c in L:
        agg.evaluations += 1
        agg.distinct.add(c["name"] + str(c["opt"]))
        if c["positive"]:
            if c["rc"] != 0:
                if "E0080" not in c["err"] and "E0277" not in c["err"] and not any(x["rc"] == 0 for x in L if x["positive"]):
                    raise Trouble("no limit program builds:\n%s" % c["err"][-3000:])
                bad = bad or viol(c, "does not build, although it is within the limits")
            elif c["run"] != 0 or "GOOD" not in c["out"]:
                bad = bad or viol(c, "builds but does not work: %s" % c["out"].strip()[:300])
            else:
                agg.add_counts({"programs within the limits that built and ran": 1})
        else:
            if c["rc"] == 0:
                bad = bad or viol(c, "builds, although it should be refused")
            elif "E0080" in c["err"]:
                agg.add_counts({"programs beyond the limits refused by constant evaluation": 1})
            elif c["group"] in good:
                # its twin differs only in the type and builds: the refusal is about the type
                agg.add_counts({"programs beyond the limits refused in another way": 1})
            else:
                raise Trouble("%s fails to build for an unexpected reason:\n%s" % (c["name"], c["err"][-3000:]))
        if c["opt"]:
            agg.add_counts({"of which optimised": 1})
    agg.samples = [c["name"] + (": builds and runs" if c["positive"] else ": " + ([x for x in c["err"].splitlines() if x.startswith("error")] or ["?"])[0]) for c in L[:: max(1, len(L) // 6)]][:6]
    if bad:
        raise bad
    shutil.rmtree(dir_, ignore_errors=True)
