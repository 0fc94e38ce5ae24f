//! Judging type <-> discriminant conversions against an independent account of a type's values.
//! The generated programs (lib/gentypes.py) supply the types and their `Spec`s.
use crate::el::{self, El};
use crate::report::*;
use crate::rng::{mix, Rng};
use enum_like::EnumLike;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::Ordering::Relaxed;

/// The values of a type, counted and numbered without the library.
pub trait Spec: EnumLike {
    const COUNT: u128;
    fn nth(i: u128) -> Self;
    fn idx(&self) -> u128;
}

impl Spec for () {
    const COUNT: u128 = 1;
    fn nth(_: u128) -> Self {}
    fn idx(&self) -> u128 {
        0
    }
}
impl Spec for bool {
    const COUNT: u128 = 2;
    fn nth(i: u128) -> Self {
        i == 1
    }
    fn idx(&self) -> u128 {
        if *self {
            1
        } else {
            0
        }
    }
}
impl<const K: u64> Spec for El<K> {
    const COUNT: u128 = K as u128;
    fn nth(i: u128) -> Self {
        El(i as u64)
    }
    fn idx(&self) -> u128 {
        self.0 as u128
    }
}
impl<T: Spec> Spec for Option<T> {
    const COUNT: u128 = T::COUNT + 1;
    fn nth(i: u128) -> Self {
        if i < T::COUNT {
            Some(T::nth(i))
        } else {
            None
        }
    }
    fn idx(&self) -> u128 {
        match self {
            Some(x) => x.idx(),
            None => T::COUNT,
        }
    }
}
impl<T: Spec, E: Spec> Spec for Result<T, E> {
    const COUNT: u128 = T::COUNT + E::COUNT;
    fn nth(i: u128) -> Self {
        if i < T::COUNT {
            Ok(T::nth(i))
        } else {
            Err(E::nth(i - T::COUNT))
        }
    }
    fn idx(&self) -> u128 {
        match self {
            Ok(x) => x.idx(),
            Err(x) => T::COUNT + x.idx(),
        }
    }
}
impl<T: Spec, const N: usize> Spec for [T; N]
where
    [T; N]: EnumLike,
{
    const COUNT: u128 = T::COUNT.pow(N as u32);
    fn nth(mut i: u128) -> Self {
        std::array::from_fn(|_| {
            let r = T::nth(i % T::COUNT);
            i /= T::COUNT;
            r
        })
    }
    fn idx(&self) -> u128 {
        self.iter().rev().fold(0, |a, x| a * T::COUNT + x.idx())
    }
}
macro_rules! tuples {
    ($($T:ident . $i:tt),+) => {
        impl<$($T: Spec),+> Spec for ($($T,)+) where ($($T,)+): EnumLike {
            const COUNT: u128 = 1 $(* $T::COUNT)+;
            #[allow(unused_assignments)]
            fn nth(mut i: u128) -> Self {
                ($({ let r = $T::nth(i % $T::COUNT); i /= $T::COUNT; r },)+)
            }
            #[allow(unused_assignments)]
            fn idx(&self) -> u128 {
                let mut w = 1; let mut s = 0;
                $( s += w * self.$i.idx(); w *= $T::COUNT; )+
                s
            }
        }
    };
}
include!("gen_tuples.rs");

/// A leaf whose representation has no all-zero and no all-one value.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Nz {
    A = 7,
    B = 9,
    C = 200,
}
unsafe impl EnumLike for Nz {
    const NUM_VARIANTS: usize = 3;
    fn to_discr(self) -> usize {
        self.idx() as usize
    }
    fn from_discr(x: usize) -> Self {
        match x {
            0 => Nz::A,
            1 => Nz::B,
            2 => Nz::C,
            _ => panic!("from_discr({}) on a type with 3 values", x),
        }
    }
}
impl Spec for Nz {
    const COUNT: u128 = 3;
    fn nth(i: u128) -> Self {
        match i {
            0 => Nz::A,
            1 => Nz::B,
            _ => Nz::C,
        }
    }
    fn idx(&self) -> u128 {
        match self {
            Nz::A => 0,
            Nz::B => 1,
            Nz::C => 2,
        }
    }
}

/// A leaf that is a reference with two possible targets; it carries a lifetime.
#[derive(Copy, Clone)]
pub struct Ref<'a>(pub &'a str);
unsafe impl<'a> EnumLike for Ref<'a> {
    const NUM_VARIANTS: usize = 2;
    fn to_discr(self) -> usize {
        self.idx() as usize
    }
    fn from_discr(x: usize) -> Self {
        match x {
            0 => Ref("zero"),
            1 => Ref("one"),
            _ => panic!("from_discr({}) on a type with 2 values", x),
        }
    }
}
impl<'a> Spec for Ref<'a> {
    const COUNT: u128 = 2;
    fn nth(i: u128) -> Self {
        Ref(if i == 0 { "zero" } else { "one" })
    }
    fn idx(&self) -> u128 {
        if self.0 == "zero" {
            0
        } else {
            1
        }
    }
}

/// An uninhabited leaf that does not use the derive.
#[derive(Copy, Clone)]
pub enum No {}
unsafe impl EnumLike for No {
    const NUM_VARIANTS: usize = 0;
    fn to_discr(self) -> usize {
        match self {}
    }
    fn from_discr(x: usize) -> Self {
        panic!("from_discr({}) on a type with no value", x)
    }
}
impl Spec for No {
    const COUNT: u128 = 0;
    fn nth(i: u128) -> Self {
        panic!("harness: value {} of a type with none", i)
    }
    fn idx(&self) -> u128 {
        match *self {}
    }
}

/// A trait with an associated type, for generic definitions that use one.
pub trait Assoc: Copy {
    type Item: Spec;
}
#[derive(Copy, Clone)]
pub struct AssocBool;
impl Assoc for AssocBool {
    type Item = bool;
}
#[derive(Copy, Clone)]
pub struct AssocTri;
impl Assoc for AssocTri {
    type Item = El<3>;
}
unsafe impl EnumLike for AssocBool {
    const NUM_VARIANTS: usize = 1;
    fn to_discr(self) -> usize {
        0
    }
    fn from_discr(_: usize) -> Self {
        AssocBool
    }
}
unsafe impl EnumLike for AssocTri {
    const NUM_VARIANTS: usize = 1;
    fn to_discr(self) -> usize {
        0
    }
    fn from_discr(_: usize) -> Self {
        AssocTri
    }
}

macro_rules! one_value { ($($t:ident)*) => { $(
impl Spec for $t {
    const COUNT: u128 = 1;
    fn nth(_: u128) -> Self {
        $t
    }
    fn idx(&self) -> u128 {
        0
    }
}
)* } }
one_value!(AssocBool AssocTri);

/// A trait that EnumLike does not imply, for where clauses that an implementation must repeat.
pub trait Mark {}
impl Mark for () {}
impl Mark for bool {}
impl Mark for Nz {}
impl<'a> Mark for Ref<'a> {}
impl<const K: u64> Mark for El<K> {}
impl<T: Mark> Mark for Option<T> {}

pub type Use = fn(&mut Rng) -> Result<u64, String>;

pub struct Ops {
    pub name: &'static str,
    pub def: &'static str,
    pub expect: u128,
    pub count: fn() -> u128,
    pub num: fn() -> usize,
    pub enc: fn(u128) -> usize,
    pub dec: fn(usize) -> u128,
    pub rt: fn(u128) -> u128,
    pub self_check: fn(u128) -> u128,
    pub uses: Option<Use>,
}

pub fn ops<T: Spec>(name: &'static str, def: &'static str, expect: u128, uses: Option<Use>) -> Ops {
    Ops {
        name,
        def,
        expect,
        count: || T::COUNT,
        num: || T::NUM_VARIANTS,
        enc: |i| T::nth(i).to_discr(),
        dec: |d| T::from_discr(d).idx(),
        rt: |i| T::from_discr(T::nth(i).to_discr()).idx(),
        self_check: |i| T::nth(i).idx(),
        uses,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    /// one-to-one onto 0..NUM_VARIANTS
    Bijection,
    /// the exact number
    Numbering,
}

const WHOLE: u128 = 5000;

fn judge(o: &Ops, what: What, rng: &mut Rng, round: u64, seen: &mut HashSet<u64>, key: u64) -> Result<u64, String> {
    let n = (o.count)();
    if n != o.expect {
        eprintln!("harness: {} has {} values by Spec, {} by the generator", o.name, n, o.expect);
        std::process::exit(3);
    }
    let num = (o.num)() as u128;
    if num != n {
        return Err(format!("NUM_VARIANTS is {}, the type has {} values", num, n));
    }
    let whole = n <= WHOLE;
    if whole && round > 0 && o.uses.is_none() {
        return Ok(0);
    }
    let mut done = 0;
    let idx: Vec<u128> = if whole {
        (0..n).collect()
    } else {
        let mut v: Vec<u128> = vec![0, 1, 2, n / 2, n - 1, n - 2, n - 3];
        // single steps at each power of two and near the ends
        for k in 1..64 {
            if (1u128 << k) < n {
                v.push((1u128 << k) - 1);
                v.push(1u128 << k);
            }
        }
        for _ in 0..300 {
            v.push(((rng.next() as u128) << 64 | rng.next() as u128) % n);
        }
        v
    };
    let mut by_discr: HashMap<usize, u128> = HashMap::new();
    for &i in &idx {
        if (o.self_check)(i) != i {
            eprintln!("harness: Spec of {} is no bijection at {}", o.name, i);
            std::process::exit(3);
        }
        let d = match caught(|| (o.enc)(i)) {
            Ok(d) => d,
            Err(m) => return Err(format!("to_discr of value {} panicked: {}", i, m)),
        };
        if d as u128 >= n {
            return Err(format!("to_discr of value {} is {}, the type has {} values", i, d, n));
        }
        if let Some(j) = by_discr.insert(d, i) {
            if j != i {
                return Err(format!("values {} and {} have the same discriminant {}", j, i, d));
            }
        }
        if what == What::Numbering && d as u128 != i {
            return Err(format!("value number {} has discriminant {}", i, d));
        }
        match caught(|| (o.rt)(i)) {
            Ok(j) if j == i => (),
            Ok(j) => return Err(format!("from_discr(to_discr(value {})) is value {}", i, j)),
            Err(m) => return Err(format!("from_discr({}), the discriminant of value {}, panicked: {}", d, i, m)),
        }
        match caught(|| (o.dec)(i as usize)) {
            Ok(j) => {
                if what == What::Numbering && j != i {
                    return Err(format!("from_discr({}) is value number {}", i, j));
                }
                if j >= n {
                    return Err(format!("from_discr({}) is no value of the type", i));
                }
                match caught(|| (o.enc)(j)) {
                    Ok(d) if d as u128 == i => (),
                    Ok(d) => return Err(format!("to_discr(from_discr({})) is {}", i, d)),
                    Err(m) => return Err(format!("to_discr of value {} panicked: {}", j, m)),
                }
            }
            Err(m) => return Err(format!("from_discr({}) panicked: {}", i, m)),
        }
        if seen.len() < 2_000_000 {
            seen.insert(mix(key ^ mix(i as u64)));
        }
        done += 1;
    }
    if let Some((x, k)) = el::bad() {
        return Err(format!("a part with {} values was asked to decode {}", k, x));
    }
    if let (Some(u), What::Bijection) = (o.uses, what) {
        done += u(rng)?;
    }
    Ok(done)
}

pub fn main(table: Vec<Ops>) {
    if std::env::args().any(|x| x == "--noop") {
        return;
    }
    let args = Args::parse();
    let mut rep = Report::new(args.clone());
    watchdog(30);
    guard(move || {
        let what = if args.prop == "C17" { What::Numbering } else { What::Bijection };
        let mut last = 0;
        let n = table.len() as u64;
        let mut seen = HashSet::new();
        let mut useful = true;
        for c in args.cases() {
            if rep.out_of_time() && c >= n {
                break;
            }
            if c % n == 0 && c > 0 {
                if !useful {
                    break;
                }
                useful = false;
            }
            last = c;
            CASE.store(c, Relaxed);
            BEAT.fetch_add(1, Relaxed);
            let o = &table[(c % n) as usize];
            let mut rng = Rng::new(args.seed, 15, c);
            el::reset();
            SCOPE.store(1, Relaxed);
            let r = judge(o, what, &mut rng, c / n, &mut seen, mix(c % n ^ args.seed << 32));
            SCOPE.store(0, Relaxed);
            match r {
                Ok(k) => {
                    useful |= k > 0 && ((o.count)() > WHOLE || o.uses.is_some());
                    rep.evaluations += k;
                    if c < n {
                        rep.count("types", 1);
                        rep.count(if (o.count)() <= WHOLE { "types judged whole" } else { "types judged by samples" }, 1);
                        if o.uses.is_some() {
                            rep.count("types used as elements of a vector and a set", 1);
                        }
                    }
                    rep.count("values", k);
                    rep.sample(|| format!("{}: {} values, NUM_VARIANTS {}", if o.def.is_empty() { o.name } else { o.def }, (o.count)(), (o.num)()));
                }
                Err(m) => rep.violation(c, &format!("{}: {}", o.name, m), &[o.def.to_string()]),
            }
        }
        rep.distinct = seen;
        rep.done(last)
    })
}

/// A random history of a vector of this storage and, where the type is small enough, of a set.
#[macro_export]
macro_rules! uses {
    ($m:ident, $t:ty, $set:expr) => {{
        fn f(rng: &mut $crate::rng::Rng) -> Result<u64, String> {
            use $crate::gen::Spec;
            let n = <$t as Spec>::COUNT;
            let mut r = |rng: &mut $crate::rng::Rng| -> u128 { ((rng.next() as u128) << 64 | rng.next() as u128) % n };
            let go = move || -> Result<u64, String> {
                let mut v: enum_vec::$m::EnumVec<$t> = enum_vec::$m::EnumVec::new();
                let mut m: Vec<u128> = vec![];
                let mut k = 0;
                for _ in 0..60 {
                    k += 1;
                    match rng.below(6) {
                        0 | 1 | 2 => {
                            let x = r(rng);
                            v.push(<$t as Spec>::nth(x));
                            m.push(x);
                        }
                        3 => {
                            let x = r(rng);
                            let at = rng.below(m.len() as u64 + 1) as usize;
                            v.insert(at, <$t as Spec>::nth(x));
                            m.insert(at, x);
                        }
                        4 if !m.is_empty() => {
                            let x = r(rng);
                            let at = rng.below(m.len() as u64) as usize;
                            v.set(at, <$t as Spec>::nth(x));
                            m[at] = x;
                        }
                        5 if !m.is_empty() => {
                            let at = rng.below(m.len() as u64) as usize;
                            let (a, b) = (v.remove(at).idx(), m.remove(at));
                            if a != b {
                                return Err(format!("in a vector: remove({}) gave value {}, not {}", at, a, b));
                            }
                        }
                        _ => {
                            let x = r(rng);
                            let (a, b) = (v.any(<$t as Spec>::nth(x)), m.contains(&x));
                            if a != b {
                                return Err(format!("in a vector: any(value {}) is {}", x, a));
                            }
                        }
                    }
                }
                let got: Vec<u128> = v.iter().map(|x| x.idx()).collect();
                if got != m {
                    return Err(format!("in a vector: contents {:?}, not {:?}", got, m));
                }
                if $set {
                    let mut s: enum_set2::EnumSet<$t> = enum_set2::EnumSet::new();
                    let mut w = std::collections::BTreeSet::new();
                    for _ in 0..40 {
                        k += 1;
                        let x = r(rng);
                        let (a, b) = if rng.chance(2, 3) {
                            (s.insert(<$t as Spec>::nth(x)), w.insert(x))
                        } else {
                            (s.remove(<$t as Spec>::nth(x)), w.remove(&x))
                        };
                        let y = r(rng);
                        if a != b || s.contains(<$t as Spec>::nth(y)) != w.contains(&y) || s.len() != w.len() {
                            return Err(format!("in a set: insert, remove, contains or len is wrong at value {}", x));
                        }
                    }
                    let mut got: Vec<u128> = s.iter().map(|x| x.idx()).collect();
                    got.sort();
                    if got != w.iter().cloned().collect::<Vec<_>>() {
                        return Err(format!("in a set: members {:?}, not {:?}", got, w));
                    }
                }
                Ok(k)
            };
            match $crate::report::caught(go) {
                Ok(x) => x,
                Err(m) => Err(format!("as an element of a vector or set: a call panicked: {}", m)),
            }
        }
        Some(f as $crate::gen::Use)
    }};
}
