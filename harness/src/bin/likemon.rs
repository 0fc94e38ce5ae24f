//! Values and packed wrappers: C18, C19, the Values and packed part of C08, and the enum_like
//! workload of C07 (conversions of arrays, tuples and derived types).
use enum_like::{EnumLike, EnumValues, PackedU16, PackedU8, Values};
use enum_like_derive::EnumLike;
use evmon::consume::{forward, FORWARD};
use evmon::el::{self, El, Elem, Rev};
use evmon::report::*;
use evmon::rng::{mix, Acc, Rng};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::Relaxed;

// ---------------------------------------------------------------- C18

/// The reference: a cursor over 0..k, with every iterator method written out from `next`.
#[derive(Clone)]
struct Cur {
    at: u128,
    k: u128,
}
impl Cur {
    fn left(&self) -> u128 {
        self.k - self.at
    }
    fn nth(&mut self, n: u128) -> Option<u64> {
        if n >= self.left() {
            self.at = self.k;
            None
        } else {
            self.at += n + 1;
            Some((self.at - 1) as u64)
        }
    }
}

struct Log {
    calls: Vec<String>,
    keep: bool,
}
impl Log {
    fn add(&mut self, f: impl FnOnce() -> String) {
        if self.keep {
            self.calls.push(f());
        }
    }
}

/// One random script of calls on T::values(). Err: what went wrong.
fn script<E: Elem>(rng: &mut Rng, steps: u64, log: &mut Log, acc: &mut Acc, only_valid: bool) -> Result<u64, String> {
    let k = E::K as u128;
    let mut real: Values<E> = E::values();
    let mut want = Cur { at: 0, k };
    let mut compared = 0;
    let id = |x: Option<E>| x.map(|v| v.id());
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            compared += 1;
            if let Some((x, n)) = el::bad() {
                return Err(format!("{}: from_discr({}) was called on a type with {} values", $what, x, n));
            }
            if !only_valid && g != w {
                return Err(format!("{} gives {:?}, it should give {:?}", $what, g, w));
            }
        }};
    }
    for _ in 0..steps {
        let at = want.at;
        let left = want.left();
        let n: usize = match rng.below(12) {
            0 => 0,
            1 => 1,
            2 => rng.below(9) as usize,
            3 => left.min(usize::MAX as u128) as usize,
            4 => left.saturating_sub(1).min(usize::MAX as u128) as usize,
            5 => (left + 1).min(usize::MAX as u128) as usize,
            6 => usize::MAX,
            7 => usize::MAX - rng.below(5) as usize,
            8 => (usize::MAX - at.min(usize::MAX as u128) as usize).saturating_add(rng.below(2) as usize),
            9 => (1usize << rng.below(64)).wrapping_sub(rng.below(2) as usize),
            10 => (rng.next() as u128 % (left + 1)) as usize,
            _ => rng.below(64) as usize,
        };
        let small_left = left <= 3000;
        let c = rng.below(20);
        acc.add(c);
        acc.add(at as u64);
        acc.add(n as u64);
        let w = |f: &str| format!("at position {} of {}, {}", at, k, f);
        match c {
            0..=3 => {
                log.add(|| "next()".into());
                same!(w("next()"), id(real.next()), want.nth(0));
            }
            4 | 5 => {
                log.add(|| format!("nth({})", n));
                same!(w(&format!("nth({})", n)), id(real.nth(n)), want.nth(n as u128));
            }
            6 => {
                log.add(|| format!("clone().skip({}).next()", n));
                let mut m = want.clone();
                let mut it = real.clone().skip(n);
                same!(w(&format!("skip({}).next()", n)), id(it.next()), m.nth(n as u128));
                same!(w(&format!("skip({}) second item", n)), id(it.next()), m.nth(0));
                let l = m.left().min(usize::MAX as u128) as usize;
                same!(w(&format!("skip({}) size_hint", n)), it.size_hint(), (l, Some(l)));
            }
            7 => {
                let s = n.max(1);
                log.add(|| format!("clone().step_by({})", s));
                let mut m = want.clone();
                let mut it = real.clone().step_by(s);
                let mut first = true;
                for _ in 0..6 {
                    let e = m.nth(if first { 0 } else { s as u128 - 1 });
                    first = false;
                    same!(w(&format!("step_by({}) item", s)), id(it.next()), e);
                }
            }
            8 => {
                log.add(|| "clone().last()".into());
                same!(w("last()"), id(real.clone().last()), if left == 0 { None } else { Some((k - 1) as u64) });
            }
            9 => {
                log.add(|| "clone().count()".into());
                same!(w("count()"), real.clone().count() as u128, left);
            }
            10 => {
                log.add(|| "size_hint(), len()".into());
                same!(w("size_hint()"), real.size_hint(), (left as usize, Some(left as usize)));
                same!(w("len()"), real.len() as u128, left);
            }
            11 if small_left => {
                log.add(|| "clone().collect()".into());
                let g: Vec<u64> = real.clone().map(|x| x.id()).collect();
                same!(w("collect()"), g, (at as u64..k as u64).collect::<Vec<_>>());
            }
            12 if small_left => {
                log.add(|| "clone().fold()".into());
                let g = real.clone().fold(1u64, |a, x| mix(a ^ x.id()));
                same!(w("fold()"), g, (at as u64..k as u64).fold(1u64, |a, x| mix(a ^ x)));
            }
            13 => {
                log.add(|| format!("by_ref().take({})", n % 17));
                let t = n % 17;
                let g: Vec<u64> = real.by_ref().take(t).map(|x| x.id()).collect();
                let mut m = vec![];
                for _ in 0..t {
                    match want.nth(0) {
                        Some(x) => m.push(x),
                        None => break,
                    }
                }
                same!(w(&format!("by_ref().take({})", t)), g, m);
            }
            14 => {
                let target = (rng.next() as u128 % k.max(1)) as u64;
                if k > 0 && (target as u128) >= at && target as u128 - at < 2000 {
                    log.add(|| format!("position of {}", target));
                    let g = real.clone().position(|x| x.id() == target);
                    same!(w(&format!("position of {}", target)), g, Some((target as u128 - at) as usize));
                    let g = real.find(|x| x.id() == target);
                    want.at = target as u128 + 1;
                    same!(w(&format!("find {}", target)), id(g), Some(target));
                }
            }
            15 if small_left => {
                log.add(|| "clone().max_by_key, min_by_key".into());
                let g = (real.clone().max_by_key(|x| mix(x.id())).map(|x| x.id()), real.clone().min_by_key(|x| mix(x.id())).map(|x| x.id()));
                let r = (at as u64)..(k as u64);
                same!(w("max_by_key and min_by_key"), g, (r.clone().max_by_key(|x| mix(*x)), r.min_by_key(|x| mix(*x))));
            }
            16 => {
                log.add(|| format!("clone().nth({}) then size_hint", n));
                let mut c = real.clone();
                let mut m = want.clone();
                same!(w(&format!("clone().nth({})", n)), id(c.nth(n)), m.nth(n as u128));
                let l = m.left() as usize;
                same!(w(&format!("size_hint() after nth({})", n)), c.size_hint(), (l, Some(l)));
                same!(w(&format!("count() after nth({})", n)), c.clone().count(), l);
                same!(w(&format!("last() after nth({})", n)), id(c.clone().last()), if l == 0 { None } else { Some((k - 1) as u64) });
                same!(w(&format!("next() after nth({})", n)), id(c.next()), m.nth(0));
            }
            17 => {
                log.add(|| "peekable, chain, zip".into());
                let mut p = real.clone().peekable();
                let e = want.clone().nth(0);
                same!(w("peek()"), p.peek().map(|x| x.id()), e);
                same!(w("next() after peek()"), id(p.next()), e);
                let z = real.clone().zip(real.clone()).next().map(|(a, b)| (a.id(), b.id()));
                same!(w("zip with itself"), z, e.map(|x| (x, x)));
            }
            18 if small_left && rng.chance(3, 4) => {
                let which = rng.below(FORWARD);
                let (t, j) = (rng.below((k as u64).max(1)), rng.below(6) as usize);
                log.add(|| format!("clone(), consumed in way {} with {} and {}", which, t, j));
                let g = forward(real.clone(), which, t, j);
                let m: Vec<E> = (at as u64..k as u64).map(E::mk).collect();
                same!(w(&format!("way {} of consuming it", which)), g, forward(m.into_iter(), which, t, j));
            }
            18 => {
                log.add(|| "a fresh values()".into());
                real = E::values();
                want = Cur { at: 0, k };
            }
            _ => {
                // run to the end, and stay there
                if left < 300 {
                    log.add(|| "to the end".into());
                    loop {
                        let g = id(real.next());
                        let e = want.nth(0);
                        same!(w("next() to the end"), g, e);
                        if e.is_none() {
                            break;
                        }
                    }
                } else {
                    log.add(|| format!("nth({}) to the end", left));
                    let j = left.min(usize::MAX as u128) as usize;
                    let e = want.nth(j as u128);
                    same!(w(&format!("nth({})", j)), id(real.nth(j)), e);
                }
                for j in [0, 1, 7, usize::MAX] {
                    let e = want.nth(j as u128);
                    same!(w(&format!("nth({}) after the end", j)), id(real.nth(j)), e);
                    let e = want.nth(0);
                    same!(w("next() after the end"), id(real.next()), e);
                }
                let l = want.left() as usize;
                same!(w("size_hint() after the end"), real.size_hint(), (l, Some(l)));
                same!(w("count() after the end"), real.clone().count(), l);
                same!(w("last() after the end"), id(real.clone().last()), None::<u64>);
            }
        }
    }
    Ok(compared)
}

/// a whole pass: every value once, in order
fn whole<E: Elem>() -> Result<u64, String> {
    let mut n = 0u64;
    for (i, x) in E::values().enumerate() {
        if let Some((x, k)) = el::bad() {
            return Err(format!("from_discr({}) was called on a type with {} values", x, k));
        }
        if x.id() != i as u64 || x.to_discr() != i {
            return Err(format!("item {} of values() is {:?}, value number {}, discriminant {}", i, x, x.id(), x.to_discr()));
        }
        n += 1;
        if n > E::K {
            break;
        }
    }
    if n != E::K {
        return Err(format!("values() yields {} items, the type has {} values", n, E::K));
    }
    Ok(n)
}

type Fun = fn(&mut Rng, u64, &mut Log, &mut Acc, bool) -> Result<u64, String>;

fn v_table(tiny: bool) -> Vec<(&'static str, Fun, Option<fn() -> Result<u64, String>>)> {
    macro_rules! t {
        ($($t:ty : $w:expr),* $(,)?) => {
            vec![$((stringify!($t), script::<$t> as Fun, if $w { Some(whole::<$t> as fn() -> Result<u64, String>) } else { None })),*]
        };
    }
    if tiny {
        return t![El<0>: true, El<1>: true, bool: true, El<5>: true, Rev<17>: true, El<{ u64::MAX }>: false];
    }
    t![
        Option<El<0>>: true, Option<El<1>>: true, Option<El<5>>: true, Option<Option<El<0>>>: true, Option<Option<El<3>>>: true,
        Result<El<0>, El<4>>: true, Result<El<4>, El<0>>: true, Result<El<2>, El<3>>: true, Result<El<0>, El<0>>: true, Result<El<300>, El<1>>: true,
        (El<0>, El<3>): true, (El<3>, El<0>): true, (El<1>, El<5>): true, (El<5>, El<1>): true, (El<5>, El<7>): true, (El<300>, El<2>): true,
        [El<0>; 0]: true, [El<0>; 3]: true, [El<1>; 3]: true, [El<7>; 3]: true, Option<El<{ 1 << 32 }>>: false, Option<El<{ (1 << 63) - 1 }>>: false,
        Result<El<{ 1 << 63 }>, El<{ (1 << 63) - 1 }>>: false, (El<{ 1 << 33 }>, El<{ 1 << 30 }>): false, (El<3>, El<{ 1 << 61 }>): false,
        Hollow: true, Parts: true,
        El<0>: true, El<1>: true, bool: true, El<2>: true, El<3>: true, El<7>: true, El<8>: true, El<9>: true, Rev<13>: true, Option<[bool; 4]>: true,
        El<255>: true, El<256>: true, El<257>: true, Rev<1000>: true, El<65535>: true, El<65536>: true, El<65537>: true,
        El<{ 1 << 31 }>: false, El<{ u32::MAX as u64 }>: false, El<{ 1 << 32 }>: false, El<{ (1 << 32) + 1 }>: false, Rev<{ 1 << 40 }>: false,
        El<{ (1 << 63) - 1 }>: false, El<{ 1 << 63 }>: false, El<{ (1 << 63) + 1 }>: false, El<{ u64::MAX - 1 }>: false, El<{ u64::MAX }>: false,
    ]
}

// ---------------------------------------------------------------- C19

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

trait Packed<E>: Copy + Debug + Hash + Ord + Eq {
    const BYTES: usize;
    fn pack(x: E) -> Self;
    fn unpack(self) -> E;
    fn ops(&self, o: &Self) -> (bool, bool, bool, bool, bool, bool) {
        (self == o, self != o, self < o, self <= o, self > o, self >= o)
    }
}
impl<E: Elem + Ord + Hash> Packed<E> for PackedU8<E> {
    const BYTES: usize = 1;
    fn pack(x: E) -> Self {
        PackedU8::new(x)
    }
    fn unpack(self) -> E {
        self.get()
    }
}
impl<E: Elem + Ord + Hash> Packed<E> for PackedU16<E> {
    const BYTES: usize = 2;
    fn pack(x: E) -> Self {
        PackedU16::new(x)
    }
    fn unpack(self) -> E {
        self.get()
    }
}

fn packed<E: Elem + Ord + Hash, P: Packed<E>>(rng: &mut Rng, pairs: u64, acc: &mut Vec<u64>, only_valid: bool) -> Result<u64, String> {
    let mut n = 0;
    if !only_valid && (std::mem::size_of::<P>() != P::BYTES || std::mem::align_of::<P>() > P::BYTES) {
        return Err(format!("the wrapper occupies {} bytes", std::mem::size_of::<P>()));
    }
    let bad = || el::bad().map(|(x, k)| format!("from_discr({}) was called on a type with {} values", x, k));
    let all: Vec<u64> = if pairs < 200 && E::K > 400 { (0..200).map(|_| rng.below(E::K)).chain([0, E::K - 1]).collect() } else { (0..E::K).collect() };
    for d in all {
        let p = P::pack(E::mk(d));
        let q = p;
        let g = caught(|| p.unpack());
        if let Some(m) = bad() {
            return Err(m);
        }
        if !only_valid {
            match g {
                Ok(x) if x == E::mk(d) && x.id() == d && q.unpack().id() == d => {}
                Ok(x) => return Err(format!("packing {:?} (number {}) gives back {:?}", E::mk(d), d, x)),
                Err(m) => return Err(format!("packing {:?} (number {}) and unpacking panicked: {}", E::mk(d), d, m)),
            }
        }
        n += 1;
        acc.push(mix(d) ^ mix(E::K) ^ P::BYTES as u64);
    }
    if only_valid {
        return Ok(n);
    }
    for i in 0..pairs {
        let a = rng.below(E::K);
        let b = match i % 5 {
            0 => a,
            1 => (a + 1) % E::K,
            2 => (a ^ (1 << rng.below(16))) % E::K,
            _ => rng.below(E::K),
        };
        let (p, q) = (P::pack(E::mk(a)), P::pack(E::mk(b)));
        let want = (a == b, a != b, a < b, a <= b, a > b, a >= b);
        if p.ops(&q) != want || p.cmp(&q) != a.cmp(&b) || p.partial_cmp(&q) != Some(a.cmp(&b)) {
            return Err(format!("wrappers of discriminants {} and {}: (==, !=, <, <=, >, >=) is {:?}, cmp {:?}", a, b, p.ops(&q), p.cmp(&q)));
        }
        if p.max(q).unpack().id() != a.max(b) || p.min(q).unpack().id() != a.min(b) {
            return Err(format!("max or min of the wrappers of {} and {} is wrong", a, b));
        }
        if a == b && hash(&p) != hash(&q) {
            return Err(format!("equal wrappers of {} hash differently", a));
        }
        if a != b && hash(&p) == hash(&q) {
            return Err(format!("wrappers of {} and {} hash alike: the hash does not depend on the discriminant", a, b));
        }
        let _ = Ordering::Less;
        n += 1;
        acc.push(mix(a ^ mix(b)) ^ mix(E::K) ^ P::BYTES as u64);
    }
    // sorting wrappers sorts by discriminant
    let mut v: Vec<(P, u64)> = (0..40).map(|_| rng.below(E::K)).map(|d| (P::pack(E::mk(d)), d)).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    if v.windows(2).any(|w| w[0].1 > w[1].1) {
        return Err("sorting wrappers does not sort them by discriminant".to_string());
    }
    Ok(n)
}

type PFun = fn(&mut Rng, u64, &mut Vec<u64>, bool) -> Result<u64, String>;
fn p_table() -> Vec<(&'static str, PFun)> {
    macro_rules! t {
        ($($p:ident $t:ty),* $(,)?) => { vec![$((concat!(stringify!($p), "<", stringify!($t), ">"), packed::<$t, $p<$t>> as PFun)),*] };
    }
    t![
        PackedU8 Option<El<0>>, PackedU8 Option<Option<El<0>>>, PackedU8 Result<El<0>, El<4>>, PackedU8 Result<El<250>, El<6>>, PackedU8 (El<5>, El<7>),
        PackedU16 [El<7>; 3], PackedU16 Option<El<65535>>, PackedU16 Parts, PackedU8 Hollow,
        PackedU8 El<1>, PackedU8 El<2>, PackedU8 bool, PackedU8 El<3>, PackedU8 Rev<16>, PackedU8 Option<[bool; 4]>, PackedU8 El<127>, PackedU8 El<128>, PackedU8 El<129>,
        PackedU8 El<255>, PackedU8 El<256>, PackedU8 Rev<200>, PackedU8 Rev<256>, PackedU8 Abc, PackedU8 Mixed,
        PackedU16 El<1>, PackedU16 bool, PackedU16 El<255>, PackedU16 El<256>, PackedU16 El<257>, PackedU16 Rev<300>, PackedU16 El<32768>, PackedU16 El<32769>, PackedU16 El<65535>,
        PackedU16 El<65536>, PackedU16 Rev<65536>, PackedU16 Abc, PackedU16 Mixed,
    ]
}

// derived types with known numbering
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
enum Abc {
    A = 30,
    B = 20,
    C = 10,
}
impl Elem for Abc {
    const K: u64 = 3;
    fn mk(d: u64) -> Self {
        [Abc::A, Abc::B, Abc::C][d as usize]
    }
    fn id(self) -> u64 {
        match self {
            Abc::A => 0,
            Abc::B => 1,
            Abc::C => 2,
        }
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
enum Mixed {
    X(bool, Abc),
    U,
    Y { a: Abc, b: Option<bool> },
    V,
}
impl Elem for Mixed {
    const K: u64 = 2 + 6 + 9;
    fn mk(d: u64) -> Self {
        match d {
            0 => Mixed::U,
            1 => Mixed::V,
            2..=7 => Mixed::X((d - 2) % 2 == 1, Abc::mk((d - 2) / 2)),
            _ => Mixed::Y { a: Abc::mk((d - 8) % 3), b: [Some(false), Some(true), None][(d - 8) as usize / 3] },
        }
    }
    fn id(self) -> u64 {
        match self {
            Mixed::U => 0,
            Mixed::V => 1,
            Mixed::X(a, b) => 2 + a as u64 + 2 * b.id(),
            Mixed::Y { a, b } => 8 + a.id() + 3 * match b {
                Some(false) => 0,
                Some(true) => 1,
                None => 2,
            },
        }
    }
}

// derived, with recording parts; the derive cannot read `El<3>`
type E0 = El<0>;
type E1 = El<1>;
type E3 = El<3>;
type E4 = El<4>;
type E5 = El<5>;
type E6 = El<6>;
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
enum Hollow {
    #[allow(dead_code)]
    N(E0),
    U,
    #[allow(dead_code)]
    M { a: E4, b: E0 },
    P(E1, E3),
}
impl Elem for Hollow {
    const K: u64 = 4;
    fn mk(d: u64) -> Self {
        if d == 0 {
            Hollow::U
        } else {
            Hollow::P(El(0), El(d - 1))
        }
    }
    fn id(self) -> u64 {
        match self {
            Hollow::U => 0,
            Hollow::P(_, x) => 1 + x.0,
            _ => unreachable!(),
        }
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
struct Parts {
    a: E3,
    b: (E1, E5),
    c: Option<E6>,
}
impl Elem for Parts {
    const K: u64 = 3 * 5 * 7;
    fn mk(d: u64) -> Self {
        Parts { a: El(d % 3), b: (El(0), El(d / 3 % 5)), c: Elem::mk(d / 15) }
    }
    fn id(self) -> u64 {
        self.a.0 + 3 * ((self.b.1).0 + 5 * self.c.id())
    }
}

// ---------------------------------------------------------------- C07

/// conversions there and back over composed types; nothing functional is judged
fn convert<T: EnumLike + Debug>(rng: &mut Rng) -> u64 {
    let n = T::NUM_VARIANTS as u64;
    if n == 0 {
        return T::values().count() as u64;
    }
    let mut h = 0;
    for i in 0..5 {
        let d = match i {
            0 => 0,
            1 => n - 1,
            _ => rng.below(n),
        };
        let _ = caught(|| {
            let v = T::from_discr(d as usize);
            h ^= mix(v.to_discr() as u64 + i);
            // reading the value back in full
            h ^= format!("{:?}", v).len() as u64;
        });
    }
    let _ = caught(|| T::values().nth(rng.next() as usize).map(|x| x.to_discr()));
    let _ = caught(|| T::values().skip((n - 1) as usize).last().map(|x| x.to_discr()));
    h
}

type CFun = fn(&mut Rng) -> u64;
fn c_table() -> Vec<(&'static str, CFun)> {
    macro_rules! t {
        ($($t:ty),* $(,)?) => { vec![$((stringify!($t), convert::<$t> as CFun)),*] };
    }
    t![
        (), bool, [bool; 0], [bool; 1], [bool; 2], [bool; 7], [bool; 31], [bool; 32], [(); 5], [[bool; 3]; 4], [Abc; 1], [Abc; 2], [Abc; 5], [Abc; 17], [Mixed; 3],
        [Option<bool>; 4], [Option<Abc>; 9], [Result<Abc, ()>; 6], [(bool, Abc); 8], [[Abc; 2]; 6], [El<3>; 4], [El<255>; 8], [El<200>; 3], Option<[Abc; 4]>,
        ([Abc; 2], bool, [Mixed; 2]), (Abc, Abc, Abc, bool, Mixed), Result<[bool; 9], [Abc; 3]>, Option<Option<[Option<Abc>; 3]>>,
        (bool, bool, bool, bool, bool, bool, Abc, Abc, Abc, bool, (), bool), Abc, Mixed, Option<Mixed>,
    ]
}

fn main() {
    if std::env::args().any(|x| x == "--noop") {
        return;
    }
    let args = Args::parse();
    let mut rep = Report::new(args.clone());
    watchdog(25);
    guard(move || {
        let only_valid = args.prop == "C08";
        let mut last = 0;
        let vt = v_table(args.tiny);
        let pt = p_table();
        let ct = c_table();
        for c in args.cases() {
            if rep.out_of_time() {
                break;
            }
            last = c;
            CASE.store(c, Relaxed);
            BEAT.fetch_add(1, Relaxed);
            let mut rng = Rng::new(args.seed, 18, c);
            el::reset();
            let values = args.prop == "C18" || args.prop == "C08" && c % 2 == 0;
            if args.prop == "C07" {
                SCOPE.store(1, Relaxed);
                let (name, f) = ct[c as usize % ct.len()];
                if args.trace {
                    eprintln!("{}", name);
                }
                let h = f(&mut rng);
                rep.distinct.insert(mix(c % ct.len() as u64) ^ h);
                rep.evaluations += 12;
                rep.count("conversions under the sanitizer", 12);
                rep.sample(|| format!("case {}: there and back over {}", c, name));
                SCOPE.store(0, Relaxed);
            } else if values {
                let c2 = if args.prop == "C08" { c / 2 } else { c };
                let (name, f, w) = vt[c2 as usize % vt.len()];
                let mut log = Log { calls: vec![], keep: false };
                let mut acc = Acc::new();
                acc.add(c2 % vt.len() as u64);
                let save = (args.seed, 1800, c);
                let steps = rng.range(3, 30);
                let go = |log: &mut Log, acc: &mut Acc| {
                    let mut r = Rng::new(save.0, save.1, save.2);
                    el::reset();
                    SCOPE.store(1, Relaxed);
                    let x = caught(|| script_or_whole(f, w, c2 < vt.len() as u64, &mut r, steps, log, acc, only_valid));
                    SCOPE.store(0, Relaxed);
                    match x {
                        Ok(x) => x,
                        Err(m) if only_valid && el::bad().is_none() => {
                            let _ = m;
                            Ok(0)
                        }
                        Err(m) => Err(match el::bad() {
                            Some((x, k)) => format!("from_discr({}) was called on a type with {} values", x, k),
                            None => format!("a call panicked: {}", m),
                        }),
                    }
                };
                match go(&mut log, &mut acc) {
                    Ok(n) => {
                        rep.evaluations += n;
                        rep.count("iterator calls compared", n);
                        rep.count("scripts", 1);
                        rep.distinct.insert(acc.0);
                        if rep.samples.len() < 2 {
                            let mut l = Log { calls: vec![], keep: true };
                            let _ = go(&mut l, &mut Acc::new());
                            rep.sample(|| format!("case {}: {}::values(): {}", c, name, l.calls.join(", ")));
                        }
                    }
                    Err(m) => {
                        let mut l = Log { calls: vec![format!("let mut v = <{}>::values()", name)], keep: true };
                        let _ = go(&mut l, &mut Acc::new());
                        rep.violation(c, &format!("{}::values(): {}", name, m), &l.calls)
                    }
                }
            } else {
                let (name, f) = pt[c as usize % pt.len()];
                let mut acc = vec![];
                SCOPE.store(1, Relaxed);
                let first = c < pt.len() as u64 * 2;
                let r = caught(|| f(&mut rng, if first { 400 } else { 150 }, &mut acc, only_valid));
                SCOPE.store(0, Relaxed);
                match r {
                    Ok(Ok(n)) => {
                        rep.evaluations += n;
                        rep.count("values and pairs of wrappers", n);
                        if rep.distinct.len() < 1_000_000 {
                            rep.distinct.extend(acc);
                        }
                        rep.sample(|| format!("case {}: {}: all values packed and unpacked, pairs compared", c, name));
                    }
                    Ok(Err(m)) => rep.violation(c, &format!("{}: {}", name, m), &[]),
                    Err(m) if only_valid && el::bad().is_none() => rep.count("ended by a panic outside the property", (m.len() > 0) as u64),
                    Err(m) => rep.violation(c, &format!("{}: a call panicked: {}", name, m), &[]),
                }
            }
        }
        rep.done(last)
    })
}

fn script_or_whole(f: Fun, w: Option<fn() -> Result<u64, String>>, first: bool, r: &mut Rng, steps: u64, log: &mut Log, acc: &mut Acc, only_valid: bool) -> Result<u64, String> {
    let mut n = 0;
    if let (true, Some(w)) = (first, w) {
        log.add(|| "the whole of values()".into());
        match w() {
            Err(m) if !only_valid || el::bad().is_some() => return Err(m),
            x => n += x.unwrap_or(0),
        }
    }
    Ok(n + f(r, steps, log, acc, only_valid)?)
}
