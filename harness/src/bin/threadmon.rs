//! C24: which containers may be sent and shared, many readers at once, and containers that travel
//! between threads. The oracle is the same script run by one thread; data races are left to the
//! sanitizers (ThreadSanitizer, Miri) this monitor also runs under.
use enum_like::{EnumLike, EnumValues, PackedU16, PackedU8};
use enum_set2::EnumSet;
use evmon::alloc;
use evmon::dynvec::*;
use evmon::el::{El, Elem, Rev};
use evmon::hist;
use evmon::report::*;
use evmon::rng::{mix, Acc, Rng};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

// ------------------------------------------------------------------ may be sent, may be shared

/// Two values, and bound to the thread they were made on.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Bound(bool, PhantomData<*const ()>);
unsafe impl EnumLike for Bound {
    const NUM_VARIANTS: usize = 2;
    fn to_discr(self) -> usize {
        self.0 as usize
    }
    fn from_discr(x: usize) -> Self {
        Bound(x == 1, PhantomData)
    }
}

#[allow(dead_code)]
struct P<'a, T>(&'a T);
trait SendYes {
    fn send(&self) -> bool {
        true
    }
}
impl<'a, T: Send> SendYes for P<'a, T> {}
trait SendNo {
    fn send(&self) -> bool {
        false
    }
}
impl<'a, T> SendNo for &P<'a, T> {}
trait SyncYes {
    fn sync(&self) -> bool {
        true
    }
}
impl<'a, T: Sync> SyncYes for P<'a, T> {}
trait SyncNo {
    fn sync(&self) -> bool {
        false
    }
}
impl<'a, T> SyncNo for &P<'a, T> {}

type Probed = (String, bool, bool, bool);

macro_rules! probe {
    ($out:ident, $free:expr, $name:expr, $v:expr) => {{
        let v = $v;
        $out.push(($name, $free, (&P(&v)).send(), (&P(&v)).sync()));
    }};
}
macro_rules! probe_all {
    ($out:ident, $free:expr, $e:ty, $x:expr) => {{
        let n = std::any::type_name::<$e>();
        macro_rules! one {
            ($m:ident) => {{
                let mut v: enum_vec::$m::EnumVec<$e> = enum_vec::$m::EnumVec::new();
                v.push($x);
                let s = stringify!($m);
                probe!($out, $free, format!("{} of {}", s, n), v.clone());
                probe!($out, $free, format!("{} iterator over {}", s, n), v.iter());
                probe!($out, $free, format!("{} by-value iterator over {}", s, n), v.clone().into_iter());
                probe!($out, $free, format!("{} iterator over &vec of {}", s, n), (&v).into_iter());
            }};
        }
        one!(vec_u8);
        one!(vec_u16);
        one!(vec_u32);
        one!(vec_u64);
        one!(vec_u128);
        one!(smallvec_u32);
        let mut s: EnumSet<$e> = EnumSet::new();
        s.insert($x);
        let t = s.clone();
        probe!($out, $free, format!("EnumSet of {}", n), s.clone());
        probe!($out, $free, format!("EnumSet iterator over {}", n), s.iter());
        probe!($out, $free, format!("EnumSet &set iterator over {}", n), (&s).into_iter());
        probe!($out, $free, format!("union over {}", n), s.union(&t));
        probe!($out, $free, format!("intersection over {}", n), s.intersection(&t));
        probe!($out, $free, format!("difference over {}", n), s.difference(&t));
        probe!($out, $free, format!("symmetric difference over {}", n), s.symmetric_difference(&t));
        probe!($out, $free, format!("PackedU8 of {}", n), PackedU8::new($x));
        probe!($out, $free, format!("PackedU16 of {}", n), PackedU16::new($x));
        probe!($out, $free, format!("values() of {}", n), <$e as EnumValues>::values());
    }};
}

fn probes() -> Vec<Probed> {
    let mut out: Vec<Probed> = vec![];
    probe_all!(out, true, bool, true);
    probe_all!(out, true, El<100>, El::<100>(70));
    probe_all!(out, true, Option<(bool, bool)>, Some((true, false)));
    probe_all!(out, false, Bound, Bound(true, PhantomData));
    probe_all!(out, false, Option<Bound>, None::<Bound>);
    out
}

// ------------------------------------------------------------------------------- readers

/// numbers the events of all threads, without ordering anything else
static TICKET: AtomicU64 = AtomicU64::new(0);

/// What one thread did: what each step returned and when it began
#[derive(Default)]
struct Log {
    out: Vec<(&'static str, u64)>,
    at: Vec<u64>,
    ticks: bool,
}
impl Log {
    fn new(ticks: bool) -> Log {
        Log { out: vec![], at: vec![], ticks }
    }
    fn step(&mut self, what: &'static str, f: impl FnOnce() -> u64) {
        if self.ticks {
            self.at.push(TICKET.fetch_add(1, Relaxed));
        }
        let r = caught(f).unwrap_or(0xdead_0000_dead);
        self.out.push((what, r));
    }
}

fn fold(it: impl IntoIterator<Item = u64>) -> u64 {
    let mut a = Acc::new();
    for x in it {
        a.add(x);
    }
    a.0
}
fn text(s: &str) -> u64 {
    fold(s.bytes().map(|b| b as u64))
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn opt(x: Option<u64>) -> u64 {
    match x {
        None => 1,
        Some(x) => mix(x) | 2,
    }
}

trait Subject {
    fn name(&self) -> &'static str;
    fn size(&self) -> u64;
    /// `n` read operations chosen by `rng`, or `n` times operation `op` on operands chosen by it
    fn read(&self, rng: &mut Rng, n: usize, op: Option<u64>, log: &mut Log);
}

struct Vecs(hist::Regs, Vec<u64>);

impl Subject for Vecs {
    fn name(&self) -> &'static str {
        self.0[0].info().storage
    }
    fn size(&self) -> u64 {
        fold(self.0.iter().map(|v| fold(v.to_vec())))
    }
    fn read(&self, rng: &mut Rng, n: usize, op: Option<u64>, log: &mut Log) {
        for _ in 0..n {
            let v = &self.0[rng.below(3) as usize];
            let w = &self.0[rng.below(3) as usize];
            let pal = *rng.pick(&self.1);
            let (a, b) = (rng.next(), rng.next());
            let i = (a % (v.len() as u64 + 2)) as usize;
            match op.map_or_else(|| rng.below(17), |x| x % 17) {
                0 => log.step("get", || opt(v.get(i))),
                1 => log.step("get of every element", || fold((0..v.len()).map(|i| opt(v.get(i))))),
                2 => log.step("any", || v.any(pal) as u64),
                3 => log.step("all", || v.all(pal) as u64),
                4 => log.step("to_vec", || fold(v.to_vec())),
                5 => log.step("len, is_empty, capacity", || fold([v.len() as u64, v.is_empty() as u64, v.capacity() as u64])),
                6 => log.step("==", || v.eq(&**w) as u64),
                7 => log.step("!=", || v.ne(&**w) as u64),
                8 => log.step("hash", || v.hash_sip() ^ v.hash_bytes()),
                9 => log.step("Debug", || text(&v.debug())),
                10 => log.step("iteration", || fold(DI(v.iter()))),
                11 => log.step("backward iteration", || fold(DI(v.ref_into_iter()).rev())),
                12 => log.step("mixed iteration", || {
                    let mut it = v.iter();
                    let mut a = Acc::new();
                    let mut bits = b;
                    for _ in 0..12 {
                        a.add(it.len() as u64);
                        a.add(opt(match bits % 4 {
                            0 => it.next(),
                            1 => it.next_back(),
                            2 => it.nth(1),
                            _ => it.nth_back(2),
                        }));
                        bits /= 4;
                    }
                    a.0
                }),
                13 => log.step("clone, then edit the clone", || {
                    let mut c = v.dup();
                    c.push(pal);
                    if c.len() > 1 {
                        let n = c.len();
                        c.swap(0, n - 1);
                        c.set(n - 2, pal);
                        c.truncate(n - 1);
                    }
                    fold(c.to_vec())
                }),
                14 => log.step("storage", || fold((0..v.storage_len()).map(|i| v.block(i) as u64))),
                15 => log.step("raw get", || fold((0..v.len()).map(|i| unsafe { v.raw_get(i) } as u64))),
                _ => log.step("clone by value iteration", || fold(DI(v.dup().into_iter()))),
            }
        }
    }
}

struct Sets<E: Elem + Ord + Hash>(Vec<EnumSet<E>>, Vec<u64>);

impl<E: Elem + Ord + Hash> Subject for Sets<E> {
    fn name(&self) -> &'static str {
        "set"
    }
    fn size(&self) -> u64 {
        fold(self.0.iter().map(|v| fold(v.iter().map(|x| x.id()))))
    }
    fn read(&self, rng: &mut Rng, n: usize, op: Option<u64>, log: &mut Log) {
        fn f<E: Elem>(it: impl Iterator<Item = E>) -> u64 {
            fold(it.map(|x| x.id()))
        }
        for _ in 0..n {
            let s = rng.pick(&self.0);
            let t = rng.pick(&self.0);
            let x = *rng.pick(&self.1);
            match op.map_or_else(|| rng.below(16), |x| x % 16) {
                0 => log.step("contains", || s.contains(E::mk(x)) as u64),
                1 => log.step("contains of every candidate", || fold(self.1.iter().map(|x| s.contains(E::mk(*x)) as u64))),
                2 => log.step("len, is_empty", || fold([s.len() as u64, s.is_empty() as u64])),
                3 => log.step("iteration", || f(s.iter())),
                4 => log.step("union", || f(s.union(t))),
                5 => log.step("intersection", || f(s.intersection(t))),
                6 => log.step("difference", || f(s.difference(t))),
                7 => log.step("symmetric difference", || f(s.symmetric_difference(t))),
                8 => log.step("relations", || fold([s.is_subset(t) as u64, s.is_superset(t) as u64, s.is_disjoint(t) as u64])),
                9 => log.step("==", || (s == t) as u64),
                10 => log.step("order", || s.cmp(t) as i8 as u64),
                11 => log.step("hash", || hash(s)),
                12 => log.step("Debug", || text(&format!("{:?}", s))),
                13 => log.step("clone, then edit the clone", || {
                    let mut c = s.clone();
                    c.insert(E::mk(x));
                    c.symmetric_difference_with(t);
                    c.remove(E::mk(x));
                    c.shrink_to_fit();
                    f(c.iter())
                }),
                14 => log.step("bit set", || fold(s.get_ref().iter().map(|x| x as u64))),
                _ => log.step("&set iteration", || f(s.into_iter())),
            }
        }
    }
}

struct Small<E: Elem>(enum_like::Values<E>, Vec<PackedU8<E>>, Vec<PackedU16<E>>);

impl<E: Elem + Ord + Hash> Subject for Small<E> {
    fn name(&self) -> &'static str {
        "values and packed"
    }
    fn size(&self) -> u64 {
        E::K ^ self.0.len() as u64
    }
    fn read(&self, rng: &mut Rng, n: usize, op: Option<u64>, log: &mut Log) {
        for _ in 0..n {
            let i = rng.below(self.1.len() as u64) as usize;
            let j = rng.below(self.1.len() as u64) as usize;
            match op.map_or_else(|| rng.below(6), |x| x % 6) {
                0 => log.step("values length", || fold([self.0.len() as u64, self.0.size_hint().0 as u64])),
                1 => log.step("values iteration", || fold(self.0.map(|x| x.id()))),
                2 => log.step("new values iteration", || fold(E::values().map(|x| x.id()))),
                3 => log.step("unpacked", || fold([self.1[i].get().id(), self.2[j].get().id()])),
                4 => log.step("packed comparison", || fold([(self.1[i] == self.1[j]) as u64, self.2[i].cmp(&self.2[j]) as i8 as u64])),
                _ => log.step("packed hash", || fold([hash(&self.1[i]), hash(&self.2[j])])),
            }
        }
    }
}

/// Moves a reference into another thread whatever the type says; what it may say is judged by the
/// probes, what happens then by the comparison and the sanitizers.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

fn wait(gate: &AtomicUsize, n: usize) {
    gate.fetch_add(1, AcqRel);
    while gate.load(Acquire) < n {
        if cfg!(miri) {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

/// one thread after another instead of together: the account to compare with
fn solo<R: Send>(f: &(dyn Fn(usize) -> R + Sync), n: usize) -> Vec<R> {
    (0..n).map(|t| f(t)).collect()
}
fn together<R: Send>(f: &(dyn Fn(usize) -> R + Sync), n: usize) -> Vec<R> {
    let gate = AtomicUsize::new(0);
    let gate = &gate;
    std::thread::scope(|s| {
        let h: Vec<_> = (0..n)
            .map(|t| {
                s.spawn(move || {
                    wait(gate, n);
                    Share(f(t))
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().expect("reader").0).collect()
    })
}

/// first difference between what the threads saw and what one reader sees
fn differ(a: &[Log], b: &[Log]) -> Option<String> {
    for (t, (x, y)) in a.iter().zip(b).enumerate() {
        for (i, (p, q)) in x.out.iter().zip(&y.out).enumerate() {
            if p != q {
                return Some(format!("thread {}, step {}: {} gave another result than when it runs alone", t, i, p.0));
            }
        }
        if x.out.len() != y.out.len() {
            return Some(format!("thread {} did {} steps instead of {}", t, y.out.len(), x.out.len()));
        }
    }
    None
}

/// (identity of the interleaving, number of changes between threads)
fn interleaving(logs: &[Log]) -> (u64, u64) {
    let mut ev: Vec<(u64, u64)> = vec![];
    for (t, l) in logs.iter().enumerate() {
        ev.extend(l.at.iter().map(|x| (*x, t as u64)));
    }
    ev.sort();
    let switches = ev.windows(2).filter(|w| w[0].1 != w[1].1).count() as u64;
    (fold(ev.iter().map(|x| x.1)), switches)
}

fn make_vecs(rng: &mut Rng, combos: &[Mk], tiny: bool) -> Option<(Vecs, hist::Profile)> {
    let mk = *rng.pick(combos);
    let mut regs = hist::regs(mk);
    let info = regs[0].info();
    let prof = hist::profile(rng, &info, tiny);
    let n = if tiny { rng.range(2, 6) } else { rng.range(4, 40) } as usize;
    let ops = hist::gen_ops(rng, &hist::weights(), n);
    for op in &ops {
        let lens = [regs[0].len(), regs[1].len(), regs[2].len()];
        let res = prof.resolve(op, &lens);
        if let hist::Ret::Panic(_) = hist::run_real(&res, &mut regs, info.k) {
            return None;
        }
    }
    if rng.chance(1, 2) {
        // equal contents, so that comparisons have to look at all of it
        regs[1] = regs[0].dup();
    }
    let mut pal = prof.pal.clone();
    for v in &regs {
        let c = caught(|| v.to_vec()).ok()?;
        pal.extend(c.iter().take(3).chain(c.last()));
    }
    Some((Vecs(regs, pal), prof))
}

fn make_sets<E: Elem + Ord + Hash>(rng: &mut Rng, tiny: bool) -> Sets<E> {
    let n = if tiny { 5 } else { 24 };
    let cand: Vec<u64> = (0..n)
        .map(|_| match rng.below(4) {
            0 => rng.below(E::K.min(70)),
            1 => E::K - 1 - rng.below(E::K.min(40)),
            2 => (rng.below(E::K / 32 + 1) * 32 + rng.below(3)).saturating_sub(1) % E::K.min(1 << 16),
            _ => rng.below(E::K.min(1 << 16)),
        } % if tiny { 200 } else { u64::MAX })
        .collect();
    let sets = (0..3)
        .map(|_| {
            let p = rng.next() | rng.next();
            let mut s: EnumSet<E> = cand.iter().enumerate().filter(|(i, _)| p >> (i % 64) & 1 == 1).map(|x| E::mk(*x.1)).collect();
            for x in &cand {
                if rng.chance(1, 8) {
                    s.remove(E::mk(*x));
                }
            }
            s
        })
        .collect();
    Sets(sets, cand)
}

fn make_small<E: Elem>(rng: &mut Rng) -> Small<E> {
    let mut v = E::values();
    for _ in 0..rng.below(4) {
        v.next();
    }
    let xs: Vec<u64> = (0..6).map(|_| rng.below(E::K)).collect();
    Small(v, xs.iter().map(|x| PackedU8::new(E::mk(*x))).collect(), xs.iter().map(|x| PackedU16::new(E::mk(*x))).collect())
}

fn subject(rng: &mut Rng, combos: &[Mk], tiny: bool) -> Option<Box<dyn Subject>> {
    Some(match rng.below(if combos.is_empty() { 5 } else { 9 }) {
        0 => Box::new(make_sets::<El<2>>(rng, tiny)),
        1 => Box::new(make_sets::<El<33>>(rng, tiny)),
        2 => Box::new(make_sets::<El<5000>>(rng, tiny)),
        3 => Box::new(make_sets::<Rev<100>>(rng, tiny)),
        4 => {
            if rng.chance(1, 2) {
                Box::new(make_small::<El<17>>(rng))
            } else {
                Box::new(make_small::<Rev<9>>(rng))
            }
        }
        _ => Box::new(make_vecs(rng, combos, tiny)?.0),
    })
}

// ------------------------------------------------------------------------------ travellers

/// A container that goes from thread to thread and is edited on the way
trait Traveller {
    fn stage(&mut self, stage: usize, log: &mut Log);
}

struct VecTrip {
    regs: hist::Regs,
    iter: Option<Box<dyn DynIter>>,
    prof: hist::Profile,
    ops: Vec<Vec<hist::Op>>,
    k: u64,
}
impl Traveller for VecTrip {
    fn stage(&mut self, stage: usize, log: &mut Log) {
        for op in &self.ops[stage] {
            let lens = [self.regs[0].len(), self.regs[1].len(), self.regs[2].len()];
            let res = self.prof.resolve(op, &lens);
            let (regs, k) = (&mut self.regs, self.k);
            log.step("an operation on a vector that came from another thread", || match hist::run_real(&res, regs, k) {
                hist::Ret::Unit => 5,
                hist::Ret::Val(x) => mix(x),
                hist::Ret::Opt(x) => opt(x),
                hist::Ret::List(v) => fold(v),
                hist::Ret::Panic(_) => 6,
            });
        }
        let regs = &self.regs;
        log.step("contents of a vector that came from another thread", || fold(regs.iter().flat_map(|v| hist::observe(&**v).unwrap_or_default())));
        let it = &mut self.iter;
        let v = &self.regs[0];
        log.step("an iterator that came from another thread", || match it {
            Some(i) => {
                let r = fold([opt(i.next()), i.len() as u64, opt(i.next_back())]);
                if i.len() == 0 {
                    *it = None;
                }
                r
            }
            None => {
                *it = Some(v.dup().into_iter());
                9
            }
        });
    }
}

struct SetTrip<E: Elem + Ord + Hash> {
    sets: Sets<E>,
    script: Vec<Vec<(u64, u64)>>,
}
impl<E: Elem + Ord + Hash> Traveller for SetTrip<E> {
    fn stage(&mut self, stage: usize, log: &mut Log) {
        for (a, b) in &self.script[stage] {
            let x = self.sets.1[(*b % self.sets.1.len() as u64) as usize];
            let t = self.sets.0[((b >> 20) % 3) as usize].clone();
            let s = &mut self.sets.0[((b >> 24) % 3) as usize];
            log.step("an operation on a set that came from another thread", || {
                match a % 9 {
                    0 | 1 => return s.insert(E::mk(x)) as u64,
                    2 | 3 => return s.remove(E::mk(x)) as u64,
                    4 => s.union_with(&t),
                    5 => s.intersect_with(&t),
                    6 => s.difference_with(&t),
                    7 => s.symmetric_difference_with(&t),
                    _ => s.shrink_to_fit(),
                }
                7
            });
        }
        let sets = &self.sets.0;
        log.step("contents of a set that came from another thread", || fold(sets.iter().map(|s| fold(s.iter().map(|x| x.id())) ^ s.len() as u64)));
    }
}

fn traveller(rng: &mut Rng, combos: &[Mk], tiny: bool, stages: usize) -> Option<Box<dyn Traveller>> {
    let n = if tiny { 2 } else { 6 };
    Some(match rng.below(4) {
        0 => {
            let script = |rng: &mut Rng| (0..stages).map(|_| (0..n).map(|_| (rng.next(), rng.next())).collect()).collect();
            if rng.chance(1, 2) {
                let script = script(rng);
                Box::new(SetTrip { sets: make_sets::<El<5000>>(rng, tiny), script })
            } else {
                let script = script(rng);
                Box::new(SetTrip { sets: make_sets::<Rev<100>>(rng, tiny), script })
            }
        }
        _ => {
            let (v, prof) = make_vecs(rng, combos, tiny)?;
            let k = v.0[0].info().k;
            let ops = (0..stages).map(|_| hist::gen_ops(rng, &hist::weights(), n)).collect();
            Box::new(VecTrip { regs: v.0, iter: None, prof, ops, k })
        }
    })
}

type Slot = Mutex<Share<Box<dyn Traveller>>>;

/// in each stage thread t handles traveller (t + stage) mod n
fn trip_thread(slots: &[Slot], t: usize, stages: usize, ticks: bool, step: Option<&std::sync::Barrier>) -> Vec<(usize, usize, Log)> {
    let n = slots.len();
    let mut out = vec![];
    for s in 0..stages {
        let i = (t + s) % n;
        let mut log = Log::new(ticks);
        slots[i].lock().unwrap().0.stage(s, &mut log);
        out.push((i, s, log));
        if let Some(b) = step {
            b.wait();
        }
    }
    out
}

// ------------------------------------------------------------------------------------ main

/// The same operation over and over, on all threads, on one container or on one for each: most of
/// the time two threads are inside it at once.
fn hammer(rng: &mut Rng, args: &Args, case: u64, n: usize, combos: &[Mk], first: Box<dyn Subject>, op: u64, rep: &mut Report) -> Option<String> {
    let tiny = args.tiny;
    let what = first.name();
    let mut all = vec![first];
    if rng.chance(1, 2) {
        // one each, of the same storage but mostly of other element types and contents
        for _ in 1..n {
            let mut tries = 0;
            all.push(loop {
                tries += 1;
                match subject(rng, combos, tiny) {
                    Some(s) if s.name() == what || tries > 40 => break s,
                    None if tries > 80 => return None,
                    _ => continue,
                }
            });
        }
    }
    let own = all.len() > 1;
    let (all, seed) = (Share(all), args.seed);
    let all = &all;
    let scripts = 1 + rng.below(3);
    let rounds = if tiny { 4 } else { 100_000 };
    let run = |rounds: usize| {
        move |t: usize| {
            let all: &Share<Vec<Box<dyn Subject>>> = all;
            let s = &all.0[if own { t } else { 0 }];
            let mut log = Log::new(false);
            let t0 = std::time::Instant::now();
            let mut k = 0;
            // outcome of each script, and how often it was something else
            let mut outs: Vec<Log> = vec![];
            let mut off = 0u64;
            while k < rounds && (tiny || k < 8 || t0.elapsed().as_millis() < 5) {
                for i in 0..scripts {
                    log.out.clear();
                    s.read(&mut Rng::new(seed ^ t as u64, 2410 + i, case), 1, Some(op), &mut log);
                    match outs.get(i as usize) {
                        None => outs.push(std::mem::replace(&mut log, Log::new(false))),
                        Some(o) if o.out == log.out => {}
                        _ => off += 1,
                    }
                }
                k += 1;
            }
            (outs, off, k as u64 * scripts)
        }
    };
    let early = rng.chance(1, 2);
    let mut many = if early { Some(together(&run(rounds), n)) } else { None };
    let one = solo(&run(1), n);
    STEP.fetch_add(1, Relaxed);
    let many = many.take().unwrap_or_else(|| together(&run(rounds), n));
    let total: u64 = many.iter().map(|x| x.2).sum();
    rep.evaluations += total;
    rep.count(if own { "repeated reads of a container for each thread" } else { "repeated reads of one container" }, total);
    let mut a = Acc::new();
    for x in &many {
        for l in &x.0 {
            a.add(l.out.first().map_or(0, |o| o.1));
        }
    }
    rep.distinct.insert(a.0);
    for (t, (x, y)) in one.iter().zip(&many).enumerate() {
        if let Some(m) = differ(&x.0, &y.0) {
            return Some(format!("{} repeated by {} threads: {}", what, n, m));
        }
        if y.1 > 0 {
            return Some(format!("{} repeated by {} threads: {} of {} identical reads ({}) by thread {} gave another result", what, n, y.1, y.2, x.0[0].out[0].0, t));
        }
    }
    None
}

/// What one thread does to containers of its own, from the same start each time.
struct Worker {
    regs: hist::Regs,
    prof: hist::Profile,
    ops: Vec<hist::Op>,
    k: u64,
}
impl Worker {
    fn new(rng: &mut Rng, combos: &[Mk], tiny: bool, code: hist::Code) -> Option<Worker> {
        let (v, prof) = make_vecs(rng, combos, tiny)?;
        let k = v.0[0].info().k;
        let mut w = hist::weights();
        hist::boost(&mut w, |c| if c == code { 1000 } else { 1 });
        let n = if rng.chance(2, 3) { 1 } else { 3 };
        let ops = hist::gen_ops(rng, &w, n);
        let mut regs = v.0;
        if rng.chance(1, 2) {
            // from nothing: most of the time goes into the operation
            let none = || regs[0].mk_slice(&[]);
            regs = [none(), none(), none()];
        }
        Some(Worker { regs, prof, ops, k })
    }
}
/// A short history that can be repeated from the same start
trait Repeat {
    /// the returns of the operations and the contents they leave; None if one panics
    fn once(&self) -> Option<u64>;
    fn about(&self) -> String;
}
impl<E: Elem + Ord + Hash> Repeat for SetTrip<E> {
    fn once(&self) -> Option<u64> {
        let mut t = SetTrip { sets: Sets(self.sets.0.clone(), self.sets.1.clone()), script: vec![self.script[0].clone()] };
        let mut log = Log::new(false);
        t.stage(0, &mut log);
        let more: EnumSet<E> = self.sets.1.iter().map(|x| E::mk(*x)).collect();
        Some(fold(log.out.iter().map(|o| o.1).chain([fold(more.iter().map(|x| x.id()))])))
    }
    fn about(&self) -> String {
        "sets".into()
    }
}
impl Repeat for Worker {
    fn about(&self) -> String {
        format!("vectors of {} blocks: {}", self.regs[0].info().storage, self.ops.iter().map(|o| format!("{:?}", o.code)).collect::<Vec<_>>().join(", "))
    }
    fn once(&self) -> Option<u64> {
        let mut regs: hist::Regs = [self.regs[0].dup(), self.regs[1].dup(), self.regs[2].dup()];
        let mut a = Acc::new();
        for op in &self.ops {
            let res = self.prof.resolve(op, &[regs[0].len(), regs[1].len(), regs[2].len()]);
            a.add(match hist::run_real(&res, &mut regs, self.k) {
                hist::Ret::Unit => 5,
                hist::Ret::Val(x) => mix(x),
                hist::Ret::Opt(x) => opt(x),
                hist::Ret::List(v) => fold(v),
                hist::Ret::Panic(_) => return None,
            });
            for r in hist::touched(&res) {
                a.add(fold(caught(|| regs[r].to_vec()).ok()?));
            }
        }
        Some(a.0)
    }
}

/// Threads that each do the same few operations to vectors of their own, over and over: whatever they
/// share behind the scenes is used by two at once most of the time.
fn workers(args: &Args, case: u64, n: usize, combos: &[Mk], code: hist::Code, rep: &mut Report) -> Option<String> {
    let same = Rng::new(args.seed, 2450, case).chance(1, 5);
    let mut all: Vec<Box<dyn Repeat>> = vec![];
    for t in 0..n as u64 {
        let mut rng = Rng::new(args.seed ^ if same { 0 } else { t + 1 }, 2451, case);
        if combos.is_empty() {
            let script: Vec<Vec<(u64, u64)>> = vec![(0..4).map(|_| (rng.next(), rng.next())).collect()];
            all.push(match rng.below(3) {
                0 => Box::new(SetTrip { sets: make_sets::<El<5000>>(&mut rng, args.tiny), script }),
                1 => Box::new(SetTrip { sets: make_sets::<El<33>>(&mut rng, args.tiny), script }),
                _ => Box::new(SetTrip { sets: make_sets::<Rev<100>>(&mut rng, args.tiny), script }),
            });
        } else {
            all.push((0..20).find_map(|_| Worker::new(&mut rng, combos, args.tiny, code).filter(|w| w.once().is_some())).map(Box::new)?);
        }
    }
    STEP.fetch_add(1, Relaxed);
    let want: Vec<Option<u64>> = all.iter().map(|w| w.once()).collect();
    let all = Share(all);
    let (all, tiny) = (&all, args.tiny);
    let go = move |t: usize| {
        let all: &Share<Vec<Box<dyn Repeat>>> = all;
        let w = &all.0[t];
        let (mut first, mut off, mut k) = (None, 0u64, 0u64);
        let t0 = std::time::Instant::now();
        while if tiny { k < 3 } else { k < 8 || t0.elapsed().as_millis() < 12 } {
            let x = w.once();
            let f = *first.get_or_insert(x);
            off += (f != x) as u64;
            k += 1;
        }
        (first.unwrap(), off, k)
    };
    let many = together(&go, n);
    STEP.fetch_add(1, Relaxed);
    let total: u64 = many.iter().map(|x| x.2).sum();
    rep.evaluations += total;
    rep.count(if combos.is_empty() { "short histories repeated by threads on sets of their own" } else { "short histories repeated by threads on vectors of their own" }, total);
    rep.distinct.insert(fold(want.iter().map(|x| x.unwrap_or(1))));
    for (t, m) in many.iter().enumerate() {
        if m.0 != want[t] || m.1 > 0 {
            return Some(format!("{} threads, each with containers of its own ({}): {} of {} runs by thread {} ended otherwise than alone", n, all.0[t].about(), m.1.max(1), m.2, t));
        }
    }
    None
}

fn main() {
    if std::env::args().any(|x| x == "--noop") {
        return;
    }
    let args = Args::parse();
    let mut rep = Report::new(args.clone());
    watchdog(40);
    alloc::set_cap(1 << 30);
    let tiny = args.tiny;
    let combos = if tiny { tiny_combos() } else { core_combos() };
    let storages: Vec<&'static str> = combos.iter().map(|mk| mk().info().storage).collect();
    // every read operation on every container in turn, by all threads at once
    let sweep = args.extra.get("part").map_or(false, |x| x == "hammer");
    guard(move || {
        SCOPE.store(1, Relaxed);
        for (name, free, send, sync) in probes() {
            rep.evaluations += 2;
            rep.count("Send and Sync observed", 2);
            rep.distinct.insert(text(&name));
            let what = match (free, send, sync) {
                (true, false, _) => "may not be sent though its element type may",
                (true, _, false) => "may not be shared though its element type may",
                (false, true, _) => "may be sent though its element type may not",
                (false, _, true) => "may be shared though its element type may not",
                _ => continue,
            };
            rep.violation(0, &format!("{}: {}", name, what), &[]);
        }
        let mut last = 0;
        for case in args.cases() {
            if rep.out_of_time() {
                break;
            }
            last = case;
            CASE.store(case, Relaxed);
            let mut rng = Rng::new(args.seed, 24, case);
            let n = if tiny { rng.range(2, 3) } else { rng.range(2, 6) } as usize;
            let ticks = rng.chance(1, 2) || tiny;
            if sweep && case % 2 == 1 || !sweep && rng.chance(1, 8) {
                let (w, codes) = (if sweep { case / 2 } else { rng.next() >> 8 }, hist::weights());
                let storage = ["u8", "u16", "u32", "u64", "u128", "small", "set"][(w % 7) as usize];
                let own: Vec<Mk> = combos.iter().zip(&storages).filter(|x| *x.1 == storage).map(|x| *x.0).collect();
                let code = codes[(w / 7) as usize % codes.len()].0;
                match workers(&args, case, n.max(2), &own, code, &mut rep) {
                    Some(m) => rep.violation(case, &m, &[format!("case {}", case)]),
                    None => (),
                }
                continue;
            }
            let case_id = if sweep { case / 2 } else { case };
            if !sweep && rng.chance(1, 3) {
                let stages = if tiny { 2 } else { 4 };
                let mk = || -> Option<Vec<Slot>> {
                    let mut r = Rng::new(args.seed, 2401, case);
                    let kind = r.next();
                    (0..n as u64)
                        .map(|i| {
                            // half of the cases: the same contents on every thread
                            let mut r = Rng::new(args.seed ^ if kind & 1 == 0 { 0 } else { i }, 2402, case);
                            traveller(&mut r, &combos, tiny, stages).map(|t| Mutex::new(Share(t)))
                        })
                        .collect()
                };
                let (Some(a), Some(b)) = (mk(), mk()) else {
                    rep.count("cases given up", 1);
                    continue;
                };
                let order = |v: Vec<(usize, usize, Log)>| {
                    let mut v = v;
                    v.sort_by_key(|x| (x.0, x.1));
                    v.into_iter().map(|x| x.2).collect::<Vec<Log>>()
                };
                // alone: stage by stage on this thread
                let mut one = vec![];
                for s in 0..stages {
                    for i in 0..n {
                        let mut log = Log::new(false);
                        a[i].lock().unwrap().0.stage(s, &mut log);
                        one.push((i, s, log));
                    }
                }
                STEP.fetch_add(1, Relaxed);
                let bar = std::sync::Barrier::new(n);
                let slots = Share(b);
                let go = |t: usize| {
                    let s: &Share<Vec<Slot>> = &slots;
                    trip_thread(&s.0, t, stages, ticks, Some(&bar))
                };
                let many: Vec<(usize, usize, Log)> = together(&go, n).into_iter().flatten().collect();
                let (one, many) = (order(one), order(many));
                let steps: u64 = many.iter().map(|x| x.out.len() as u64).sum();
                rep.evaluations += steps;
                rep.count("steps on containers that travel between threads", steps);
                let mut a = Acc::new();
                for l in &many {
                    for o in &l.out {
                        a.add(o.1);
                    }
                }
                rep.distinct.insert(a.0);
                if let Some(m) = differ(&one, &many) {
                    rep.violation(case, &m, &[format!("{} threads, {} stages, case {}", n, stages, case)]);
                }
                continue;
            }
            if sweep || rng.chance(1, if tiny { 6 } else { 4 }) {
                let (mut op, mut first) = (rng.next(), None);
                if sweep {
                    let (k, what) = (case_id % 8, case_id / 8);
                    op = what % 17;
                    first = if k < 6 {
                        let own: Vec<Mk> = combos.iter().zip(&storages).filter(|x| *x.1 == ["u8", "u16", "u32", "u64", "u128", "small"][k as usize]).map(|x| *x.0).collect();
                        make_vecs(&mut rng, &own, tiny).map(|x| Box::new(x.0) as Box<dyn Subject>)
                    } else {
                        subject(&mut rng, &[], tiny)
                    };
                }
                let Some(first) = first.or_else(|| subject(&mut rng, &combos, tiny)) else {
                    rep.count("cases given up", 1);
                    continue;
                };
                if let Some(m) = hammer(&mut rng, &args, case, n, &combos, first, op, &mut rep) {
                    rep.violation(case, &m, &[format!("{} threads repeating operation {}, case {}", n, op, case)]);
                }
                continue;
            }
            let Some(s) = subject(&mut rng, &combos, tiny) else {
                rep.count("cases given up", 1);
                continue;
            };
            let steps = if tiny { rng.range(2, 5) } else { rng.range(10, 60) } as usize;
            let shared = Share(s);
            let shared = &shared;
            let seed = args.seed;
            let reader = |ticks: bool| {
                move |t: usize| {
                    let sh: &Share<Box<dyn Subject>> = shared;
                    let mut log = Log::new(ticks);
                    sh.0.read(&mut Rng::new(seed ^ t as u64, 2403, case), steps, None, &mut log);
                    log
                }
            };
            // under an interpreter the threads come first: a single reader may hide a first-use race
            let early = rng.chance(1, 2);
            let mut many = if early { Some(together(&reader(ticks), n)) } else { None };
            let one = solo(&reader(false), n);
            STEP.fetch_add(1, Relaxed);
            let rounds = if tiny { 1 } else { 4 };
            for round in 0..rounds {
                let logs = many.take().unwrap_or_else(|| together(&reader(ticks), n));
                STEP.fetch_add(1, Relaxed);
                let total: u64 = logs.iter().map(|x| x.out.len() as u64).sum();
                rep.evaluations += total;
                rep.count(&format!("reads of a shared {}", shared.0.name()), total);
                if ticks {
                    let (id, sw) = interleaving(&logs);
                    rep.count("rounds recorded", 1);
                    rep.count("changes between threads recorded", sw);
                    if sw >= n as u64 {
                        rep.count("rounds with overlap", 1);
                    }
                    if sw > 0 {
                        rep.distinct.insert(id ^ shared.0.size());
                    }
                    if sw as usize > n && round == 0 {
                        rep.sample(|| format!("case {}: {} threads, {} reads of a {}, {} changes between threads", case, n, total, shared.0.name(), sw));
                    }
                }
                if let Some(m) = differ(&one, &logs) {
                    rep.violation(case, &format!("{} shared by {} threads: {}", shared.0.name(), n, m), &[format!("case {}, round {}, {} reads per thread", case, round, steps)]);
                }
            }
        }
        rep.done(last)
    })
}
