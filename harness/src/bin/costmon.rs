//! C26: how much work operations do. Runs under callgrind, which counts the instructions between
//! two client requests; each measurement is one dump, joined by its number with the `@@M` line
//! printed here. The driver compares the counts at different lengths.
use enum_like::{EnumLike, EnumValues};
use enum_set2::EnumSet;
use evmon::alloc;
use evmon::dynvec::*;
use evmon::el::El;
use evmon::hist::HintIter;
use evmon::report::Args;
use evmon::rng::Rng;
use std::cell::Cell;

/// a valgrind client request; does nothing outside valgrind
fn request(code: u64, arg: u64) {
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    unsafe {
        let args: [u64; 6] = [code, arg, 0, 0, 0, 0];
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") 0u64 => _, inout("rdi") 0u64 => _,
        );
    }
}
const CT: u64 = (b'C' as u64) << 24 | (b'T' as u64) << 16;

thread_local! {
    static NUM: Cell<u64> = const { Cell::new(0) };
    static SINK: Cell<u64> = const { Cell::new(0) };
}

/// What is being measured, for the timer below.
#[derive(Clone, Copy)]
struct Now {
    id: u64,
    kind: &'static str,
    who: (*const u8, usize),
    op: (*const u8, usize),
    n: u64,
    units: u64,
    bytes: u64,
    since: u64,
    total: (u64, u64),
}
thread_local! {
    static NOW: Cell<Option<Now>> = const { Cell::new(None) };
    /// the same for the whole run
    static ALL: Cell<u64> = const { Cell::new(0) };
    static SECONDS: Cell<u64> = const { Cell::new(0) };
}
/// CPU seconds (under callgrind) after which one measurement is cut short, and with it the run. The
/// unchanged code needs less than two for any measurement.
const ONE: u64 = 25;

/// a row of the result; no allocation, since the timer calls it
fn row(out: &mut impl std::io::Write, x: &Now) {
    let s = |p: (*const u8, usize)| unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p.0, p.1)) };
    let (a1, t1) = alloc::total();
    let _ = writeln!(out, "@@M {}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", x.id, x.kind, s(x.who), s(x.op), x.n, x.units, x.bytes, a1 - x.total.0, t1 - x.total.1);
}

#[cfg(not(miri))]
mod timer {
    use super::*;
    extern "C" {
        fn signal(n: i32, f: usize) -> usize;
        fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        fn _exit(code: i32) -> !;
    }
    extern "C" fn tick(_: i32) {
        let t = SECONDS.with(|x| {
            x.set(x.get() + 1);
            x.get()
        });
        let now = NOW.with(|x| x.get());
        if t < ALL.with(|x| x.get()) && now.map_or(true, |x| t - x.since < ONE) {
            return;
        }
        let mut buf = [0u8; 1024];
        let mut out = std::io::Cursor::new(&mut buf[..]);
        if let Some(x) = now {
            // what has been done so far is a lower bound of the work
            let mut label = [0u8; 24];
            let _ = std::io::Write::write_fmt(&mut &mut label[..23], format_args!("m{}", x.id));
            request(CT + 3, label.as_ptr() as u64);
            row(&mut out, &x);
        }
        let _ = std::io::Write::write_all(&mut out, b"@@END cut short\n");
        let n = out.position() as usize;
        unsafe {
            write(1, buf.as_ptr() as *const _, n);
            _exit(0)
        }
    }
    pub fn start(all: u64) {
        ALL.with(|x| x.set(all));
        unsafe {
            // SIGVTALRM, ITIMER_VIRTUAL
            signal(26, tick as extern "C" fn(i32) as usize);
            setitimer(1, &[1, 0, 1, 0], std::ptr::null_mut());
        }
    }
}

/// one measurement: `units` operations of kind `op` at size `n`; `bytes` is the packed size reached
fn measure<R>(kind: &'static str, who: &str, op: &str, n: u64, units: u64, bytes: u64, f: impl FnOnce() -> R) -> R {
    let id = NUM.with(|x| {
        x.set(x.get() + 1);
        x.get()
    });
    let label = format!("m{}\0", id);
    let now = Now {
        id,
        kind,
        who: (who.as_ptr(), who.len()),
        op: (op.as_ptr(), op.len()),
        n,
        units,
        bytes,
        since: SECONDS.with(|x| x.get()),
        total: alloc::total(),
    };
    NOW.with(|x| x.set(Some(now)));
    request(CT + 1, 0);
    let r = f();
    request(CT + 3, label.as_ptr() as u64);
    NOW.with(|x| x.set(None));
    row(&mut std::io::stdout(), &now);
    r
}
fn sink(x: u64) {
    SINK.with(|s| s.set(s.get().wrapping_add(x)));
}

const M: u64 = 96;

fn vec_combos(all: bool) -> Vec<Mk> {
    let mut v: Vec<Mk> = vec![
        v8::fresh::<El<2>>,
        v8::fresh::<El<100>>,
        v16::fresh::<El<5>>,
        v32::fresh::<El<2>>,
        v32::fresh::<El<10>>,
        vs::fresh::<El<2>>,
        vs::fresh::<El<70000>>,
        v64::fresh::<El<17>>,
        v64::fresh::<El<{ 1 << 32 }>>,
        v128::fresh::<El<2>>,
        v128::fresh::<El<{ u64::MAX }>>,
    ];
    if all {
        v.extend(core_combos());
    }
    v
}

fn vectors(mk: Mk, rng: &mut Rng, deep: bool) {
    let i = mk().info();
    let who = format!("{} of {} values", i.storage, i.k);
    let who = who.as_str();
    let k = i.k;
    let (x, y) = (rng.below(k), rng.below(k));
    let off = rng.below(200);

    // work that must not depend on the length
    for base in if deep { vec![1u64 << 9, 1 << 12, 1 << 16, 1 << 20] } else { vec![1u64 << 10, 1 << 15, 1 << 20] } {
        let n = base + off;
        for stale in [false, true] {
        let cu = |op: &str, units: u64, f: &mut dyn FnMut(&mut Box<dyn DynVec>, &[usize])| {
            let mut v = mk().mk_elem(x, n as usize);
            let after = format!("{}{}", op, if stale { ", with as many removed elements behind the end" } else { "" });
            if stale {
                v.resize(2 * n as usize, y);
                v.truncate(n as usize);
            }
            if !stale {
                v.reserve(4 * M as usize);
            }
            v.push(y);
            v.set(n as usize / 2, y);
            let mut r = Rng::new(off, 26, 1);
            let at: Vec<usize> = (0..M).map(|j| match j {
                0 => 0,
                1 => n as usize,
                _ => r.below(n - 2 * M) as usize,
            }).collect();
            measure("constant", who, &after, n, units, 0, || f(&mut v, &at));
        };
        let c = |op: &str, f: &mut dyn FnMut(&mut Box<dyn DynVec>, &[usize])| cu(op, M, f);
        let m = M as usize;
        c("push within capacity", &mut |v, _| for _ in 0..m { v.push(y) });
        c("pop", &mut |v, _| for _ in 0..m { sink(v.pop().unwrap_or(0)) });
        c("push then pop, again and again", &mut |v, _| for j in 0..m {
            // runs up and down, so that block edges are crossed many times
            if j % 12 < 6 { v.push(y) } else { sink(v.pop().unwrap_or(0)) }
        });
        c("get", &mut |v, at| for j in at { sink(v.get(*j).unwrap_or(0)) });
        c("get past the end", &mut |v, at| for j in at { sink(v.get(*j + n as usize * 2).is_some() as u64) });
        c("set", &mut |v, at| for j in at { v.set(*j, y) });
        c("swap", &mut |v, at| for j in 1..m { v.swap(at[j], at[j - 1]) });
        c("swap_remove", &mut |v, at| for j in at.iter().skip(2) { sink(v.swap_remove(*j)) });
        c("len and is_empty", &mut |v, _| for _ in 0..m { sink(v.len() as u64 + v.is_empty() as u64 + v.capacity() as u64) });
        c("nth of an iterator, skipping far", &mut |v, at| for j in at { sink(DI(v.iter()).nth(*j).unwrap_or(0)) });
        cu("nth of a by-value iterator, skipping far", 1, &mut |v, _| {
            let w = std::mem::replace(v, mk());
            sink(DI(w.into_iter()).nth(n as usize - 2).unwrap_or(0))
        });
        c("len of an iterator", &mut |v, at| for j in at {
            let mut it = DI(v.iter());
            sink(it.nth(*j).unwrap_or(0));
            sink((it.size_hint().0 + it.len()) as u64)
        });
        c("truncate by one, then push", &mut |v, _| for _ in 0..m {
            let l = v.len();
            v.truncate(l - 1);
            v.push(y);
        });
        cu("truncate to half, and so on", 8, &mut |v, _| for _ in 0..8 {
            let l = v.len();
            v.truncate(l / 2);
        });
        cu("truncate to nothing", 1, &mut |v, _| v.truncate(0));
        c("truncate to the same length", &mut |v, _| for _ in 0..m {
            let l = v.len();
            v.truncate(l);
        });
        }
    }

    // filling: work, number of allocations and bytes at most proportional to the final length
    for base in if deep { vec![1u64 << 9, 1 << 12, 1 << 15] } else { vec![1u64 << 10, 1 << 13] } {
        let n = base + off % 50;
        let len = n as usize;
        let vals: Vec<u64> = (0..n).map(|j| if j % 3 == 0 { x } else { y }).collect();
        let c = |op: &str, f: &mut dyn FnMut(&mut Box<dyn DynVec>)| {
            let mut v = mk();
            measure("fill", who, op, n, n, i.bytes(n), || f(&mut v));
            assert_eq!(v.len(), len, "{} {}", who, op);
        };
        c("push", &mut |v| for x in &vals { v.push(*x) });
        c("push after with_capacity", &mut |v| {
            *v = v.mk_cap(len);
            for x in &vals { v.push(*x) }
        });
        c("reserve(1) and push", &mut |v| for x in &vals { v.reserve(1); v.push(*x) });
        for hint in [0u8, 1, 2, 3, 4] {
            c(&format!("extend at once, hint mode {}", hint), &mut |v| v.extend(&mut HintIter::new(&vals, hint)));
            c(&format!("collect, hint mode {}", hint), &mut |v| *v = v.mk_iter(&mut HintIter::new(&vals, hint)));
        }
        c("extend by one", &mut |v| for x in &vals { v.extend(&mut std::iter::once(*x)) });
        c("extend by seven", &mut |v| for x in vals.chunks(7) { v.extend(&mut HintIter::new(x, 0)) });
        c("resize by one", &mut |v| for (j, x) in vals.iter().enumerate() { v.resize(j + 1, *x) });
        c("resize by nine", &mut |v| for (j, x) in vals.chunks(9).enumerate() { v.resize(j * 9 + x.len(), x[0]) });
        c("resize at once", &mut |v| v.resize(len, x));
        c("append of one", &mut |v| for x in &vals {
            let mut o = v.mk_elem(*x, 1);
            v.append(&mut *o);
        });
        c("append of eleven", &mut |v| for x in vals.chunks(11) {
            let mut o = v.mk_slice(x);
            v.append(&mut *o);
        });
        c("append of two halves", &mut |v| {
            let mut a = v.mk_slice(&vals[..len / 2]);
            let mut b = v.mk_slice(&vals[len / 2..]);
            v.append(&mut *a);
            v.append(&mut *b);
        });
        c("extend from a vector", &mut |v| {
            let a = v.mk_slice(&vals);
            v.extend_from(a);
        });
        c("from_slice", &mut |v| *v = v.mk_slice(&vals));
        c("from Vec", &mut |v| *v = v.mk_vec(&vals));
        c("from_elem", &mut |v| *v = v.mk_elem(x, len));
        c("enum_vec![x; n]", &mut |v| *v = v.mk_macro_fill(x, len));
        c("clone", &mut |v| *v = v.mk_slice(&vals).dup());
        c("into_iter and collect", &mut |v| *v = v.mk_slice(&vals).recollect());

        // one pass over the vector, at most
        let c = |op: &str, f: &mut dyn FnMut(Box<dyn DynVec>)| {
            let v = mk().mk_slice(&vals);
            measure("linear", who, op, n, n, i.bytes(n), || f(v));
        };
        let z = if x == y { (x + 1) % k } else { y };
        c("any", &mut |v| sink(v.any(z) as u64));
        c("all", &mut |v| sink(v.all(x) as u64));
        c("iteration", &mut |v| sink(DI(v.iter()).fold(0, |a, x| a ^ x)));
        c("backward iteration", &mut |v| sink(DI(v.iter()).rev().count() as u64));
        c("by-value iteration", &mut |v| sink(DI(v.into_iter()).count() as u64));
        c("iteration with len", &mut |v| {
            let mut it = v.iter();
            while it.len() > 0 {
                sink(it.next().unwrap_or(0));
            }
        });
        c("stepping by nth(1)", &mut |v| {
            let mut it = v.iter();
            while let Some(x) = it.nth(1) {
                sink(x);
            }
        });
        c("to_vec", &mut |v| sink(v.to_vec().len() as u64));
        c("into Vec", &mut |v| sink(v.into_vec().len() as u64));
        c("== of equals", &mut |v| {
            let w = v.mk_slice(&vals);
            sink(v.eq(&*w) as u64);
        });
        c("hash", &mut |v| sink(v.hash_sip() % 2));
        c("retain all", &mut |mut v| v.retain(&mut |_| true));
        c("retain none", &mut |mut v| v.retain(&mut |_| false));
        c("retain every other", &mut |mut v| {
            let mut b = false;
            v.retain(&mut |_| {
                b = !b;
                b
            })
        });
        c("for_each", &mut |mut v| v.for_each(&mut |_| y));
        c("insert at the front", &mut |mut v| v.insert(0, x));
        c("insert in the middle", &mut |mut v| v.insert(len / 2 + 1, x));
        c("remove at the front", &mut |mut v| sink(v.remove(0)));
        c("remove in the middle", &mut |mut v| sink(v.remove(len / 2 + 1)));
        c("split_off", &mut |mut v| sink(v.split_off(len / 2 + 1).len() as u64));
        c("shrink_to_fit", &mut |mut v| {
            v.truncate(len / 2);
            v.shrink()
        });
        c("clear", &mut |mut v| v.clear());
        c("drop", &mut |v| drop(v));
    }
}

type E = El<{ 1 << 21 }>;

fn sets(rng: &mut Rng) {
    let who = "EnumSet";
    let off = rng.below(100);
    for base in [1u64 << 10, 1 << 15, 1 << 20] {
        let n = base + off;
        let mut full: EnumSet<E> = EnumSet::new();
        full.insert(El(n + 3 * M));
        // every word populated, without a member at a time
        let mut b = bit_set::BitSet::with_capacity(n as usize + 3 * M as usize);
        for w in 0..n / 32 {
            b.insert((w * 32 + w % 31) as usize);
        }
        full.union_with(&EnumSet::from_bit_set(b));
        let at: Vec<u64> = (0..M).map(|j| if j == 0 { 0 } else { rng.below(n) }).collect();
        let c = |op: &str, f: &mut dyn FnMut(&mut EnumSet<E>)| {
            let mut s = full.clone();
            measure("constant", who, op, n, M, 0, || f(&mut s));
        };
        c("contains", &mut |s| for x in &at { sink(s.contains(El(*x)) as u64) });
        c("insert within the span", &mut |s| for x in &at { sink(s.insert(El(*x)) as u64) });
        c("remove", &mut |s| for x in &at { sink(s.remove(El(*x)) as u64) });
        c("insert then remove", &mut |s| for x in &at {
            sink(s.insert(El(*x)) as u64);
            sink(s.remove(El(*x)) as u64)
        });
    }
    for base in [1u64 << 11, 1 << 14] {
        let n = base + off % 32;
        let bytes = n / 8 + 8;
        let c = |op: &str, f: &mut dyn FnMut(&mut EnumSet<E>)| {
            let mut s = EnumSet::new();
            measure("fill", who, op, n, n, bytes, || f(&mut s));
            assert_eq!(s.len() as u64, n, "{}", op);
        };
        c("insert in order", &mut |s| for x in 0..n { s.insert(El(x)); });
        c("extend", &mut |s| s.extend((0..n).map(El)));
        c("extend by one", &mut |s| for x in 0..n { s.extend(std::iter::once(El(x))) });
        c("collect", &mut |s| *s = (0..n).map(El).collect());
        c("collect backwards", &mut |s| *s = (0..n).rev().map(El).collect());
        let a: EnumSet<E> = (0..n).map(El).collect();
        let b: EnumSet<E> = (0..n).step_by(2).map(El).collect();
        let c = |op: &str, f: &mut dyn FnMut(&mut EnumSet<E>)| {
            let mut s = a.clone();
            measure("linear", who, op, n, n, bytes, || f(&mut s));
        };
        c("iteration", &mut |s| sink(s.iter().count() as u64));
        c("len", &mut |s| sink(s.len() as u64));
        c("union", &mut |s| sink(s.union(&b).count() as u64));
        c("intersection", &mut |s| sink(s.intersection(&b).count() as u64));
        c("difference", &mut |s| sink(s.difference(&b).count() as u64));
        c("symmetric difference", &mut |s| sink(s.symmetric_difference(&b).count() as u64));
        c("union_with", &mut |s| s.union_with(&b));
        c("intersect_with", &mut |s| s.intersect_with(&b));
        c("difference_with", &mut |s| s.difference_with(&b));
        c("symmetric_difference_with", &mut |s| s.symmetric_difference_with(&b));
        c("relations", &mut |s| sink(s.is_subset(&b) as u64 + s.is_superset(&b) as u64 + s.is_disjoint(&b) as u64));
        c("==", &mut |s| sink((*s == a) as u64));
        c("clone", &mut |s| sink(s.clone().is_empty() as u64));
        c("shrink_to_fit", &mut |s| s.shrink_to_fit());
        c("clear", &mut |s| s.clear());
    }
    for n in [1u64 << 8, 1 << 14, 1 << 20] {
        measure("constant", "values()", "nth, skipping far", n, 16, 0, || for j in 0..16 {
            sink(E::values().nth((n + j) as usize).map_or(0, |x| x.to_discr() as u64))
        });
        measure("constant", "values()", "len", n, 16, 0, || for _ in 0..16 {
            let mut v = E::values();
            v.nth(n as usize);
            sink(v.len() as u64)
        });
    }
}

fn main() {
    if std::env::args().any(|x| x == "--noop") {
        return;
    }
    let args = Args::parse();
    let deep = args.extra.contains_key("deep");
    #[cfg(not(miri))]
    timer::start(if deep { 900 } else { 160 });
    let combos = vec_combos(deep);
    let jobs = combos.len() as u64 + 1;
    for j in 0..jobs {
        if j % args.shards != args.shard {
            continue;
        }
        let mut rng = Rng::new(args.seed, 26, j);
        if j == jobs - 1 {
            sets(&mut rng);
        } else {
            vectors(combos[j as usize], &mut rng, deep);
        }
    }
    println!("@@END");
}
