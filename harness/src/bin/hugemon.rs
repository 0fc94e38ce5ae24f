//! Vectors of more than 2^32 elements and sets with members beyond 2^32: positions, lengths and
//! members that a 32-bit number cannot hold. The model keeps the few elements that differ from the rest.
use evmon::alloc;
use evmon::el::El;
use evmon::report::*;
use evmon::rng::{Acc, Rng};
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::Relaxed;

const BIG: usize = 1 << 32;

/// `n` elements equal to `base`, but for those at the positions in `odd`
#[derive(Clone, Debug)]
struct Model {
    n: usize,
    base: bool,
    odd: BTreeSet<usize>,
}

impl Model {
    fn get(&self, i: usize) -> Option<bool> {
        if i < self.n {
            Some(self.base != self.odd.contains(&i))
        } else {
            None
        }
    }
    fn set(&mut self, i: usize, x: bool) {
        if x != self.base {
            self.odd.insert(i);
        } else {
            self.odd.remove(&i);
        }
    }
    fn push(&mut self, x: bool) {
        self.n += 1;
        self.set(self.n - 1, x);
    }
    fn truncate(&mut self, m: usize) {
        if m < self.n {
            self.n = m;
            self.odd.split_off(&m);
        }
    }
    fn pop(&mut self) -> Option<bool> {
        if self.n == 0 {
            return None;
        }
        let x = self.get(self.n - 1);
        self.truncate(self.n - 1);
        x
    }
    fn insert(&mut self, i: usize, x: bool) {
        let up = self.odd.split_off(&i);
        self.odd.extend(up.into_iter().map(|p| p + 1));
        self.n += 1;
        self.set(i, x);
    }
    fn remove(&mut self, i: usize) -> bool {
        let x = self.get(i).unwrap();
        self.odd.remove(&i);
        let up = self.odd.split_off(&i);
        self.odd.extend(up.into_iter().map(|p| p - 1));
        self.n -= 1;
        x
    }
    fn count(&self, x: bool) -> usize {
        if x == self.base {
            self.n - self.odd.len()
        } else {
            self.odd.len()
        }
    }
}

fn position(rng: &mut Rng, m: &Model) -> usize {
    let n = m.n;
    let near = |rng: &mut Rng, x: usize| (x as u64).wrapping_add(rng.below(5)).wrapping_sub(2) as usize;
    for _ in 0..20 {
        let p = match rng.below(9) {
            0 => rng.below(70) as usize,
            1 => near(rng, BIG),
            2 => near(rng, 1 << 31),
            3 => n.wrapping_sub(1 + rng.below(70) as usize),
            4 => rng.below(n.max(1) as u64) as usize,
            5 => BIG + rng.below((n - BIG.min(n)).max(1) as u64) as usize,
            6 | 7 if !m.odd.is_empty() => {
                let k = rng.below(m.odd.len() as u64) as usize;
                let p = *m.odd.iter().nth(k).unwrap();
                near(rng, p)
            }
            // the same position but for bit 32
            _ if !m.odd.is_empty() => {
                let k = rng.below(m.odd.len() as u64) as usize;
                m.odd.iter().nth(k).unwrap() ^ BIG
            }
            _ => n / 2,
        };
        if p < n {
            return p;
        }
    }
    n - 1
}

macro_rules! storage { ($f:ident, $m:ident, $bits:expr) => {
    fn $f(rep: &mut Report, rng: &mut Rng, steps: u64, trace: &mut Vec<String>) -> Result<(), String> {
        use enum_vec::$m::EnumVec;
        let part = rep.args.prop.clone();
        let part = part.as_str();
        macro_rules! say { ($t:ident, $x:expr) => {{ let s: String = $x; if rep.args.trace { eprintln!("  {}", s); } $t.push(s); }} }
        let base = rng.chance(1, 2);
        let n = BIG - 3 + rng.below(200) as usize;
        let mut m = Model { n, base, odd: BTreeSet::new() };
        say!(trace, format!("{}: from_elem({}, 2^32 + {})", stringify!($m), base, n as i64 - BIG as i64));
        let mut v: EnumVec<bool> = EnumVec::from_elem(base, n);
        for s in 0..steps {
            STEP.store(s, Relaxed);
            BEAT.fetch_add(1, Relaxed);
            if rep.out_of_time() && s > 2 { break; }
            let i = position(rng, &m);
            let j = position(rng, &m);
            let x = rng.chance(1, 2);
            let k = rng.below(90) as usize;
            // what this property is about more often than the rest
            let lean = match part { "C02" => 3 + rng.below(6), "C03" => 9 + rng.below(3), "C04" => 12, "C05" => 13, "C06" => 14, _ => rng.below(16) };
            let op = if s % 2 == 0 { rng.below(3) } else if rng.chance(3, 4) { lean } else { rng.below(16) };
            let text: String;
            let bad: Option<String> = match op {
                0 => { text = format!("set({}, {})", i, !base); v.set(i, !base); m.set(i, !base); None }
                1 => { text = format!("push {} and {} more", x, k); v.push(x); m.push(x); for q in 0..k { v.push(q % 3 == 0); m.push(q % 3 == 0); } None }
                2 => {
                    text = format!("pop {}", k);
                    let mut bad = None;
                    for _ in 0..k { let (a, b) = (v.pop(), m.pop()); if a != b { bad = Some(format!("pop gave {:?}, not {:?}", a, b)); break; } }
                    bad
                }
                3 => { text = format!("insert({}, {})", i, x); v.insert(i, x); m.insert(i, x); None }
                4 => { text = format!("remove({})", i); let (a, b) = (v.remove(i), m.remove(i)); if a != b { Some(format!("gave {}, not {}", a, b)) } else { None } }
                5 => { text = format!("swap({}, {})", i, j); v.swap(i, j); let (a, b) = (m.get(i).unwrap(), m.get(j).unwrap()); m.set(i, b); m.set(j, a); None }
                6 => {
                    text = format!("swap_remove({})", i);
                    let a = v.swap_remove(i);
                    let b = m.get(i).unwrap();
                    let l = m.pop().unwrap();
                    if i < m.n { m.set(i, l); }
                    if a != b { Some(format!("gave {}, not {}", a, b)) } else { None }
                }
                7 => {
                    // to a length above, on or just below 2^32
                    let to = if rng.chance(1, 2) { m.n.saturating_sub(k) } else { BIG + 2 - rng.below(5) as usize };
                    text = format!("truncate({})", to);
                    v.truncate(to);
                    m.truncate(to);
                    None
                }
                8 => {
                    let at = m.n - k;
                    text = format!("split_off({})", at);
                    let w = v.split_off(at);
                    let want: Vec<bool> = (at..m.n).map(|p| m.get(p).unwrap()).collect();
                    m.truncate(at);
                    if w.to_vec() != want { Some(format!("gave {:?}, not {:?}", w, want)) } else { None }
                }
                9 => { text = format!("resize({}, {})", m.n + k * 9, x); let to = m.n + k * 9; v.resize(to, x); while m.n < to { m.push(x); } None }
                10 => {
                    text = format!("append {} elements", k);
                    let mut w: EnumVec<bool> = (0..k).map(|q| q % 5 < 2).collect();
                    v.append(&mut w);
                    for q in 0..k { m.push(q % 5 < 2); }
                    if w.len() != 0 { Some(format!("left {} elements in the other", w.len())) } else { None }
                }
                11 => { text = format!("extend by {}", k); v.extend((0..k).map(|q| q % 7 < 3)); for q in 0..k { m.push(q % 7 < 3); } None }
                12 => {
                    text = "any, all".to_string();
                    rep.count("any/all queries", 4);
                    let mut bad = None;
                    for x in [false, true] {
                        let (a, b) = (v.any(x), m.count(x) > 0);
                        if a != b { bad = Some(format!("any({}) is {}, there are {} such elements", x, a, m.count(x))); break; }
                        let (a, b) = (v.all(x), m.count(x) == m.n);
                        if a != b { bad = Some(format!("all({}) is {}, there are {} such elements of {}", x, a, m.count(x), m.n)); break; }
                    }
                    bad
                }
                13 => {
                    text = format!("iter(): nth({}), then the ends", i);
                    let mut it = v.iter();
                    let mut bad = None;
                    if it.len() != m.n || it.size_hint() != (m.n, Some(m.n)) { bad = Some(format!("len() is {}, size_hint() {:?}", it.len(), it.size_hint())); }
                    let (mut lo, mut hi) = (0, m.n);
                    for q in 0..40 {
                        let (a, b, what) = match rng.below(3) {
                            0 => { let a = it.next(); let b = if lo < hi { lo += 1; m.get(lo - 1) } else { None }; (a, b, "next()") }
                            1 => { let a = it.next_back(); let b = if lo < hi { hi -= 1; m.get(hi) } else { None }; (a, b, "next_back()") }
                            _ => {
                                let to = position(rng, &m);
                                let d = if q < 2 { to.saturating_sub(lo) } else { rng.below(30) as usize };
                                let a = it.nth(d);
                                let b = if d < hi - lo { lo += d + 1; m.get(lo - 1) } else { lo = hi; None };
                                (a, b, "nth()")
                            }
                        };
                        if bad.is_none() && (a != b || it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo))) {
                            bad = Some(format!("{} gave {:?}, not {:?}, and {:?} are left, not {}", what, a, b, it.size_hint(), hi - lo));
                        }
                    }
                    rep.count("iterator calls compared", 40);
                    bad
                }
                14 => {
                    text = format!("comparison with a clone that differs at {}", i);
                    let mut w = v.clone();
                    let mut bad = None;
                    if !(w == v) || w != v { bad = Some("a clone is not equal".to_string()); }
                    let y = m.get(i).unwrap();
                    w.set(i, !y);
                    if w == v { bad = Some("a changed clone is equal".to_string()); }
                    w.set(i, y);
                    if w != v { bad = Some("a clone changed there and back is not equal".to_string()); }
                    rep.count("comparisons", 3);
                    bad
                }
                _ => {
                    text = format!("positions past the end of {}", m.n);
                    let mut bad = None;
                    for p in [m.n, m.n + 1, m.n + BIG, 2 * BIG, usize::MAX - 1, usize::MAX, m.n + 64] {
                        if v.get(p).is_some() { bad = Some(format!("get({}) is something", p)); }
                        if caught(|| v.set(p, x)).is_ok() { bad = Some(format!("set({}) did not panic", p)); }
                        if caught(|| v.swap(p, 0)).is_ok() { bad = Some(format!("swap({}, 0) did not panic", p)); }
                        if caught(|| v.swap_remove(p)).is_ok() { bad = Some(format!("swap_remove({}) did not panic", p)); }
                        if caught(|| v.remove(p)).is_ok() { bad = Some(format!("remove({}) did not panic", p)); }
                        if p > m.n && caught(|| v.insert(p, x)).is_ok() { bad = Some(format!("insert({}) did not panic", p)); }
                        v.truncate(p);
                    }
                    rep.count("positions past the end", 7);
                    bad
                }
            };
            say!(trace, text);
            let text = trace.last().unwrap().clone();
            rep.evaluations += 1;
            rep.count("operations", 1);
            let mut a = Acc::new();
            for z in [op, $bits, m.n as u64, i as u64, j as u64, k as u64, x as u64, m.odd.len() as u64] { a.add(z); }
            rep.distinct.insert(a.0);
            if let Some(b) = bad { return Err(format!("{}: {}", text, b)); }
            if v.len() != m.n { return Err(format!("after {}: the length is {}, not {}", text, v.len(), m.n)); }
            let mut at: Vec<usize> = m.odd.iter().cloned().collect();
            at.extend((0..30).map(|_| position(rng, &m)));
            for p in at.clone() { at.extend([p.wrapping_sub(1), p + 1, p ^ BIG]); }
            for p in at {
                if v.get(p) != m.get(p) { return Err(format!("after {}: element {} is {:?}, not {:?}, at length {}", text, p, v.get(p), m.get(p), m.n)); }
                rep.count("elements read", 1);
            }
        }
        BEAT.fetch_add(1, Relaxed);
        // every element, by its bit in the storage
        let mut ones = 0u64;
        let full = m.n / $bits;
        for b in &v.storage()[..full] { ones += b.count_ones() as u64; }
        if m.n % $bits != 0 { for p in full * $bits..m.n { ones += (v.storage()[full] >> (p % $bits) & 1) as u64; } }
        rep.count("elements counted by their bits", m.n as u64);
        if ones as usize != m.count(true) { return Err(format!("in the end {} of {} elements are true, not {}", ones, m.n, m.count(true))); }
        Ok(())
    }
} }
storage!(u8s, vec_u8, 8);
storage!(u16s, vec_u16, 16);
storage!(u32s, vec_u32, 32);
storage!(u64s, vec_u64, 64);
storage!(u128s, vec_u128, 128);
storage!(smalls, smallvec_u32, 32);

fn set(rep: &mut Report, rng: &mut Rng, steps: u64, trace: &mut Vec<String>) -> Result<(), String> {
    type E = El<{ 1 << 33 }>;
    type S = enum_set2::EnumSet<E>;
    let mut s: [S; 2] = [S::new(), S::new()];
    let mut m: [BTreeSet<u64>; 2] = [BTreeSet::new(), BTreeSet::new()];
    for step in 0..steps * 4 {
        STEP.store(step, Relaxed);
        BEAT.fetch_add(1, Relaxed);
        if rep.out_of_time() && step > 6 {
            break;
        }
        let r = rng.below(2) as usize;
        let x = match rng.below(6) {
            0 => rng.below(70),
            1 => (1 << 32) - 2 + rng.below(5),
            2 => (1 << 32) + rng.below(4000),
            3 => rng.below((1 << 32) + 4000),
            _ => {
                let all: Vec<u64> = m[0].union(&m[1]).cloned().collect();
                if all.is_empty() {
                    1 << 32
                } else {
                    let p = *rng.pick(&all);
                    if rng.chance(1, 3) {
                        p ^ 1 << 32
                    } else {
                        p
                    }
                }
            }
        };
        let x = x.min((1 << 32) + 5000);
        let op = if rep.args.prop == "C22" && rng.chance(1, 2) { 4 + rng.below(3) } else if rng.chance(4, 5) { rng.below(3) } else { rng.below(7) };
        let (text, bad) = match op {
            0 | 1 => (format!("s{}.insert({})", r, x), s[r].insert(El(x)) != m[r].insert(x)),
            2 => (format!("s{}.remove({})", r, x), s[r].remove(El(x)) != m[r].remove(&x)),
            3 => {
                let (a, b) = s.split_at_mut(1);
                let (a, b, c, d) = if r == 0 { (&mut a[0], &b[0], 0, 1) } else { (&mut b[0], &a[0], 1, 0) };
                let other = m[d].clone();
                match rng.below(4) {
                    0 => {
                        a.union_with(b);
                        m[c] = m[c].union(&other).cloned().collect();
                    }
                    1 => {
                        a.intersect_with(b);
                        m[c] = m[c].intersection(&other).cloned().collect();
                    }
                    2 => {
                        a.difference_with(b);
                        m[c] = m[c].difference(&other).cloned().collect();
                    }
                    _ => {
                        a.symmetric_difference_with(b);
                        m[c] = m[c].symmetric_difference(&other).cloned().collect();
                    }
                }
                (format!("s{} combined with s{} in place", c, d), false)
            }
            4 => {
                let got: Vec<u64> = s[r].iter().map(|x| x.0).collect();
                (format!("s{}.iter()", r), got != m[r].iter().cloned().collect::<Vec<_>>())
            }
            5 => {
                let (a, b) = (&m[r], &m[1 - r]);
                let bad = s[r].is_subset(&s[1 - r]) != a.is_subset(b) || s[r].is_disjoint(&s[1 - r]) != a.is_disjoint(b) || s[r].is_superset(&s[1 - r]) != a.is_superset(b);
                ("relations".to_string(), bad)
            }
            _ => {
                let (a, b) = (&m[r], &m[1 - r]);
                let i: Vec<u64> = s[r].intersection(&s[1 - r]).map(|x| x.0).collect();
                let u: Vec<u64> = s[r].union(&s[1 - r]).map(|x| x.0).collect();
                let d: Vec<u64> = s[r].difference(&s[1 - r]).map(|x| x.0).collect();
                let bad = i != a.intersection(b).cloned().collect::<Vec<_>>() || u != a.union(b).cloned().collect::<Vec<_>>() || d != a.difference(b).cloned().collect::<Vec<_>>();
                ("algebra as iterators".to_string(), bad)
            }
        };
        if rep.args.trace {
            eprintln!("  {}", text);
        }
        trace.push(text.clone());
        rep.evaluations += 1;
        rep.count("operations on sets", 1);
        let mut a = Acc::new();
        for z in [op, x, r as u64, m[0].len() as u64, m[1].len() as u64] {
            a.add(z);
        }
        rep.distinct.insert(a.0);
        if bad {
            return Err(format!("{} gives a wrong answer", text));
        }
        for q in 0..2 {
            for p in m[0].union(&m[1]).cloned().flat_map(|p| [p, p ^ 1 << 32, p + 1, p.saturating_sub(1)]).collect::<Vec<_>>() {
                if p < 1 << 33 && s[q].contains(El(p)) != m[q].contains(&p) {
                    return Err(format!("after {}: s{}.contains({}) is {}", text, q, p, !m[q].contains(&p)));
                }
                rep.count("memberships read", 1);
            }
            if step % 8 == 0 && s[q].len() != m[q].len() {
                return Err(format!("after {}: s{}.len() is {}, not {}", text, q, s[q].len(), m[q].len()));
            }
        }
    }
    Ok(())
}

fn main() {
    if std::env::args().any(|x| x == "--noop") {
        return;
    }
    let args = Args::parse();
    let mut rep = Report::new(args.clone());
    watchdog(60);
    alloc::set_cap(8 << 30);
    guard(move || {
        let sets = args.prop == "C21" || args.prop == "C22";
        let mut last = 0;
        for c in args.cases() {
            // each storage once at least; then until the time is up
            if rep.out_of_time() && (c >= 6 || sets) {
                break;
            }
            last = c;
            CASE.store(c, Relaxed);
            let mut rng = Rng::new(args.seed, 90, c);
            let mut trace = vec![];
            SCOPE.store(1, Relaxed);
            let f = if sets { set } else { [u8s, u16s, u32s, u64s, u128s, smalls][(c % 6) as usize] };
            let r = match caught(|| f(&mut rep, &mut rng, 12, &mut trace)) {
                Ok(r) => r,
                Err(m) => Err(format!("a call panicked: {}", m)),
            };
            SCOPE.store(0, Relaxed);
            rep.count("histories", 1);
            match r {
                Ok(()) => rep.sample(|| trace.join("; ")),
                Err(m) => rep.violation(c, &m, &trace),
            }
        }
        rep.done(last)
    })
}
