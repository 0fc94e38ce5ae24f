//! The monitors over EnumVec histories, one per property.
use crate::alloc;
use crate::consume::{BOTH, FORWARD};
use crate::dynvec::{lockstep_groups, DynIter, DynVec, DI};
use crate::el;
use crate::engine::*;
use crate::hist::*;
use crate::report::caught;
use crate::rng::{mix, Acc, Rng};
use std::collections::VecDeque;

/// Read all registers back; Err names the register that cannot be read.
fn read_all(h: &mut H) -> Result<[Vec<u64>; 3], String> {
    let mut out: [Vec<u64>; 3] = Default::default();
    for r in 0..3 {
        out[r] = observe(&*h.v[r]).map_err(|m| format!("v{} {}", r, m))?;
    }
    Result::Ok(out)
}

/// Compare what an operation returned and left behind with the list model.
/// `read` takes the new contents over into h.obs.
fn compare(h: &mut H, res: &Res, want_ret: &Ret, want: &[Vec<u64>; 3], got: &Ret) -> Result<(), String> {
    if got != want_ret {
        let m = match got {
            Ret::Panic(m) => format!("{} panicked: {}", res, m),
            _ => format!("{} returned {} instead of {}", res, show_ret(got), show_ret(want_ret)),
        };
        return Err(m);
    }
    let now = read_all(h).map_err(|m| format!("after {}: {}", res, m))?;
    for r in 0..3 {
        if now[r] != want[r] {
            return Err(format!("after {}: v{}: {}", res, r, diff(&want[r], &now[r])));
        }
        let n = now[r].len();
        if h.v[r].is_empty() != (n == 0) {
            return Err(format!("after {}: v{}.is_empty() is {} at length {}", res, r, h.v[r].is_empty(), n));
        }
    }
    h.obs = now;
    Result::Ok(())
}

fn show_ret(r: &Ret) -> String {
    match r {
        Ret::List(v) => show(v),
        Ret::Unit => "nothing".into(),
        _ => format!("{:?}", r),
    }
}

/// Bring h.obs up to date after something that is not judged here.
fn resync(h: &mut H) -> Result<(), Verdict> {
    match read_all(h) {
        Result::Ok(o) => {
            h.obs = o;
            Result::Ok(())
        }
        Err(m) => Err(Foreign(m)),
    }
}

/// Run an operation that serves only to build up state.
fn build(h: &mut H, op: &Op) -> Result<Res, Verdict> {
    let res = h.prof.resolve(op, &h.lens());
    h.log(|| res.to_string());
    h.scope(false);
    let got = run_real(&res, &mut h.v, h.k);
    if let Ret::Panic(m) = got {
        return Err(Foreign(format!("{} panicked: {}", res, m)));
    }
    resync(h)?;
    Result::Ok(res)
}

/// A vector with the same contents, built from scratch in one of several ways.
fn twin(h: &H, c: &[u64], how: u64) -> Box<dyn DynVec> {
    let f = h.fresh();
    match how % 4 {
        0 => f.mk_slice(c),
        1 => {
            let mut f = f;
            for x in c {
                f.push(*x);
            }
            f
        }
        2 => f.mk_iter(&mut c.iter().copied()),
        _ => f.mk_vec(c),
    }
}

// ------------------------------------------------------------------------------ C01, C14

/// Full list semantics of every operation.
pub struct ListMon {
    pub all_reads: bool,
}
impl Mon for ListMon {
    fn weights(&self, rng: &mut Rng) -> Vec<(Code, u32)> {
        let mut w = weights();
        // some cases concentrate on a few operations
        if rng.chance(1, 2) {
            let keep: u64 = rng.next() | rng.next();
            boost(&mut w, |c| if keep >> (c as u64) & 1 == 1 || c == Code::PushMany { 1 } else { 0 });
        }
        w
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let res = h.prof.resolve(op, &h.lens());
        h.log(|| res.to_string());
        h.scope(true);
        h.eval(name(res.code), |h| h.acc(&res));
        let mut m = h.obs.clone();
        let want = model(&res, &mut m, h.k);
        let got = run_real(&res, &mut h.v, h.k);
        if let Err(e) = compare(h, &res, &want, &m, &got) {
            return Bad(e);
        }
        let r = res.r;
        let n = h.obs[r].len();
        // past the end there is nothing
        if let Some(x) = h.v[r].get(n) {
            return Bad(format!("after {}: get({}) is {} at length {}", res, n, x, n));
        }
        if self.all_reads || op.b % 5 == 0 {
            let r2 = caught(|| {
                let a = h.v[r].to_vec();
                let b: Vec<u64> = DI(h.v[r].iter()).collect();
                let c: Vec<u64> = DI(h.v[r].iter()).rev().collect();
                let x = h.prof.val(op.v ^ 9);
                (a, b, c, x, h.v[r].any(x), h.v[r].all(x))
            });
            let o = &h.obs[r];
            match r2 {
                Err(m) => return Bad(format!("after {}: reading v{} panicked: {}", res, r, m)),
                Result::Ok((a, b, mut c, x, any, all)) => {
                    c.reverse();
                    if a != *o || b != *o || c != *o {
                        return Bad(format!("after {}: v{} reads as {} by get, {} by to_vec, {} by iter, {} backwards", res, r, show(o), show(&a), show(&b), show(&c)));
                    }
                    if any != o.contains(&x) || all != o.iter().all(|y| *y == x) {
                        return Bad(format!("after {}: v{} is {}, any({}) is {}, all({}) is {}", res, r, show(o), x, any, x, all));
                    }
                }
            }
        }
        Ok
    }
    fn finish(&mut self, h: &mut H) -> Verdict {
        // a by-value read and equality with a rebuilt vector end the case
        for r in 0..3 {
            let c = h.obs[r].clone();
            let t = twin(h, &c, r as u64);
            if !h.v[r].eq(&*t) || !t.eq(&*h.v[r]) {
                return Bad(format!("v{} is not equal to a vector built from its elements {}", r, show(&c)));
            }
            let got = caught(|| h.v[r].dup().into_vec());
            if got.as_ref() != Result::Ok(&c) {
                return Bad(format!("v{} converts to {:?}, but reads {}", r, got, show(&c)));
            }
        }
        Ok
    }
}

pub fn name(c: Code) -> &'static str {
    use Code::*;
    match c {
        Push => "push", Pop => "pop", Set | SetLast => "set", Get => "get", PushMany => "push run", PopMany => "pop run",
        Insert => "insert", Remove => "remove", SwapRemove => "swap_remove", Swap => "swap", Retain => "retain",
        Truncate => "truncate", SplitOff => "split_off", Extend => "extend", FromIter => "collect", FromVec => "from Vec",
        FromSlice => "from_slice", MacroFill => "enum_vec![x; n]", MacroList => "enum_vec![..]", FromElem => "from_elem",
        Resize => "resize", Append => "append", Recollect => "into_iter collect", IntoVec => "into Vec",
        ExtendFrom => "extend from a vector", Clone => "clone", Reserve => "reserve", Shrink => "shrink_to_fit",
        WithCap => "with_capacity", New => "new", ForEach => "for_each", Clear => "clear",
    }
}

// ------------------------------------------------------------------------------ C02, C03

/// One family of operations, judged from the state it finds.
pub struct FamMon {
    pub fam: Fam,
}
impl FamMon {
    fn inside(&self, c: Code) -> bool {
        fam(c) == self.fam
    }
}
impl Mon for FamMon {
    fn weights(&self, rng: &mut Rng) -> Vec<(Code, u32)> {
        let mut w = weights();
        let pure = rng.chance(1, 3);
        boost(&mut w, |c| if self.inside(c) { 4 } else if fam(c) == Fam::Elem { 2 } else if pure { 0 } else { 1 });
        w
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let res = h.prof.resolve(op, &h.lens());
        h.log(|| res.to_string());
        let inside = self.inside(res.code);
        h.scope(inside || fam(res.code) == Fam::Elem);
        if inside {
            h.eval(name(res.code), |h| h.acc(&res));
        }
        let mut m = h.obs.clone();
        let want = model(&res, &mut m, h.k);
        // what a vector without this history does, in case an elementary operation goes wrong
        let got = run_real(&res, &mut h.v, h.k);
        let pre = h.obs.clone();
        if let Err(e) = compare(h, &res, &want, &m, &got) {
            if inside {
                return Bad(e);
            }
            if fam(res.code) == Fam::Elem {
                // the same step on vectors built by push alone
                let mut t: Regs = [twin(h, &pre[0], 1), twin(h, &pre[1], 1), twin(h, &pre[2], 1)];
                let got = run_real(&res, &mut t, h.k);
                let mut now: [Vec<u64>; 3] = Default::default();
                let mut fine = got == want;
                for r in 0..3 {
                    now[r] = observe(&*t[r]).unwrap_or_default();
                    fine &= now[r] == m[r];
                }
                if fine {
                    return Bad(format!("the vector is left in a state in which a plain step goes wrong, though it is right on a vector built by pushing: {}", e));
                }
            }
            return Foreign(e);
        }
        Ok
    }
}

// ------------------------------------------------------------------------------ C04

pub struct AnyAll;
impl AnyAll {
    fn probe(&self, h: &mut H, r: usize, rng: &mut Rng) -> Verdict {
        let o = h.obs[r].clone();
        let k = h.k;
        let bits = h.info.bits() as u64;
        let mut q: Vec<u64> = vec![0, k - 1, 1 % k, k / 2, rng.below(k)];
        q.extend_from_slice(&h.prof.pal);
        if let (Some(a), Some(b)) = (o.first(), o.last()) {
            for x in [*a, *b, o[rng.below(o.len() as u64) as usize]] {
                q.push(x);
                q.push((x ^ 1) % k);
                q.push((x + 1) % k);
                q.push(x.checked_sub(1).unwrap_or(k - 1));
                q.push((x ^ (1u64 << rng.below(bits))) % k);
            }
        }
        if k <= 16 {
            q.extend(0..k);
        }
        q.sort_unstable();
        q.dedup();
        for x in q {
            h.eval("any/all queries", |h| {
                let mut a = Acc::new();
                a.add(x);
                for y in &h.obs[r] {
                    a.add(*y);
                }
                if h.obs[r].is_empty() { None } else { Some(a) }
            });
            let got = caught(|| (h.v[r].any(x), h.v[r].all(x)));
            let want = (o.contains(&x), o.iter().all(|y| *y == x));
            match got {
                Err(m) => return Bad(format!("any/all({}) on {} panicked: {}", x, show(&o), m)),
                Result::Ok(g) if g != want => {
                    let p = o.iter().position(|y| *y != x);
                    return Bad(format!(
                        "v{} of length {} holds {}: any({}) is {} instead of {}, all({}) is {} instead of {} (first other element at {:?})",
                        r, o.len(), show(&o), x, g.0, want.0, x, g.1, want.1, p
                    ));
                }
                _ => {}
            }
            if h.counting {
                if want.0 {
                    h.tally.count("any true", 1)
                }
                if want.1 && !o.is_empty() {
                    h.tally.count("all true on a non-empty vector", 1)
                }
            }
        }
        Ok
    }
}
impl Mon for AnyAll {
    fn weights(&self, rng: &mut Rng) -> Vec<(Code, u32)> {
        let mut w = weights();
        let flat = rng.chance(2, 3);
        boost(&mut w, |c| match c {
            Code::FromElem | Code::Resize | Code::MacroFill | Code::Truncate | Code::PopMany if flat => 6,
            Code::Set if flat => 3,
            _ => 1,
        });
        w
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let res = match build(h, op) {
            Result::Ok(r) => r,
            Err(v) => return v,
        };
        let mut rng = h.aux(op, 4);
        h.scope(true);
        for r in touched(&res) {
            if let Bad(m) = self.probe(h, r, &mut rng) {
                return Bad(format!("after {}: {}", res, m));
            }
        }
        // a uniform vector with one odd element, at every kind of position, and stale data behind
        if op.a % 3 == 0 {
            let x = h.prof.val(op.v ^ 3);
            let y = h.prof.val(op.v ^ 4);
            let extra = rng.below(h.info.epb() + 2) as usize;
            let n = 1 + rng.below(h.prof.max_len as u64) as usize;
            let z = h.prof.val(op.v ^ 5);
            let c = caught(|| {
                let mut t = h.fresh().mk_elem(x, n);
                for _ in 0..extra {
                    t.push(z);
                }
                t.truncate(n);
                t
            });
            if let Result::Ok(t) = c {
                let old = std::mem::replace(&mut h.v[2], t);
                drop(old);
                h.log(|| format!("v2 = from_elem({}, {}); push {} of {}; truncate back", x, n, extra, z));
                for round in 0..3 {
                    h.scope(false);
                    if let Err(v) = resync(h) {
                        return v;
                    }
                    h.scope(true);
                    if let Bad(m) = self.probe(h, 2, &mut rng) {
                        return Bad(m);
                    }
                    if round < 2 && !h.obs[2].is_empty() {
                        let p = match rng.below(4) {
                            0 => 0,
                            1 => h.obs[2].len() - 1,
                            _ => rng.below(h.obs[2].len() as u64) as usize,
                        };
                        h.log(|| format!("v2.set({}, {})", p, y));
                        if caught(|| h.v[2].set(p, y)).is_err() {
                            return Foreign("set panicked".into());
                        }
                    }
                }
            }
        }
        Ok
    }
}

// ------------------------------------------------------------------------------ C05

pub struct Iteration;
impl Iteration {
    fn script(&self, h: &mut H, it: Box<dyn DynIter + '_>, o: &[u64], rng: &mut Rng, what: &str) -> Result<u64, String> {
        let mut q: VecDeque<u64> = o.iter().copied().collect();
        let mut it = it;
        let mut t: Vec<String> = vec![];
        let mut n = 0;
        let calls = rng.below(12 + o.len() as u64 / 8);
        macro_rules! chk {
            ($d:expr, $g:expr, $w:expr) => {{
                let (g, w) = ($g, $w);
                n += 1;
                if g != w {
                    return Err(format!("{} over {}: after {:?}, {} gives {:?} instead of {:?}", what, show(o), t, $d, g, w));
                }
                t.push($d);
                if t.len() > 12 {
                    t.remove(0);
                }
            }};
        }
        for _ in 0..calls {
            chk!("size_hint()".to_string(), it.size_hint(), (q.len(), Some(q.len())));
            chk!("len()".to_string(), it.len(), q.len());
            match rng.below(8) {
                0..=2 => chk!("next()".to_string(), it.next(), q.pop_front()),
                3 | 4 => chk!("next_back()".to_string(), it.next_back(), q.pop_back()),
                5 => {
                    let k = self.jump(rng, q.len(), h.info.epb());
                    let w = if k >= q.len() {
                        q.clear();
                        None
                    } else {
                        q.drain(..k);
                        q.pop_front()
                    };
                    chk!(format!("nth({})", k), it.nth(k), w);
                }
                6 => {
                    let k = self.jump(rng, q.len(), h.info.epb());
                    let w = if k >= q.len() {
                        q.clear();
                        None
                    } else {
                        q.truncate(q.len() - k);
                        q.pop_back()
                    };
                    chk!(format!("nth_back({})", k), it.nth_back(k), w);
                }
                _ => {}
            }
            if q.is_empty() {
                chk!("next() when exhausted".to_string(), it.next(), None);
                chk!("next_back() when exhausted".to_string(), it.next_back(), None);
                chk!("nth(0) when exhausted".to_string(), it.nth(0), None);
                chk!("len() when exhausted".to_string(), it.len(), 0);
            }
        }
        let rest: Vec<u64> = q.iter().copied().collect();
        let mut back = rest.clone();
        back.reverse();
        let s = 1 + rng.below(5) as usize + if rng.chance(1, 4) { h.info.epb() as usize } else { 0 };
        match rng.below(14) {
            0 => chk!("count()".to_string(), it.count(), rest.len()),
            1 => chk!("last()".to_string(), it.last(), rest.last().copied()),
            2 => chk!("rev()".to_string(), DI(it).rev().collect::<Vec<_>>(), back),
            3 => chk!("collect()".to_string(), it.collect(), rest),
            4 => {
                let mut g = vec![];
                it.fold(&mut |x| g.push(x));
                chk!("for_each/fold".to_string(), g, rest)
            }
            5 => {
                let mut g = vec![];
                it.rfold(&mut |x| g.push(x));
                chk!("rfold".to_string(), g, back)
            }
            6 => {
                let w: Vec<u64> = rest.iter().copied().skip(s).collect();
                chk!(format!("skip({})", s), DI(it).skip(s).collect::<Vec<_>>(), w)
            }
            7 => {
                let w: Vec<u64> = rest.iter().copied().step_by(s).collect();
                chk!(format!("step_by({})", s), DI(it).step_by(s).collect::<Vec<_>>(), w)
            }
            8 => {
                let w: Vec<(usize, u64)> = rest.iter().copied().enumerate().rev().collect();
                chk!("enumerate().rev()".to_string(), DI(it).enumerate().rev().collect::<Vec<_>>(), w)
            }
            9..=12 => {
                let which = rng.below(BOTH + FORWARD);
                let x = if rest.is_empty() || rng.chance(1, 5) { rng.below(h.k) } else { *rng.pick(&rest) };
                let (g, w) = it.consume(which, x, s, &rest);
                chk!(format!("way {} of consuming it, with {} and {}", which, x, s), g, w)
            }
            _ => {
                // all that is left, alternating ends
                let mut it = it;
                let mut i = 0;
                while let Some(w) = if i % 2 == 0 { q.pop_front() } else { q.pop_back() } {
                    chk!("alternating ends".to_string(), if i % 2 == 0 { it.next() } else { it.next_back() }, Some(w));
                    i += 1;
                }
                chk!("next() at the end".to_string(), it.next(), None);
            }
        }
        Result::Ok(n)
    }
    fn jump(&self, rng: &mut Rng, left: usize, epb: u64) -> usize {
        match rng.below(10) {
            0 => usize::MAX,
            1 => usize::MAX - rng.below(left as u64 + 2) as usize,
            2 => left,
            3 => left.saturating_sub(1),
            4 => left + 1 + rng.below(9) as usize,
            5 => epb as usize,
            6 => (1usize << 63) + rng.below(3) as usize,
            _ => rng.below(left as u64 / 2 + 2) as usize,
        }
    }
}
impl Mon for Iteration {
    fn steps(&self) -> (u64, u64) {
        (4, 30)
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let res = match build(h, op) {
            Result::Ok(r) => r,
            Err(v) => return v,
        };
        let mut rng = h.aux(op, 5);
        h.scope(true);
        let r = *rng.pick(&touched(&res));
        let o = h.obs[r].clone();
        for (i, what) in ["iter()", "(&v).into_iter()", "v.into_iter()"].iter().enumerate() {
            // the vectors are moved out for the borrow checker's sake
            let v = std::mem::replace(&mut h.v[r], (h.mk)());
            let seed = rng.next();
            let g = caught(|| {
                let mut rng = Rng::new(seed, 1, 1);
                match i {
                    0 => self.script(h, v.iter(), &o, &mut rng, what),
                    1 => self.script(h, v.ref_into_iter(), &o, &mut rng, what),
                    _ => self.script(h, v.dup().into_iter(), &o, &mut rng, what),
                }
            });
            h.v[r] = v;
            match g {
                Err(m) => return Bad(format!("after {}: {} over {} panicked: {}", res, what, show(&o), m)),
                Result::Ok(Err(m)) => return Bad(format!("after {}: {}", res, m)),
                Result::Ok(Result::Ok(n)) => {
                    let mut a = Acc::new();
                    a.add(seed);
                    o.iter().for_each(|x| a.add(*x));
                    h.eval(what, |_| if o.is_empty() { None } else { Some(a) });
                    if h.counting {
                        h.tally.count("iterator calls compared", n);
                    }
                }
            }
        }
        if op.a % 4 == 0 {
            let add = rng.next();
            let k = h.k;
            let mut seen = vec![];
            let how = rng.below(3);
            let f = |x: u64, i: usize| match how {
                0 => ((x as u128 + add as u128) % k as u128) as u64,
                1 => mix(i as u64 ^ add) % k,
                _ => if mix(i as u64 ^ add) % 4 == 0 { k - 1 - x } else { x },
            };
            let e = caught(|| {
                h.v[r].for_each(&mut |x| {
                    seen.push(x);
                    f(x, seen.len() - 1)
                })
            });
            h.log(|| format!("v{}.for_each(function {} {})", r, how, add));
            if let Err(m) = e {
                return Bad(format!("for_each panicked: {}", m));
            }
            if seen != o {
                return Bad(format!("for_each over {} visited {}", show(&o), show(&seen)));
            }
            let want: Vec<u64> = o.iter().enumerate().map(|(i, x)| f(*x, i)).collect();
            match observe(&*h.v[r]) {
                Result::Ok(g) if g == want => {}
                Result::Ok(g) => return Bad(format!("after for_each: {}", diff(&want, &g))),
                Err(m) => return Bad(format!("after for_each: {}", m)),
            }
            h.obs[r] = want;
            h.eval("for_each", |h| if h.obs[r].is_empty() { None } else { let mut a = Acc::new(); a.add(add); h.obs[r].iter().for_each(|x| a.add(*x)); Some(a) });
        }
        if op.a % 8 < 2 {
            let o = &h.obs[r];
            let (w1, w2) = h.v[r].debug_model(o);
            let g = caught(|| (h.v[r].debug(), h.v[r].debug_alt()));
            match g {
                Err(m) => return Bad(format!("Debug panicked: {}", m)),
                Result::Ok((a, b)) => {
                    if a != w1 || b != w2 {
                        return Bad(format!("Debug of {} prints {:?}", show(o), if a != w1 { a } else { b }));
                    }
                }
            }
            h.eval("Debug output", |h| if h.obs[r].is_empty() { None } else { let mut a = Acc::new(); a.add(55); h.obs[r].iter().for_each(|x| a.add(*x)); Some(a) });
        }
        Ok
    }
}

// ------------------------------------------------------------------------------ C06

pub struct Repr;
impl Repr {
    fn same(&self, h: &mut H, a: &dyn DynVec, b: &dyn DynVec, o: &[u64], what: &str) -> Result<(), String> {
        h.eval("equal pairs", |h| {
            let mut a = Acc::new();
            o.iter().for_each(|x| a.add(*x));
            a.add(h.v[0].storage_len() as u64);
            if o.is_empty() { None } else { Some(a) }
        });
        if !a.eq(b) || !b.eq(a) || a.ne(b) || b.ne(a) || !a.eq(a) {
            return Err(format!("{}: equal contents {} compare unequal", what, show(o)));
        }
        if a.hash_sip() != b.hash_sip() || a.hash_bytes() != b.hash_bytes() {
            return Err(format!("{}: equal contents {} hash differently", what, show(o)));
        }
        Result::Ok(())
    }
}
impl Mon for Repr {
    fn weights(&self, rng: &mut Rng) -> Vec<(Code, u32)> {
        let mut w = weights();
        if rng.chance(1, 2) {
            boost(&mut w, |c| match c {
                Code::Pop | Code::PopMany | Code::Truncate | Code::Clear | Code::Reserve | Code::Remove | Code::Clone => 3,
                _ => 1,
            });
        }
        w
    }
    fn steps(&self) -> (u64, u64) {
        (6, 40)
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let pre = h.obs.clone();
        let res = h.prof.resolve(op, &h.lens());
        h.log(|| res.to_string());
        let mut rng = h.aux(op, 6);
        let how = rng.next();
        // the same step on vectors freshly built from the contents
        h.scope(false);
        let t = caught(|| {
            let t: Regs = [twin(h, &pre[0], how), twin(h, &pre[1], how >> 4), twin(h, &pre[2], how >> 8)];
            t
        });
        let mut t = match t {
            Result::Ok(t) => t,
            Err(m) => return Foreign(m),
        };
        for r in 0..3 {
            if observe(&*t[r]).as_ref() != Result::Ok(&pre[r]) {
                return Foreign("a rebuilt vector is not what it was built from".into());
            }
        }
        let tr = run_real(&res, &mut t, h.k);
        h.scope(!matches!(tr, Ret::Panic(_)));
        let vr = run_real(&res, &mut h.v, h.k);
        h.eval("steps compared with a rebuilt vector", |h| h.acc(&res));
        let strip = |r: &Ret| match r {
            Ret::Panic(_) => Ret::Panic(String::new()),
            r => r.clone(),
        };
        if strip(&tr) != strip(&vr) {
            return Bad(format!("{} on v returned {:?}, on a vector rebuilt from the same elements {} it returned {:?}", res, vr, show(&pre[res.r]), tr));
        }
        if let Ret::Panic(m) = vr {
            return Foreign(m);
        }
        for r in 0..3 {
            let a = observe(&*h.v[r]);
            let b = observe(&*t[r]);
            match (a, b) {
                (Result::Ok(a), Result::Ok(b)) => {
                    if a != b {
                        return Bad(format!("{} on v, which held {}, left v{} as {}, but as {} on a vector rebuilt from the same elements", res, show(&pre[res.r]), r, show(&a), show(&b)));
                    }
                    h.obs[r] = a;
                }
                (Err(a), Err(_)) => return Foreign(a),
                (a, b) => return Bad(format!("after {}: v{} reads {:?}, the rebuilt one {:?}", res, r, a.map(|x| show(&x)), b.map(|x| show(&x)))),
            }
        }
        // equality and hash, against the twin and against one built in another way
        let r = *rng.pick(&touched(&res));
        let o = h.obs[r].clone();
        let v = std::mem::replace(&mut h.v[r], (h.mk)());
        let x = caught(|| -> Result<(), String> {
            self.same(h, &*v, &*t[r], &o, &format!("v{} after {} and its rebuilt twin", r, res))?;
            let mut u = twin(h, &o, how >> 12);
            self.same(h, &*v, &*u, &o, &format!("v{} after {} and a fresh vector", r, res))?;
            // one difference anywhere, or in length, makes them unequal
            if !o.is_empty() {
                let i = match rng.below(3) { 0 => 0, 1 => o.len() - 1, _ => rng.below(o.len() as u64) as usize };
                let mut d = (o[i] ^ (1u64 << rng.below(h.info.bits() as u64))) % h.k;
                if d == o[i] {
                    d = (o[i] + 1) % h.k;
                }
                u.set(i, d);
                if v.eq(&*u) || u.eq(&*v) || !v.ne(&*u) {
                    return Err(format!("v{} after {}: {} compares equal though element {} of the other is {}", r, res, show(&o), i, d));
                }
                u.set(i, o[i]);
                self.same(h, &*v, &*u, &o, "after changing an element and changing it back")?;
                u.pop();
                if v.eq(&*u) || u.eq(&*v) {
                    return Err(format!("v{} after {}: {} compares equal to its own prefix", r, res, show(&o)));
                }
            }
            h.eval("unequal pairs", |_| None);
            Result::Ok(())
        });
        match x {
            Result::Ok(Result::Ok(())) => {}
            Result::Ok(Err(m)) => return Bad(m),
            Err(m) => return Foreign(m),
        }
        // a clone is equal, and changes to either do not reach the other
        let x = caught(|| -> Result<(), String> {
            let mut v2 = v.dup();
            if observe(&*v2).as_ref() != Result::Ok(&o) {
                return Err(format!("the clone of {} reads {:?}", show(&o), observe(&*v2)));
            }
            self.same(h, &*v, &*v2, &o, "a vector and its clone")?;
            let p = h.prof.val(op.v ^ 8);
            let q = (p + 1) % h.k;
            for i in 0..o.len().min(3) {
                v2.set(i, (o[i] + 1) % h.k);
            }
            v2.push(q);
            v2.push(p);
            v2.truncate(o.len() / 2 + 1);
            v2.resize(o.len() + 3, q);
            if observe(&*v).as_ref() != Result::Ok(&o) {
                return Err(format!("changing a clone of {} changed the original to {:?}", show(&o), observe(&*v)));
            }
            let s = observe(&*v2);
            let mut v3 = v2.dup();
            drop(v2);
            if observe(&*v3) != s {
                return Err(format!("dropping a vector changed its clone {:?} to {:?}", s, observe(&*v3)));
            }
            v3.push(p);
            Result::Ok(())
        });
        h.v[r] = v;
        match x {
            Result::Ok(Result::Ok(())) => {}
            Result::Ok(Err(m)) => return Bad(m),
            Err(m) => return Foreign(m),
        }
        Ok
    }
}

// ------------------------------------------------------------------------------ C08, C12

/// Lying and panicking iterators and callbacks. `strict` judges contents (C12), otherwise only
/// the discriminants asked for (C08).
pub struct Faults {
    pub strict: bool,
}
impl Faults {
    fn bad_discr(&self) -> Option<String> {
        el::bad().map(|(x, k)| format!("from_discr({}) was asked of a type with {} variants", x, k))
    }
    fn fault(&mut self, h: &mut H, op: &Op) -> Verdict {
        let mut rng = h.aux(op, 12);
        let r = (op.r % 3) as usize;
        let o = h.obs[r].clone();
        let n = rng.below(1 + h.prof.max_len as u64 / 2) as usize;
        let n = if rng.chance(1, 4) { rng.below(4) as usize } else { n };
        let vals: Vec<u64> = (0..n as u64).map(|i| h.prof.val(op.v ^ mix(i))).collect();
        h.scope(true);
        let kind = rng.below(8);
        let mut a = Acc::new();
        a.add(kind);
        a.add(n as u64);
        o.iter().for_each(|x| a.add(*x));
        vals.iter().for_each(|x| a.add(*x));
        match kind {
            // extend or collect from a panicking or dishonest iterator
            0..=4 => {
                let mut it = HintIter::new(&vals, rng.below(7) as u8);
                if kind < 3 {
                    it.panic_at = Some(rng.below(n as u64 + 1) as usize);
                }
                it.excess = match rng.below(4) {
                    0 => 1,
                    1 => h.info.epb() as usize * 2,
                    2 => rng.below(5000) as usize,
                    _ => rng.below(20) as usize,
                };
                // a total that does not fit a length at all
                if it.mode == 5 && !o.is_empty() && rng.chance(1, 6) {
                    it.excess = usize::MAX - n;
                }
                let collect = kind == 2 || kind == 4;
                let d = format!("{} values, hint mode {}, excess {}, panic at {:?}", n, it.mode, it.excess, it.panic_at);
                let over = it.mode == 5 && it.excess == usize::MAX - n;
                let panics = it.panic_at.is_some();
                let label = match (collect, panics) {
                    (false, true) => "extend with an iterator that panics",
                    (true, true) => "collect from an iterator that panics",
                    (false, false) => "extend with a dishonest or plain size_hint",
                    (true, false) => "collect with a dishonest or plain size_hint",
                };
                h.eval(label, |_| if n > 0 { Some(a) } else { None });
                let mut want = if collect { vec![] } else { o.clone() };
                if collect && over {
                    return Ok;
                }
                let e;
                let got;
                if collect {
                    h.log(|| format!("v{} = collect({}: {})", r, show(&vals), d));
                    let res = caught(|| h.v[r].mk_iter(&mut it));
                    match res {
                        Result::Ok(v) => {
                            got = observe(&*v);
                            h.v[r] = v;
                            e = None;
                        }
                        Err(m) => {
                            e = Some(m);
                            got = Result::Ok(vals[..it.pos].to_vec());
                        }
                    }
                } else {
                    h.log(|| format!("v{}.extend({}: {})", r, show(&vals), d));
                    e = caught(|| h.v[r].extend(&mut it)).err();
                    got = observe(&*h.v[r]);
                }
                want.extend_from_slice(&vals[..it.pos]);
                if self.strict {
                    match &got {
                        Result::Ok(g) if *g == want => {}
                        Result::Ok(g) => return Bad(format!("after extending {} from an iterator that yielded {} ({}; {}): {}", show(&o), show(&vals[..it.pos]), d, e.clone().unwrap_or("no panic".into()), diff(&want, g))),
                        Err(m) => return Bad(format!("after extending {} from an iterator that yielded {} ({}): {}", show(&o), show(&vals[..it.pos]), d, m)),
                    }
                    if let Some(m) = &e {
                        // Whether a dishonest size_hint is answered with a panic is left open;
                        // an honest one must not be
                        if !m.contains("injected") && it.mode < 5 {
                            return Bad(format!("extending {} with {} ({}) panicked: {}", show(&o), show(&vals), d, m));
                        }
                    } else if !panics && it.pos < n {
                        return Bad(format!("only {} of {} items were taken ({})", it.pos, n, d));
                    }
                }
                if e.is_some() && h.counting {
                    h.tally.count("panics injected or provoked", 1);
                }
            }
            5 | 6 => {
                let retain = kind == 5;
                let p = rng.below(o.len() as u64 + 1) as usize;
                let keep = rng.next();
                let add = rng.next();
                let k = h.k;
                let mut seen = vec![];
                let label = if retain { "retain callback panics" } else { "for_each callback panics" };
                h.eval(label, |_| if o.is_empty() { None } else { Some(a) });
                h.log(|| format!("v{}.{} at call {}, keep {:#x}, add {}", r, label, p, keep, add));
                let e = caught(|| {
                    if retain {
                        h.v[r].retain(&mut |x| {
                            if seen.len() == p {
                                panic!("injected panic in callback");
                            }
                            seen.push(x);
                            keep >> (seen.len() % 64) & 1 == 1
                        })
                    } else {
                        h.v[r].for_each(&mut |x| {
                            if seen.len() == p {
                                panic!("injected panic in callback");
                            }
                            seen.push(x);
                            ((x as u128 + add as u128) % k as u128) as u64
                        })
                    }
                });
                if h.counting && e.is_err() {
                    h.tally.count("panics injected or provoked", 1);
                }
                if self.strict && p < o.len() {
                    let g = match observe(&*h.v[r]) {
                        Result::Ok(g) => g,
                        Err(m) => return Bad(format!("after a panic in a {} call over {}: {}", label, show(&o), m)),
                    };
                    if seen[..] != o[..p] {
                        return Bad(format!("{} over {}: visited {} before the panic at call {}", label, show(&o), show(&seen), p));
                    }
                    if g.len() != o.len() || g[p..] != o[p..] {
                        return Bad(format!("{} at call {} over {}: the vector is now {}; its length and elements from {} on should be intact", label, p, show(&o), show(&g), p));
                    }
                    let assigned: Vec<u64> = seen.iter().map(|x| ((*x as u128 + add as u128) % k as u128) as u64).collect();
                    for (i, x) in g[..p].iter().enumerate() {
                        let ok = if retain { o.contains(x) } else { *x == o[i] || *x == assigned[i] };
                        if !ok {
                            return Bad(format!("{} at call {} over {}: element {} is now {}, which was neither there nor assigned", label, p, show(&o), i, x));
                        }
                    }
                }
                let _ = e;
            }
            // out-of-range calls, caught
            _ => {
                let i = o.len() + rng.below(2 * h.info.epb()) as usize;
                let which = rng.below(6);
                let x = h.prof.val(op.v ^ 1);
                h.eval("out-of-range call, caught", |_| Some(a));
                h.log(|| format!("v{}: caught out-of-range call {} at {}", r, which, i));
                let _ = caught(|| match which {
                    0 => h.v[r].set(i, x),
                    1 => drop(h.v[r].remove(i)),
                    2 => drop(h.v[r].swap_remove(i)),
                    3 => h.v[r].swap(i, 0),
                    4 => drop(h.v[r].split_off(i + 1)),
                    _ => drop(h.v[r].get(i)),
                });
            }
        }
        if !self.strict {
            if let Some(m) = self.bad_discr() {
                return Bad(m);
            }
        }
        let before = h.obs[r].clone();
        match resync(h) {
            Result::Ok(()) => {}
            Err(v) => {
                if !self.strict {
                    if let Some(m) = self.bad_discr() {
                        return Bad(format!("reading the vector back, which held {}: {}", show(&before), m));
                    }
                }
                return v;
            }
        }
        // still usable: a few ordinary steps behave
        if self.strict {
            let pre = h.obs[r].clone();
            let x = h.prof.val(op.v ^ 2);
            let e = caught(|| {
                h.v[r].push(x);
                let l = h.v[r].len();
                let g = h.v[r].get(l - 1);
                let p = h.v[r].pop();
                (l, g, p)
            });
            let post = observe(&*h.v[r]);
            if e != Result::Ok((pre.len() + 1, Some(x), Some(x))) || post.as_ref() != Result::Ok(&pre) {
                return Bad(format!("after the fault, push({}) and pop on {} gave {:?} and left {:?}", x, show(&pre), e, post));
            }
        }
        Ok
    }
}
impl Mon for Faults {
    fn steps(&self) -> (u64, u64) {
        (4, 40)
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        if mix(op.b ^ 0xFA) % 2 == 0 {
            return self.fault(h, op);
        }
        if self.strict {
            return match build(h, op) {
                Result::Ok(_) => Ok,
                Err(v) => v,
            };
        }
        let res = h.prof.resolve(op, &h.lens());
        h.log(|| res.to_string());
        h.scope(false);
        h.eval("operations watched", |h| h.acc(&res));
        let got = run_real(&res, &mut h.v, h.k);
        if let Some(m) = self.bad_discr() {
            return Bad(format!("{}: {}", res, m));
        }
        let r = read_all(h);
        // queries convert as well
        let r = match r {
            Result::Ok(o) => {
                h.obs = o;
                let _ = caught(|| {
                    let v = &h.v[res.r];
                    let x = h.prof.val(op.v ^ 77);
                    (v.any(x), v.all(x), v.debug().len(), v.to_vec().len(), v.iter().last(), DI(v.iter()).rev().count())
                });
                Result::Ok(())
            }
            Err(m) => Err(m),
        };
        if let Some(m) = self.bad_discr() {
            return Bad(format!("reading back after {}: {}", res, m));
        }
        match (r, got) {
            (Err(m), _) => Foreign(m),
            (_, Ret::Panic(m)) => Foreign(m),
            _ => Ok,
        }
    }
}

// ------------------------------------------------------------------------------ C09

#[derive(Default)]
pub struct Memory {
    /// longest length or reservation so far, in elements, per register
    demand: [u64; 3],
}
impl Memory {
    fn bound(&self, h: &H, n: u64) -> i64 {
        (4 * h.info.bytes(n) + 64) as i64
    }
}
impl Mon for Memory {
    fn weights(&self, rng: &mut Rng) -> Vec<(Code, u32)> {
        let mut w = weights();
        let grow = rng.chance(1, 2);
        boost(&mut w, |c| match c {
            Code::Shrink => 3,
            Code::FromElem | Code::Resize | Code::MacroFill if grow => 4,
            _ => 1,
        });
        w
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let res = h.prof.resolve(op, &h.lens());
        h.log(|| res.to_string());
        let pre = h.lens();
        let (r, s) = (res.r, res.s);
        let n = pre[r] as u64;
        let i = res.i as u64;
        h.scope(true);
        let got = run_real(&res, &mut h.v, h.k);
        let d = alloc::last();
        if let Ret::Panic(m) = got {
            h.scope(false);
            return Foreign(m);
        }
        if let Err(v) = resync(h) {
            return v;
        }
        let len = h.lens();
        // what each register has been asked to hold
        use Code::*;
        match res.code {
            New | FromIter | FromVec | FromSlice | MacroList | MacroFill | FromElem | Recollect => self.demand[r] = len[r] as u64,
            WithCap => self.demand[r] = i,
            Reserve => self.demand[r] = self.demand[r].max(n + i),
            // a clone may copy the spare storage of the original
            Clone if res.hint & 7 >= 3 => self.demand[s] = self.demand[s].max(self.demand[r]),
            Clone => self.demand[s] = self.demand[r],
            SplitOff => self.demand[s] = len[s] as u64,
            // all of the source goes over to the destination
            Append => {}
            // the transient clone and its hint
            ExtendFrom => {}
            _ => {}
        }
        for q in 0..3 {
            self.demand[q] = self.demand[q].max(len[q] as u64);
        }
        h.eval(name(res.code), |h| h.acc(&res));
        for q in touched(&res) {
            let held = (h.v[q].storage_cap() as u64 * (h.info.block as u64 / 8)) as i64;
            if held > self.bound(h, self.demand[q]) {
                return Bad(format!(
                    "after {}: v{} of length {} holds {} bytes; its longest length or reservation so far was {}, which packs into {} bytes",
                    res, q, len[q], held, self.demand[q], h.info.bytes(self.demand[q])
                ));
            }
            // inline storage
            let inl = h.info.inline_blocks();
            if inl > 0 && h.info.blocks(self.demand[q]) <= inl && h.v[q].spilled() {
                return Bad(format!(
                    "after {}: v{} of length {} (longest length or reservation so far {}) is on the heap, though {} blocks fit inline",
                    res, q, len[q], self.demand[q], inl
                ));
            }
        }
        // the peak inside the call. Push and pop runs measure only the last call.
        if !matches!(res.code, PushMany | PopMany | IntoVec | ExtendFrom | Get) {
            let b = self.bound(h, self.demand[r].max(self.demand[s] * matches!(res.code, SplitOff | Append | Clone) as u64));
            if d.peak > b {
                return Bad(format!(
                    "{} on v{} of length {} took {} more bytes at its peak; the elements involved pack into {} bytes",
                    res, r, n, d.peak, h.info.bytes(self.demand[r])
                ));
            }
            if h.counting {
                h.tally.count("call peaks measured", 1);
            }
        }
        if res.code == Shrink {
            let l = len[r] as u64;
            let want = h.info.blocks(l);
            let v = &h.v[r];
            let inl = h.info.inline_blocks();
            let cap_ok = if inl >= want && inl > 0 { !v.spilled() } else { v.storage_cap() as u64 == want };
            if v.storage_len() as u64 != want || !cap_ok {
                return Bad(format!(
                    "after {} at length {}: {} blocks in use, capacity {}; {} elements of {} bits in {}-bit blocks need {}",
                    res, l, v.storage_len(), v.storage_cap(), l, h.info.bits(), h.info.block, want
                ));
            }
            self.demand[r] = l;
        }
        Ok
    }
    fn after_drop(&mut self, leaked: i64) -> Verdict {
        if leaked != 0 {
            return Bad(format!("{} bytes are still allocated after every vector was dropped", leaked));
        }
        Ok
    }
}

/// C09, second part: nothing leaks when panics are caught along the way.
pub struct LeakFaults(pub Faults);
impl Mon for LeakFaults {
    fn steps(&self) -> (u64, u64) {
        (4, 30)
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        h.scope(false);
        let r = if mix(op.b ^ 0xFA) % 2 == 0 {
            let v = self.0.fault(h, op);
            // iterators dropped half way
            let _ = caught(|| {
                let mut it = h.v[0].dup().into_iter();
                it.next();
                it.next_back();
                let mut it2 = h.v[1].iter();
                it2.nth(3);
            });
            v
        } else {
            match build(h, op) {
                Result::Ok(_) => Ok,
                Err(v) => v,
            }
        };
        h.scope(false);
        match r {
            Bad(m) => Foreign(m),
            r => r,
        }
    }
    fn after_drop(&mut self, leaked: i64) -> Verdict {
        if leaked != 0 {
            return Bad(format!("{} bytes are still allocated after every vector and iterator was dropped", leaked));
        }
        Ok
    }
}

// ------------------------------------------------------------------------------ C10

#[derive(Default)]
pub struct Capacity {
    /// capacity promised by the last with_capacity/reserve and not given up since
    promise: [u64; 3],
}
impl Mon for Capacity {
    fn weights(&self, rng: &mut Rng) -> Vec<(Code, u32)> {
        let mut w = weights();
        let free = rng.chance(1, 2);
        boost(&mut w, |c| match c {
            Code::Reserve | Code::WithCap => 4,
            Code::Extend | Code::Resize | Code::Append | Code::Insert => 3,
            Code::Shrink | Code::New | Code::FromVec | Code::FromSlice | Code::FromElem if free => 0,
            Code::FromElem | Code::MacroFill => 0,
            _ => 1,
        });
        w
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let mut res = h.prof.resolve(op, &h.lens());
        let mut rng = h.aux(op, 10);
        let pre = h.obs.clone();
        // reservations that cannot be represented
        if res.code == Code::Reserve && rng.chance(1, 3) || res.code == Code::WithCap && rng.chance(1, 4) {
            return self.huge(h, op, &mut rng);
        }
        // fill exactly up to the reported capacity, one way or another
        let cap: Vec<usize> = (0..3).map(|r| h.v[r].capacity()).collect();
        let room = cap[res.r].saturating_sub(pre[res.r].len());
        if room > 0 && room < 4000 && rng.chance(1, 3) {
            let n = if rng.chance(1, 2) { room } else { rng.below(room as u64 + 1) as usize };
            match res.code {
                Code::PushMany | Code::Extend => res.vals = (0..n as u64).map(|i| h.prof.val(op.v ^ mix(i))).collect(),
                Code::Resize => res.i = pre[res.r].len() + n,
                _ => {}
            }
        }
        h.log(|| format!("{} (capacities {:?})", res, cap));
        h.scope(false);
        let (r, s) = (res.r, res.s);
        let reserving = matches!(res.code, Code::Reserve | Code::Shrink | Code::WithCap);
        h.scope(reserving);
        // count allocations over the whole of a push run
        let mut allocs = 0;
        let got = if res.code == Code::PushMany {
            let vals = res.vals.clone();
            match caught(|| {
                for x in &vals {
                    h.v[r].push(*x);
                    allocs += alloc::last().allocs;
                }
            }) {
                Err(m) => Ret::Panic(m),
                _ => Ret::Unit,
            }
        } else {
            let g = run_real(&res, &mut h.v, h.k);
            allocs = alloc::last().allocs;
            g
        };
        if let Ret::Panic(m) = &got {
            if reserving {
                return Bad(format!("{} panicked: {}", res, m));
            }
            return Foreign(m.clone());
        }
        if let Err(v) = resync(h) {
            if reserving {
                if let Foreign(m) = v {
                    return Bad(format!("after {}: {}", res, m));
                }
            }
            return v;
        }
        h.eval(name(res.code), |h| h.acc(&res));
        let len = h.lens();
        match res.code {
            Code::Reserve | Code::Shrink => {
                if h.obs[r] != pre[r] {
                    return Bad(format!("{} changed the contents: {}", res, diff(&pre[r], &h.obs[r])));
                }
            }
            Code::WithCap => {
                if !h.obs[r].is_empty() {
                    return Bad(format!("{} is not empty: {}", res, show(&h.obs[r])));
                }
            }
            _ => {}
        }
        match res.code {
            Code::Reserve => self.promise[r] = self.promise[r].max((pre[r].len() + res.i) as u64),
            Code::WithCap => self.promise[r] = res.i as u64,
            Code::New | Code::FromIter | Code::FromVec | Code::FromSlice | Code::MacroList | Code::MacroFill | Code::FromElem | Code::Recollect => self.promise[r] = 0,
            Code::Shrink => self.promise[r] = 0,
            Code::Clone | Code::SplitOff => self.promise[s] = 0,
            // the storage of the source may be handed over
            Code::Append => self.promise[s] = 0,
            _ => {}
        }
        for q in 0..3 {
            let c = h.v[q].capacity() as u64;
            if c < len[q] as u64 {
                return Bad(format!("after {}: capacity() of v{} is {} at length {}", res, q, c, len[q]));
            }
        }
        if matches!(res.code, Code::Reserve | Code::WithCap) && (h.v[r].capacity() as u64) < self.promise[r] {
            return Bad(format!("after {}: capacity() is {}, less than {}", res, h.v[r].capacity(), self.promise[r]));
        }
        let grows = matches!(res.code, Code::Push | Code::PushMany | Code::Extend | Code::Insert | Code::Resize | Code::Append | Code::ExtendFrom | Code::Set | Code::Swap);
        let fits = (len[r] as u64) <= (cap[r] as u64).max(self.promise[r]);
        if grows && fits && len[r] > pre[r].len() {
            if h.counting {
                h.tally.count("growth within capacity", 1);
                if len[r] as u64 == cap[r] as u64 {
                    h.tally.count("growth exactly to capacity", 1);
                }
            }
            if allocs > 0 {
                return Bad(format!(
                    "{} grew v{} from {} to {} elements with capacity() {} and {} reserved, and allocated memory {} times",
                    res, r, pre[r].len(), len[r], cap[r], self.promise[r], allocs
                ));
            }
        }
        Ok
    }
}
impl Capacity {
    fn huge(&mut self, h: &mut H, op: &Op, rng: &mut Rng) -> Verdict {
        let r = (op.r % 3) as usize;
        let o = h.obs[r].clone();
        let len = o.len() as u64;
        let pick = |rng: &mut Rng| match rng.below(5) {
            0 => u64::MAX,
            1 => u64::MAX - rng.below(200),
            2 => (u64::MAX - len).saturating_add(1 + rng.below(3)),
            3 => u64::MAX - h.info.epb() * rng.below(4),
            _ => (1u64 << 63) + rng.below(1 << 62),
        };
        let n = pick(rng);
        // Only requests that no address space can hold: others may legitimately end in an
        // out-of-memory abort.
        let impossible = |total: u128| total > u64::MAX as u128 || h.info.bytes(total as u64) as u128 > i64::MAX as u128;
        let impossible = |total: u128| impossible(total) || (total / h.info.epb() as u128) * (h.info.block as u128 / 8) > i64::MAX as u128;
        h.scope(true);
        if rng.chance(2, 3) {
            let total = len as u128 + n as u128;
            if !impossible(total) || (total >> 64 != 0 && len == 0) {
                return Ok;
            }
            let cap = h.v[r].capacity();
            h.log(|| format!("v{}.reserve({}) at length {}", r, n, len));
            h.eval("reserve beyond the address space", |_| {
                let mut a = Acc::new();
                a.add(n);
                o.iter().for_each(|x| a.add(*x));
                Some(a)
            });
            let e = caught(|| h.v[r].reserve(n as usize));
            if e.is_ok() {
                return Bad(format!("reserve({}) at length {} returned, with capacity() {}", n, len, h.v[r].capacity()));
            }
            match observe(&*h.v[r]) {
                Result::Ok(g) if g == o => {}
                Result::Ok(g) => return Bad(format!("a refused reserve({}) changed the contents: {}", n, diff(&o, &g))),
                Err(m) => return Bad(format!("after a refused reserve({}): {}", n, m)),
            }
            if h.v[r].capacity() < cap {
                return Bad(format!("a refused reserve({}) lowered capacity() from {} to {}", n, cap, h.v[r].capacity()));
            }
        } else {
            if !impossible(n as u128) {
                return Ok;
            }
            h.log(|| format!("with_capacity({})", n));
            h.eval("with_capacity beyond the address space", |_| {
                let mut a = Acc::new();
                a.add(n);
                Some(a)
            });
            let e = caught(|| h.v[r].mk_cap(n as usize));
            if let Result::Ok(v) = e {
                return Bad(format!("with_capacity({}) returned, with capacity() {}", n, v.capacity()));
            }
        }
        Ok
    }
}

// ------------------------------------------------------------------------------ C11

pub struct Range;
impl Mon for Range {
    fn steps(&self) -> (u64, u64) {
        (4, 40)
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let mut rng = h.aux(op, 11);
        if rng.chance(1, 3) {
            return match build(h, op) {
                Result::Ok(_) => Ok,
                Err(v) => v,
            };
        }
        let r = (op.r % 3) as usize;
        let o = h.obs[r].clone();
        let n = o.len();
        let e = h.info.epb() as usize;
        let x = h.prof.val(op.v);
        // at or past the end
        let pos = |rng: &mut Rng| -> usize {
            match rng.below(10) {
                0 | 1 => n,
                2 => n + 1,
                3 => usize::MAX,
                4 => usize::MAX - rng.below(3 * e as u64 + 2) as usize,
                5 => n + rng.below(2 * e as u64 + 2) as usize,
                // the last element of the last block in use, and the ends of spare blocks
                6 => ((h.v[r].storage_len() * e).max(n + 1)) - 1 + rng.below(2) as usize,
                7 => (h.v[r].capacity().max(n)).min(1 << 40),
                8 => n.max(1usize << rng.range(20, 63)),
                _ => n + rng.below(200) as usize,
            }
            .max(n)
        };
        let i = pos(&mut rng);
        let j = if n == 0 { 0 } else { rng.below(n as u64) as usize };
        let which = rng.below(10);
        let d = match which {
            0 => format!("get({})", i),
            1 => format!("set({}, {})", i, x),
            2 => format!("insert({}, {})", if i == n { n + 1 } else { i }, x),
            3 => format!("remove({})", i),
            4 => format!("swap({}, {})", i, j),
            5 => format!("swap({}, {})", j, i),
            6 => format!("swap_remove({})", i),
            7 => format!("split_off({})", if i == n { n + 1 } else { i }),
            8 => format!("truncate({})", i),
            _ => "pop() on an empty vector".to_string(),
        };
        let i1 = if i == n { n + 1 } else { i };
        h.log(|| format!("v{}.{} at length {}", r, d, n));
        h.scope(true);
        let label = match which {
            0 => "get", 1 => "set", 2 => "insert", 3 => "remove", 4 | 5 => "swap", 6 => "swap_remove", 7 => "split_off", 8 => "truncate beyond the end", _ => "pop when empty",
        };
        h.eval(label, |_| {
            let mut a = Acc::new();
            a.add(which);
            a.add(i as u64);
            o.iter().for_each(|x| a.add(*x));
            Some(a)
        });
        if which == 9 {
            let c = caught(|| h.v[r].clear());
            if c.is_err() {
                return Foreign("clear panicked".into());
            }
            h.obs[r] = vec![];
            for _ in 0..3 {
                match caught(|| h.v[r].pop()) {
                    Result::Ok(None) => {}
                    g => return Bad(format!("pop on an empty vector gave {:?}", g)),
                }
            }
            return match caught(|| (h.v[r].len(), h.v[r].get(0), h.v[r].is_empty())) {
                Result::Ok((0, None, true)) => Ok,
                g => Bad(format!("after pop on an empty vector, (len, get(0), is_empty) is {:?}", g)),
            };
        }
        let v = &mut h.v[r];
        let got: Result<Option<String>, String> = caught(|| match which {
            0 => v.get(i).map(|x| format!("Some({})", x)),
            1 => { v.set(i, x); Some(String::new()) }
            2 => { v.insert(i1, x); Some(String::new()) }
            3 => Some(v.remove(i).to_string()),
            4 => { v.swap(i, j); Some(String::new()) }
            5 => { v.swap(j, i); Some(String::new()) }
            6 => Some(v.swap_remove(i).to_string()),
            7 => { let t = v.split_off(i1); Some(format!("a vector of length {}", t.len())) }
            _ => { v.truncate(i); None }
        });
        let wants_none = which == 0 || which == 8;
        match (&got, wants_none) {
            (Result::Ok(None), true) => {}
            (Err(_), false) => {}
            (Result::Ok(Some(s)), _) => return Bad(format!("{} at length {} was accepted and gave {:?}; the vector is now {}", d, n, s, observe(&*h.v[r]).map(|x| show(&x)).unwrap_or_else(|m| m))),
            (Result::Ok(None), false) => return Bad(format!("{} at length {} was accepted", d, n)),
            (Err(m), true) => return Bad(format!("{} at length {} panicked: {}", d, n, m)),
        }
        match read_all(h) {
            Err(m) => return Bad(format!("after a refused {} at length {}: {}", d, n, m)),
            Result::Ok(now) => {
                for q in 0..3 {
                    if now[q] != h.obs[q] {
                        return Bad(format!("a refused {} at length {} changed v{}: {}", d, n, q, diff(&h.obs[q], &now[q])));
                    }
                }
            }
        }
        // and the vector still works
        let e = caught(|| {
            h.v[r].push(x);
            h.v[r].pop()
        });
        if e != Result::Ok(Some(x)) {
            return Bad(format!("after a refused {} at length {}, push({}) and pop gave {:?}", d, n, x, e));
        }
        match observe(&*h.v[r]) {
            Result::Ok(g) if g == o => Ok,
            g => Bad(format!("after a refused {} at length {}, push and pop left {:?}", d, n, g.map(|x| show(&x)))),
        }
    }
}

// ------------------------------------------------------------------------------ C25

pub struct Layout;
impl Layout {
    fn field(h: &H, v: &dyn DynVec, i: usize) -> u64 {
        let k = h.info.epb() as usize;
        let b = h.info.bits();
        let block = v.block(i / k);
        let sh = (i % k) as u32 * b;
        let m = if b == 128 { !0u128 } else { (1u128 << b) - 1 };
        (block >> sh & m) as u64
    }
    fn blocks(v: &dyn DynVec) -> Vec<u128> {
        (0..v.storage_len()).map(|i| v.block(i)).collect()
    }
    fn check(&self, h: &mut H, r: usize, what: &str) -> Verdict {
        let n = h.obs[r].len();
        let v = &h.v[r];
        if (v.storage_len() as u64) < h.info.blocks(n as u64) {
            return Bad(format!("{}: v{} of length {} has {} blocks, fewer than the {} its elements need", what, r, n, v.storage_len(), h.info.blocks(n as u64)));
        }
        for i in 0..n {
            let f = Self::field(h, &**v, i);
            if f != h.obs[r][i] {
                return Bad(format!("{}: field {} of block {} of v{} holds {}, but element {} has discriminant {}", what, i as u64 % h.info.epb(), i as u64 / h.info.epb(), r, f, i, h.obs[r][i]));
            }
            let g = unsafe { v.raw_get(i) } as u64;
            if g != f {
                return Bad(format!("{}: get_raw_unchecked({}) is {}, the field holds {}", what, i, g, f));
            }
        }
        h.eval("layouts decoded", |h| {
            let mut a = Acc::new();
            h.obs[r].iter().for_each(|x| a.add(*x));
            if n == 0 { None } else { Some(a) }
        });
        Ok
    }
}
impl Mon for Layout {
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let mut rng = h.aux(op, 25);
        let r = (op.r % 3) as usize;
        let n = h.obs[r].len();
        let e = h.info.epb() as usize;
        let bits = h.info.bits();
        let mask = (1u128 << bits) - 1;
        match rng.below(8) {
            // raw set of one element
            0 | 1 if n > 0 => {
                let i = rng.below(n as u64) as usize;
                let d = h.prof.val(op.v);
                let before = Self::blocks(&*h.v[r]);
                h.log(|| format!("v{}.set_raw_unchecked({}, {}) at length {}", r, i, d, n));
                h.scope(true);
                if let Err(m) = caught(|| unsafe { h.v[r].raw_set(i, d as usize) }) {
                    return Bad(format!("set_raw_unchecked({}, {}) at length {} panicked: {}", i, d, n, m));
                }
                let mut want = before;
                let sh = (i % e) as u32 * bits;
                want[i / e] = want[i / e] & !(mask << sh) | (d as u128) << sh;
                let got = Self::blocks(&*h.v[r]);
                if got != want {
                    return Bad(format!("set_raw_unchecked({}, {}) at length {} left blocks {:x?} instead of {:x?}", i, d, n, got, want));
                }
                h.obs[r][i] = d;
                h.eval("raw sets", |h| {
                    let mut a = Acc::new();
                    a.add(i as u64);
                    a.add(d);
                    h.obs[r].iter().for_each(|x| a.add(*x));
                    Some(a)
                });
                self.check(h, r, "after a raw set")
            }
            // reserve, raw set of the new elements, set_len
            2 => {
                let add = rng.below(h.prof.max_len as u64 / 2 + 2) as usize;
                if n + add > 3 * h.prof.max_len {
                    return Ok;
                }
                let vals: Vec<u64> = (0..add as u64).map(|i| h.prof.val(op.v ^ mix(i))).collect();
                h.log(|| format!("v{}.reserve({}); raw set of {} from {}; set_len({})", r, add, show(&vals), n, n + add));
                h.scope(true);
                if let Err(m) = caught(|| h.v[r].reserve(add)) {
                    return Foreign(m);
                }
                if (h.v[r].storage_len() as u64) < h.info.blocks((n + add) as u64) {
                    return Bad(format!("after reserve({}) at length {} the storage has {} blocks, {} are needed for raw access to the reserved elements", add, n, h.v[r].storage_len(), h.info.blocks((n + add) as u64)));
                }
                let back = rng.chance(1, 2);
                // the order in which they are written is the caller's choice
                let mut order: Vec<(usize, u64)> = vals.iter().cloned().enumerate().collect();
                let how = match rng.below(4) {
                    0 | 1 => "ascending",
                    2 => {
                        order.reverse();
                        "descending"
                    }
                    _ => {
                        order.sort_unstable_by_key(|x| mix(x.0 as u64 ^ op.v));
                        "mixed"
                    }
                };
                h.log(|| format!("(written in {} order)", how));
                if let Err(m) = caught(|| unsafe {
                    if back {
                        h.v[r].set_len(n + add);
                    }
                    for (i, d) in &order {
                        h.v[r].raw_set(n + i, *d as usize);
                    }
                    if !back {
                        h.v[r].set_len(n + add);
                    }
                }) {
                    return Bad(format!("raw set of reserved elements panicked: {}", m));
                }
                let mut want = h.obs[r].clone();
                want.extend(vals);
                match observe(&*h.v[r]) {
                    Result::Ok(g) if g == want => h.obs[r] = want,
                    Result::Ok(g) => return Bad(format!("after reserve({}), raw sets and set_len at length {}: {}", add, n, diff(&want, &g))),
                    Err(m) => return Bad(format!("after reserve({}), raw sets and set_len at length {}: {}", add, n, m)),
                }
                h.eval("set_len after reserve", |_| Some(Acc(op.v ^ n as u64)));
                self.check(h, r, "after reserve, raw set and set_len")
            }
            // shorten with set_len
            3 if n > 0 => {
                let k = rng.below(n as u64 + 1) as usize;
                h.log(|| format!("v{}.set_len({}) at length {}", r, k, n));
                h.scope(true);
                let before = Self::blocks(&*h.v[r]);
                unsafe { h.v[r].set_len(k) };
                if Self::blocks(&*h.v[r]) != before {
                    return Bad(format!("set_len({}) changed the storage", k));
                }
                h.obs[r].truncate(k);
                match observe(&*h.v[r]) {
                    Result::Ok(g) if g == h.obs[r] => {}
                    Result::Ok(g) => return Bad(format!("after set_len({}): {}", k, diff(&h.obs[r], &g))),
                    Err(m) => return Bad(format!("after set_len({}): {}", k, m)),
                }
                h.eval("set_len downwards", |_| Some(Acc(op.v ^ n as u64)));
                self.check(h, r, "after set_len")
            }
            // edit one block in place
            4 if n > 0 => {
                let i = rng.below(h.info.blocks(n as u64)) as usize;
                let mut b = 0u128;
                let mut ds = vec![];
                for j in 0..e {
                    let d = h.prof.val(op.v ^ mix(j as u64));
                    ds.push(d);
                    b |= (d as u128) << (j as u32 * bits);
                }
                // bits that belong to no element are free
                let used = e as u32 * bits;
                if used < h.info.block && rng.chance(1, 2) {
                    let full = if h.info.block == 128 { !0u128 } else { (1u128 << h.info.block) - 1 };
                    let junk = (rng.next() as u128) << 64 | rng.next() as u128;
                    b |= junk << used & full;
                }
                h.log(|| format!("v{}.storage_mut()[{}] = {:#x} at length {}", r, i, b, n));
                h.scope(true);
                h.v[r].set_block(i, b);
                for j in 0..e {
                    if i * e + j < n {
                        h.obs[r][i * e + j] = ds[j];
                    }
                }
                let want = h.obs[r].clone();
                match observe(&*h.v[r]) {
                    Result::Ok(g) if g == want => {}
                    Result::Ok(g) => return Bad(format!("after storage_mut()[{}] = {:#x}: {}", i, b, diff(&want, &g))),
                    Err(m) => return Bad(format!("after storage_mut()[{}] = {:#x}: {}", i, b, m)),
                }
                h.eval("blocks edited in place", |_| Some(Acc(op.v ^ n as u64)));
                self.check(h, r, "after an edit of a block")
            }
            // grow the storage by hand
            5 if n > 0 && op.b % 3 == 0 => {
                let l = h.v[r].storage_len() + rng.below(3) as usize;
                h.log(|| format!("v{}.storage_mut().resize({}, 0)", r, l));
                h.v[r].resize_storage(l);
                self.check(h, r, "after resizing the storage")
            }
            _ => {
                let res = match build(h, op) {
                    Result::Ok(r) => r,
                    Err(v) => return v,
                };
                h.scope(true);
                for q in touched(&res) {
                    if let Bad(m) = self.check(h, q, &format!("after {}", res)) {
                        return Bad(m);
                    }
                }
                Ok
            }
        }
    }
}

// ------------------------------------------------------------------------------ C07

/// Everything safe, with hostile arguments; the judge is the sanitizer or interpreter around
/// this process, or the fatal signal of a debug check. Nothing functional is judged here.
pub struct Hostile;
impl Mon for Hostile {
    fn steps(&self) -> (u64, u64) {
        (6, 40)
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let mut rng = h.aux(op, 7);
        h.scope(true);
        let r = (op.r % 3) as usize;
        let n = h.v[r].len();
        // a vector that reports nonsense is still walked, but not to the end
        if n > 1 << 20 {
            let _ = caught(|| (h.v[r].get(n - 1), h.v[r].get(n / 2)));
            return Foreign(format!("length {}", n));
        }
        let e = h.info.epb() as usize;
        let big = |rng: &mut Rng| match rng.below(6) {
            0 => usize::MAX,
            1 => usize::MAX - rng.below(2 * e as u64 + 2) as usize,
            2 => n,
            3 => n + rng.below(e as u64 * 2 + 2) as usize,
            4 => (usize::MAX - n).saturating_add(rng.below(2) as usize),
            _ => rng.below(n as u64 + 1) as usize,
        };
        let x = h.prof.val(op.v);
        match rng.below(6) {
            0 => {
                let i = big(&mut rng);
                let j = big(&mut rng);
                let w = rng.below(12);
                h.log(|| format!("v{}: hostile call {} with {} and {} at length {}", r, w, i, j, n));
                h.eval("hostile arguments", |_| Some(Acc(mix(op.v) ^ i as u64 ^ w)));
                let _ = caught(|| {
                    let v = &mut h.v[r];
                    match w {
                        0 => drop(v.get(i)),
                        1 => v.set(i, x),
                        2 => v.insert(i, x),
                        3 => drop(v.remove(i)),
                        4 => v.swap(i, j),
                        5 => drop(v.swap_remove(i)),
                        6 => drop(v.split_off(i)),
                        7 => v.truncate(i),
                        8 => {
                            let mut it = v.iter();
                            it.nth(i);
                            it.nth_back(j);
                            it.next();
                        }
                        9 => {
                            let mut it = v.dup().into_iter();
                            it.nth(i);
                            it.next_back();
                            it.nth(j);
                        }
                        10 => {
                            // only what cannot succeed, or is small
                            let total = n as u128 + i as u128;
                            let eb = h.info.block as u128 / 8;
                            if total < 1 << 20 || (total >> 64) > 0 || total / e as u128 * eb > i64::MAX as u128 {
                                v.reserve(i)
                            }
                        }
                        _ => {
                            let total = i as u128;
                            let eb = h.info.block as u128 / 8;
                            if total < 1 << 20 || total / e as u128 * eb > i64::MAX as u128 {
                                drop(v.mk_cap(i))
                            }
                        }
                    }
                });
            }
            1 => {
                // clone, equality, hash, formatting, comparisons between registers
                h.log(|| format!("v{}: clone, ==, hash, Debug, iterate", r));
                h.eval("whole-vector reads", |_| Some(Acc(mix(op.v) ^ n as u64)));
                let s = (r + 1) % 3;
                let _ = caught(|| {
                    let c = h.v[r].dup();
                    let _ = (c.eq(&*h.v[r]), c.eq(&*h.v[s]), c.hash_sip(), c.debug().len(), c.any(x), c.all(x));
                    let _ = DI(c.iter()).rev().count();
                    let mut it = c.into_iter();
                    it.next_back();
                });
            }
            2 => {
                let mut m = Faults { strict: false };
                let _ = m.fault(h, op);
            }
            _ => {
                let lens = [h.v[0].len().min(1 << 20), h.v[1].len().min(1 << 20), h.v[2].len().min(1 << 20)];
                let res = h.prof.resolve(op, &lens);
                h.log(|| res.to_string());
                h.eval(name(res.code), |_| Some(Acc(mix(op.v) ^ res.i as u64 ^ n as u64)));
                let _ = run_real(&res, &mut h.v, h.k);
            }
        }
        // every element is read, whatever it is
        for q in 0..3 {
            let n = h.v[q].len();
            let m = n.min(4096);
            let _ = caught(|| {
                for i in 0..m {
                    h.v[q].get(i);
                }
                if n > 0 {
                    h.v[q].get(n - 1);
                }
            });
            h.obs[q].clear();
            let _ = caught(|| h.obs[q] = (0..m).filter_map(|i| h.v[q].get(i)).collect());
        }
        Ok
    }
}

// ------------------------------------------------------------------------------ C13

/// The same program on several storages at once.
#[derive(Default)]
pub struct Lockstep {
    pub peers: Vec<Regs>,
}
impl Mon for Lockstep {
    fn start(&mut self, h: &mut H) {
        let g = lockstep_groups().into_iter().find(|g| g[0]().info().elem == h.info.elem).expect("group");
        self.peers = g.iter().filter(|m| m().info().storage != h.info.storage).map(|m| regs(*m)).collect();
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict {
        let mut rng = h.aux(op, 13);
        let res = h.prof.resolve(op, &h.lens());
        let r = res.r;
        h.scope(false);
        let strip = |r: Ret| match r {
            Ret::Panic(_) => Ret::Panic(String::new()),
            r => r,
        };
        // 1 in 6: an out-of-range or faulty call instead, compared for whether it panics
        let odd = rng.chance(1, 6);
        let n = h.obs[r].len();
        let w = rng.below(9);
        let i = if rng.chance(1, 2) { n + rng.below(3) as usize } else { usize::MAX - rng.below(5) as usize };
        let x = h.prof.val(op.v);
        let vals: Vec<u64> = (0..rng.below(40)).map(|i| h.prof.val(op.v ^ mix(i))).collect();
        let at = rng.below(41) as usize;
        let mode = rng.below(7) as u8;
        let call = |v: &mut Regs, k: u64| -> Ret {
            if !odd {
                return strip(run_real(&res, v, k));
            }
            let v = &mut v[r];
            strip(match caught(|| match w {
                0 => Ret::Opt(v.get(i)),
                1 => { v.set(i, x); Ret::Unit }
                2 => { v.insert(i, x); Ret::Unit }
                3 => Ret::Val(v.remove(i)),
                4 => { v.swap(0, i); Ret::Unit }
                5 => Ret::Val(v.swap_remove(i)),
                6 => Ret::List(v.split_off(i).to_vec()),
                7 => { v.truncate(i); Ret::Unit }
                _ => {
                    let mut it = HintIter::new(&vals, mode);
                    it.panic_at = Some(at);
                    it.excess = 3;
                    v.extend(&mut it);
                    Ret::Unit
                }
            }) {
                Result::Ok(r) => r,
                Err(m) => Ret::Panic(m),
            })
        };
        if odd {
            h.log(|| format!("v{}: unusual call {} at {} of {}", r, w, i, n));
        } else {
            h.log(|| res.to_string());
        }
        h.eval(if odd { "unusual calls in lock-step" } else { name(res.code) }, |h| h.acc(&res));
        let k = h.k;
        h.scope(true);
        let a = call(&mut h.v, k);
        let obs = |v: &Regs, x: u64| -> Result<_, String> {
            let mut o = vec![];
            for q in 0..3 {
                let c = observe(&*v[q])?;
                let (any, all, e) = caught(|| (v[q].any(x), v[q].all(x), (v[q].eq(&*v[(q + 1) % 3]), v[q].is_empty(), format!("{} hash {:x} {:x}", v[q].debug(), v[q].hash_sip(), v[q].hash_bytes()))))?;
                let it: Vec<u64> = caught(|| v[q].iter().collect())?;
                let alt = if c.len() <= 30 { caught(|| v[q].debug_alt())? } else { String::new() };
                // the same calls on an iterator, from both ends
                let walk = |it: &mut dyn DynIter| {
                    let mut rng = Rng::new(x, 13, it.len() as u64);
                    (0..12).map(|_| match rng.below(6) {
                        0 => (it.next(), 0),
                        1 => (it.next_back(), 0),
                        2 => (it.nth(rng.below(9) as usize), 1),
                        3 => (it.nth(rng.below(2 * c.len() as u64 + 2) as usize), 2),
                        4 => (None, it.len()),
                        _ => (it.size_hint().1.map(|x| x as u64), it.size_hint().0),
                    }).collect::<Vec<_>>()
                };
                let w = caught(|| (walk(&mut *v[q].iter()), walk(&mut *v[q].dup().into_iter())))?;
                o.push((c, any, all, e, it, alt, w));
            }
            Result::Ok(o)
        };
        let oa = obs(&h.v, x);
        for p in self.peers.iter_mut() {
            let b = call(p, k);
            let st = p[0].info().storage;
            if a != b {
                return Bad(format!("{}: with storage {} it returned {}, with storage {} {}", if odd { format!("unusual call {} at {} (length {})", w, i, n) } else { res.to_string() }, h.info.storage, show_ret(&a), st, show_ret(&b)));
            }
            let ob = obs(p, x);
            match (&oa, &ob) {
                (Result::Ok(x1), Result::Ok(x2)) if x1 == x2 => {}
                (Err(_), Err(_)) => {}
                _ => {
                    type Walk = Vec<(Option<u64>, usize)>;
                    let s = |o: &Result<Vec<(Vec<u64>, bool, bool, (bool, bool, String), Vec<u64>, String, (Walk, Walk))>, String>| match o {
                        Result::Ok(v) => v.iter().enumerate().map(|(q, t)| format!("v{} = {} any/all({}) {} {} eq-next/empty {} {} iter {}, walks {:?} {:?}, {{:#?}} {:?}", q, show(&t.0), x, t.1, t.2, t.3 .0, t.3 .1, show(&t.4), t.6 .0, t.6 .1, t.5)).collect::<Vec<_>>().join("; "),
                        Err(m) => m.clone(),
                    };
                    return Bad(format!("after {}: storage {} shows {}, storage {} shows {}", if odd { format!("unusual call {} at {} (length {})", w, i, n) } else { res.to_string() }, h.info.storage, s(&oa), st, s(&ob)));
                }
            }
            if h.counting {
                h.tally.count("storages compared", 1);
            }
        }
        match oa {
            Result::Ok(o) => {
                for (q, t) in o.into_iter().enumerate() {
                    h.obs[q] = t.0;
                }
                if matches!(a, Ret::Panic(_)) && !odd {
                    return Foreign("an ordinary step panics on every storage".into());
                }
                Ok
            }
            Err(m) => Foreign(m),
        }
    }
}
