//! Operation histories over up to three vectors, the list model, and the generator.
use crate::dynvec::{DynVec, Info, Mk};
use crate::report::caught;
use crate::rng::{mix, Rng};
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Code {
    Push, Pop, Set, Get, PushMany, PopMany, SetLast,
    Insert, Remove, SwapRemove, Swap, Retain, Truncate, SplitOff,
    Extend, FromIter, FromVec, FromSlice, MacroFill, MacroList, FromElem, Resize, Append,
    Recollect, IntoVec, ExtendFrom,
    Clone, Reserve, Shrink, WithCap, New, ForEach, Clear,
}
use Code::*;

pub const ALL: &[Code] = &[
    Push, Pop, Set, Get, PushMany, PopMany, SetLast, Insert, Remove, SwapRemove, Swap, Retain, Truncate,
    SplitOff, Extend, FromIter, FromVec, FromSlice, MacroFill, MacroList, FromElem, Resize, Append,
    Recollect, IntoVec, ExtendFrom, Clone, Reserve, Shrink, WithCap, New, ForEach, Clear,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fam { Elem, Pos, Bulk, Meta }

pub fn fam(c: Code) -> Fam {
    match c {
        Push | Pop | Set | Get | PushMany | PopMany | SetLast => Fam::Elem,
        Insert | Remove | SwapRemove | Swap | Retain | Truncate | SplitOff => Fam::Pos,
        Extend | FromIter | FromVec | FromSlice | MacroFill | MacroList | FromElem | Resize | Append | Recollect
        | IntoVec | ExtendFrom => Fam::Bulk,
        Clone | Reserve | Shrink | WithCap | New | ForEach | Clear => Fam::Meta,
    }
}

/// An operation before its arguments are fitted to the current state. Any sub-list of a list of
/// these is again a valid history, which is what makes failing histories shrinkable.
#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub code: Code,
    pub r: u8,
    pub s: u8,
    pub a: u64,
    pub b: u64,
    pub v: u64,
}

/// An operation with concrete arguments.
#[derive(Clone)]
pub struct Res {
    pub code: Code,
    pub r: usize,
    pub s: usize,
    pub i: usize,
    pub j: usize,
    pub v: u64,
    pub vals: Vec<u64>,
    pub hint: u8,
    /// for Retain: bit p of keep decides position p mod 64
    pub keep: u64,
}

fn brief(v: &[u64]) -> String {
    if v.len() > 40 { format!("[{} values: {:?}..{:?}]", v.len(), &v[..8], &v[v.len() - 4..]) } else { format!("{:?}", v) }
}
pub fn show(v: &[u64]) -> String {
    brief(v)
}

impl fmt::Display for Res {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (r, s, i, j, v) = (self.r, self.s, self.i, self.j, self.v);
        match self.code {
            Push => write!(f, "v{}.push({})", r, v),
            PushMany => write!(f, "for x in {} {{ v{}.push(x) }}", brief(&self.vals), r),
            Pop => write!(f, "v{}.pop()", r),
            PopMany => write!(f, "for _ in 0..{} {{ v{}.pop() }}", i, r),
            Set | SetLast => write!(f, "v{}.set({}, {})", r, i, v),
            Get => write!(f, "v{}.get({})", r, i),
            Insert => write!(f, "v{}.insert({}, {})", r, i, v),
            Remove => write!(f, "v{}.remove({})", r, i),
            SwapRemove => write!(f, "v{}.swap_remove({})", r, i),
            Swap => write!(f, "v{}.swap({}, {})", r, i, j),
            Retain => write!(f, "v{}.retain(position bits {:#x})", r, self.keep),
            Truncate => write!(f, "v{}.truncate({})", r, i),
            SplitOff => write!(f, "v{} = v{}.split_off({})", s, r, i),
            Extend => write!(f, "v{}.extend({}, hint mode {})", r, brief(&self.vals), self.hint),
            FromIter => write!(f, "v{} = {}.collect(), hint mode {}", r, brief(&self.vals), self.hint),
            FromVec => write!(f, "v{} = Vec{}.into()", r, brief(&self.vals)),
            FromSlice => write!(f, "v{} = from_slice({})", r, brief(&self.vals)),
            MacroFill => write!(f, "v{} = enum_vec![{}; {}]", r, v, i),
            MacroList => write!(f, "v{} = enum_vec!{}", r, brief(&self.vals)),
            FromElem => write!(f, "v{} = from_elem({}, {})", r, v, i),
            Resize => write!(f, "v{}.resize({}, {})", r, i, v),
            Append => write!(f, "v{}.append(&mut v{})", r, s),
            Recollect => write!(f, "v{} = v{}.into_iter().collect()", r, r),
            IntoVec => write!(f, "v{}: into Vec, and to_vec", r),
            ExtendFrom => write!(f, "v{}.extend(v{}.clone())", r, s),
            Clone if self.hint & 7 >= 3 => write!(f, "v{}.clone_from(&v{})", s, r),
            Clone => write!(f, "v{} = v{}.clone()", s, r),
            Reserve => write!(f, "v{}.reserve({})", r, i),
            Shrink => write!(f, "v{}.shrink_to_fit()", r),
            WithCap => write!(f, "v{} = with_capacity({})", r, i),
            New => write!(f, "v{} = new()", r),
            ForEach => write!(f, "v{}.for_each(add {})", r, v),
            Clear => write!(f, "v{}.clear()", r),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Unit,
    Val(u64),
    Opt(Option<u64>),
    List(Vec<u64>),
    Panic(String),
}

/// An iterator with a chosen kind of size_hint, which may also panic at a chosen item.
pub struct HintIter<'a> {
    pub vals: &'a [u64],
    pub pos: usize,
    pub mode: u8,
    pub panic_at: Option<usize>,
    pub excess: usize,
    /// how many more items it yields, if asked again after it has ended
    pub again: usize,
}
impl<'a> HintIter<'a> {
    pub fn new(vals: &'a [u64], mode: u8) -> Self {
        HintIter { vals, pos: 0, mode: mode & 7, panic_at: None, excess: 0, again: if mode & 8 != 0 { 4 } else { 0 } }
    }
}
impl<'a> Iterator for HintIter<'a> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        if self.panic_at == Some(self.pos) {
            self.panic_at = None;
            panic!("injected panic in iterator");
        }
        let x = self.vals.get(self.pos).copied();
        if x.is_some() {
            self.pos += 1;
        } else if self.again > 0 {
            // ends now, but not for good
            self.again -= 1;
            if self.again < 3 {
                return self.vals.first().copied();
            }
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let r = self.vals.len() - self.pos;
        match self.mode {
            0 => (r, Some(r)),
            1 => (0, None),
            2 => (r / 2, Some(r)),
            3 => (r.min(1), None),
            4 => (r, None),
            // dishonest: lower bound too high
            5 => (r + self.excess, Some(r + self.excess)),
            // dishonest: upper bound too low
            _ => (0, Some(0)),
        }
    }
}

/// Case-wide choices: values, register count, size regime.
#[derive(Clone, Debug)]
pub struct Profile {
    pub pal: Vec<u64>,
    /// of 16: how often a value is the first of the palette
    pub bias: u64,
    /// of 16: how often a value is fully random
    pub wild: u64,
    pub max_len: usize,
    pub epb: u64,
    pub k: u64,
}

pub fn profile(rng: &mut Rng, info: &Info, small: bool) -> Profile {
    let k = info.k;
    let x = rng.below(k);
    let near = |rng: &mut Rng, x: u64| -> u64 {
        match rng.below(6) {
            0 => (x ^ 1) % k,
            1 => (x + 1).min(k - 1),
            2 => x.saturating_sub(1),
            3 => k - 1,
            4 => 0,
            _ => (x ^ (1u64 << rng.below(info.bits() as u64))) % k,
        }
    };
    let mut pal = vec![x];
    for _ in 0..rng.below(4) {
        let b = pal[rng.below(pal.len() as u64) as usize];
        pal.push(near(rng, b));
    }
    if rng.chance(1, 3) {
        pal[0] = *rng.pick(&[0, k - 1, k / 2, 1]) % k;
    }
    let epb = info.epb();
    let blocks = match rng.below(if small { 4 } else { 10 }) {
        0 => 1,
        1 | 2 => 2,
        3 | 4 => 4,
        5 | 6 | 7 => 7,
        _ => 12,
    };
    let max_len = ((blocks * epb + rng.below(epb + 2)) as usize).min(if small { 40 } else { 900 }).max(3);
    Profile { pal, bias: *rng.pick(&[0, 4, 12, 15]), wild: *rng.pick(&[0, 0, 2, 16]), max_len, epb, k }
}

/// A profile for vectors far longer than those of the ordinary histories.
pub fn large_profile(rng: &mut Rng, info: &Info) -> Profile {
    let mut p = profile(rng, info, false);
    let top = 1000u64 << rng.below(8);
    p.max_len = (top + rng.below(top)) as usize;
    if rng.chance(1, 4) {
        // on a power of two of blocks or elements, or next to it
        let e = if rng.chance(1, 2) { p.epb } else { 1 };
        let n = e << rng.below(18);
        if n > 1000 && n < 300_000 {
            p.max_len = (n + rng.below(3) - 1) as usize;
        }
    }
    p
}

impl Profile {
    pub fn val(&self, seed: u64) -> u64 {
        let h = mix(seed ^ 0x55AA);
        if h % 16 < self.wild {
            return mix(h) % self.k;
        }
        if (h >> 8) % 16 < self.bias {
            return self.pal[0];
        }
        self.pal[((h >> 16) % self.pal.len() as u64) as usize]
    }
    fn vals(&self, seed: u64, n: usize) -> Vec<u64> {
        (0..n as u64).map(|i| self.val(seed ^ mix(i + 77))).collect()
    }
    /// a position in 0..n (n > 0), biased to ends and block edges
    fn index(&self, a: u64, n: usize) -> usize {
        let n64 = n as u64;
        let h = a >> 4;
        (match a % 16 {
            0 | 1 => 0,
            2 | 3 => n64 - 1,
            4..=8 => {
                let e = (h % (n64 / self.epb + 1)) * self.epb;
                (e + (h >> 20) % 3).saturating_sub(1).min(n64 - 1)
            }
            _ => h % n64,
        }) as usize
    }
    /// a count in 0..=room, biased to small numbers and block edges
    fn count(&self, a: u64, len: usize, room: usize) -> usize {
        let h = a >> 4;
        let n = match a % 16 {
            0 => h % 3,
            1 | 2 => h % (self.epb + 2),
            // land the new length on or next to a block edge
            3..=6 => {
                let e = (len as u64 / self.epb + 1 + h % 3) * self.epb + (h >> 20) % 3;
                e.saturating_sub(1 + len as u64)
            }
            // the fill threshold: 4 blocks and neighbours
            7 | 8 => (4 + h % 2) * self.epb + (h >> 20) % 3 - 1 + ((h >> 40) % 2) * ((h >> 44) % (self.epb + 1)),
            _ => h % (room as u64 + 1),
        };
        (n as usize).min(room)
    }

    pub fn resolve(&self, op: &Op, lens: &[usize; 3]) -> Res {
        let mut r = (op.r % 3) as usize;
        let mut s = (op.s % 3) as usize;
        if s == r {
            s = (r + 1) % 3;
        }
        let mut code = op.code;
        // operations needing an element, on an empty vector: prefer another register, else push
        let needs = matches!(code, Set | SetLast | Insert | Remove | SwapRemove | Swap | Get);
        if needs && code != Insert && lens[r] == 0 {
            if let Some(q) = (0..3).find(|q| lens[*q] > 0) {
                r = q;
                if s == r {
                    s = (r + 1) % 3;
                }
            } else {
                code = PushMany;
            }
        }
        let len = lens[r];
        let room = self.max_len.saturating_sub(len);
        let mut res = Res { code, r, s, i: 0, j: 0, v: self.val(op.v), vals: vec![], hint: (op.b % 5) as u8 | if op.b >> 9 & 3 == 0 { 8 } else { 0 }, keep: 0 };
        // a full vector does not grow: remove instead
        if room == 0 {
            match code {
                Push | PushMany => code = PopMany,
                Insert => code = Remove,
                Extend | ExtendFrom => code = Truncate,
                _ => {}
            }
        }
        if code == Append && len + lens[s] > 2 * self.max_len {
            code = Truncate;
        }
        if code == ExtendFrom && len + lens[s] > 2 * self.max_len {
            code = Truncate;
        }
        res.code = code;
        match code {
            Push | Pop | Clear | New | Shrink | Clone | Append | Recollect | IntoVec | ExtendFrom | ForEach => {}
            PushMany | Extend => res.vals = self.vals(op.v, self.count(op.a, len, room)),
            PopMany => res.i = self.count(op.a, 0, len + 2),
            Set | Get | Remove | SwapRemove => res.i = self.index(op.a, len),
            SetLast => {
                res.code = Set;
                res.i = len - 1;
            }
            Insert => res.i = self.index(op.a, len + 1),
            Swap => {
                res.i = self.index(op.a, len);
                res.j = self.index(op.b, len);
            }
            Retain => {
                res.keep = match op.b % 8 {
                    0 => 0,
                    1 => !0,
                    2 => !(1 << (op.a % 64)),
                    3 => 1 << (op.a % 64),
                    4 => op.a & op.v,
                    5 => op.a | op.v,
                    _ => op.a,
                }
            }
            Truncate => res.i = if op.b % 8 == 0 { len + (op.a % 70) as usize } else { self.index(op.a, len + 1) },
            SplitOff => res.i = self.index(op.a, len + 1),
            FromIter | FromVec | FromSlice => res.vals = self.vals(op.v, self.count(op.a, 0, self.max_len)),
            MacroList => res.vals = self.vals(op.v, (op.a % 5) as usize),
            MacroFill | FromElem | WithCap => res.i = self.count(op.a, 0, self.max_len),
            Resize => {
                res.i = if op.b % 3 == 0 { self.index(op.a, len + 1) } else { len + self.count(op.a, len, room) }
            }
            Reserve => res.i = self.count(op.a, len, self.max_len * 2),
        }
        res
    }
}

/// What the operation does to lists. Returns the expected return value.
pub fn model(res: &Res, m: &mut [Vec<u64>; 3], k: u64) -> Ret {
    let (r, s, i) = (res.r, res.s, res.i);
    match res.code {
        Push => m[r].push(res.v),
        PushMany | Extend => m[r].extend_from_slice(&res.vals),
        Pop => return Ret::Opt(m[r].pop()),
        PopMany => {
            let mut out = vec![];
            for _ in 0..i {
                match m[r].pop() {
                    Some(x) => out.push(x),
                    None => break,
                }
            }
            return Ret::List(out);
        }
        Set | SetLast => m[r][i] = res.v,
        Get => return Ret::Opt(m[r].get(i).copied()),
        Insert => m[r].insert(i, res.v),
        Remove => return Ret::Val(m[r].remove(i)),
        SwapRemove => return Ret::Val(m[r].swap_remove(i)),
        Swap => m[r].swap(i, res.j),
        Retain => {
            let mut p = 0;
            let seen = m[r].clone();
            m[r].retain(|_| {
                let k = res.keep >> (p % 64) & 1 == 1;
                p += 1;
                k
            });
            // what the callback must be offered
            return Ret::List(seen);
        }
        Truncate => m[r].truncate(i),
        SplitOff => m[s] = m[r].split_off(i),
        FromIter | FromVec | FromSlice | MacroList => m[r] = res.vals.clone(),
        MacroFill | FromElem => m[r] = vec![res.v; i],
        Resize => m[r].resize(i, res.v),
        Append => {
            let mut o = std::mem::take(&mut m[s]);
            m[r].append(&mut o);
        }
        Recollect | Reserve | Shrink => {}
        IntoVec => return Ret::List(m[r].clone()),
        ExtendFrom => {
            let o = m[s].clone();
            m[r].extend(o);
        }
        Clone => m[s] = m[r].clone(),
        WithCap | New | Clear => m[r].clear(),
        ForEach => {
            let seen = m[r].clone();
            for x in m[r].iter_mut() {
                *x = ((*x as u128 + res.v as u128) % k as u128) as u64;
            }
            return Ret::List(seen);
        }
    }
    Ret::Unit
}

pub type Regs = [Box<dyn DynVec>; 3];

fn two(v: &mut Regs, r: usize, s: usize) -> (&mut Box<dyn DynVec>, &mut Box<dyn DynVec>) {
    assert!(r != s);
    if r < s {
        let (a, b) = v.split_at_mut(s);
        (&mut a[r], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(r);
        (&mut b[0], &mut a[s])
    }
}

/// The operation on the real vectors.
pub fn real(res: &Res, v: &mut Regs, k: u64) -> Ret {
    let (r, s, i) = (res.r, res.s, res.i);
    match res.code {
        Push => v[r].push(res.v),
        PushMany => {
            for x in &res.vals {
                v[r].push(*x);
            }
        }
        Pop => return Ret::Opt(v[r].pop()),
        PopMany => {
            let mut out = vec![];
            for _ in 0..i {
                match v[r].pop() {
                    Some(x) => out.push(x),
                    None => break,
                }
            }
            return Ret::List(out);
        }
        Set | SetLast => v[r].set(i, res.v),
        Get => return Ret::Opt(v[r].get(i)),
        Insert => v[r].insert(i, res.v),
        Remove => return Ret::Val(v[r].remove(i)),
        SwapRemove => return Ret::Val(v[r].swap_remove(i)),
        Swap => v[r].swap(i, res.j),
        Retain => {
            let mut seen = Vec::with_capacity(v[r].len().min(1 << 20));
            v[r].retain(&mut |x| {
                let k = res.keep >> (seen.len() % 64) & 1 == 1;
                seen.push(x);
                k
            });
            return Ret::List(seen);
        }
        Truncate => v[r].truncate(i),
        SplitOff => v[s] = v[r].split_off(i),
        Extend => v[r].extend(&mut HintIter::new(&res.vals, res.hint)),
        FromIter => v[r] = v[r].mk_iter(&mut HintIter::new(&res.vals, res.hint)),
        FromVec => v[r] = v[r].mk_vec(&res.vals),
        FromSlice => v[r] = v[r].mk_slice(&res.vals),
        MacroList => v[r] = v[r].mk_macro_list(&res.vals),
        MacroFill => v[r] = v[r].mk_macro_fill(res.v, i),
        FromElem => v[r] = v[r].mk_elem(res.v, i),
        Resize => v[r].resize(i, res.v),
        Append => {
            let (a, b) = two(v, r, s);
            a.append(&mut **b);
        }
        Recollect => {
            let f = v[r].mk_default();
            let old = std::mem::replace(&mut v[r], f);
            v[r] = old.recollect();
        }
        IntoVec => {
            let a = v[r].to_vec();
            let b = v[r].dup().into_vec();
            if a != b {
                return Ret::Panic(format!("to_vec gives {} but into gives {}", brief(&a), brief(&b)));
            }
            return Ret::List(a);
        }
        ExtendFrom => {
            let c = v[s].dup();
            v[r].extend_from(c);
        }
        Clone if res.hint & 7 >= 3 => {
            let (a, b) = two(v, s, r);
            a.clone_from(&**b);
        }
        Clone => v[s] = v[r].dup(),
        Reserve => v[r].reserve(i),
        Shrink => v[r].shrink(),
        WithCap => v[r] = v[r].mk_cap(i),
        New => v[r] = v[r].mk_new(),
        ForEach => {
            let mut seen = Vec::with_capacity(v[r].len().min(1 << 20));
            v[r].for_each(&mut |x| {
                seen.push(x);
                ((x as u128 + res.v as u128) % k as u128) as u64
            });
            return Ret::List(seen);
        }
        Clear => v[r].clear(),
    }
    Ret::Unit
}

pub fn run_real(res: &Res, v: &mut Regs, k: u64) -> Ret {
    match caught(|| real(res, v, k)) {
        Ok(r) => r,
        Err(m) => Ret::Panic(m),
    }
}

/// The contents as read through len and get.
pub fn observe(v: &dyn DynVec) -> Result<Vec<u64>, String> {
    let n = v.len();
    if n > 1 << 24 {
        return Err(format!("reports a length of {}", n));
    }
    caught(|| {
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            match v.get(i) {
                Some(x) => out.push(x),
                None => return Err(format!("get({}) is None though the length is {}", i, n)),
            }
        }
        Ok(out)
    })
    .unwrap_or_else(|m| Err(format!("reading an element panicked: {}", m)))
}

pub fn regs(mk: Mk) -> Regs {
    [mk(), mk(), mk()]
}

/// Registers the operation touches
pub fn touched(res: &Res) -> Vec<usize> {
    match res.code {
        SplitOff | Append | Clone | ExtendFrom => vec![res.r, res.s],
        _ => vec![res.r],
    }
}

pub fn diff(want: &[u64], got: &[u64]) -> String {
    if want.len() != got.len() {
        return format!("length {} instead of {}; got {} want {}", got.len(), want.len(), brief(got), brief(want));
    }
    let i = (0..want.len()).find(|i| want[*i] != got[*i]).unwrap_or(0);
    format!("element {} is {} instead of {} (length {}); got {} want {}", i, got[i], want[i], got.len(), brief(got), brief(want))
}

pub fn gen_ops(rng: &mut Rng, weights: &[(Code, u32)], n: usize) -> Vec<Op> {
    let w: Vec<u32> = weights.iter().map(|x| x.1).collect();
    let main = rng.below(4) != 0;
    (0..n)
        .map(|_| {
            let code = weights[rng.weighted(&w)].0;
            let r = if main && rng.chance(4, 5) { 0 } else { rng.below(3) as u8 };
            Op { code, r, s: rng.below(3) as u8, a: rng.next(), b: rng.next(), v: rng.next() }
        })
        .collect()
}

/// Default weights: everything, with single steps more frequent than whole-vector operations.
pub fn weights() -> Vec<(Code, u32)> {
    ALL.iter()
        .map(|c| {
            (*c, match c {
                Push | Pop | Set => 6,
                Insert | Remove => 12,
                SwapRemove | Swap | Truncate | SplitOff | Append => 6,
                Extend | Resize | Retain => 6,
                PushMany | PopMany => 5,
                Clear | New | MacroList => 2,
                WithCap | Recollect | IntoVec | MacroFill => 2,
                _ => 4,
            })
        })
        .collect()
}

pub fn boost(w: &mut Vec<(Code, u32)>, f: impl Fn(Code) -> u32) {
    for x in w.iter_mut() {
        x.1 *= f(x.0);
    }
    w.retain(|x| x.1 > 0);
}
