//! EnumSet monitors: C21 (set behaviour), C22 (algebra and iteration), C23 (representation
//! independence), and the set part of C08 (valid discriminants), C09 (leaks) and C07 (workload).
use bit_set::BitSet;
use enum_set2::EnumSet;
use evmon::alloc;
use evmon::consume::{forward, FORWARD};
use evmon::el::{self, El, Elem, Rev};
use evmon::report::*;
use evmon::rng::{mix, Acc, Rng};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Code {
    New,
    Default,
    Insert,
    InsertMany,
    Remove,
    RemoveMany,
    Clear,
    Extend,
    Collect,
    Shrink,
    CloneTo,
    UnionWith,
    IntersectWith,
    DifferenceWith,
    SymmetricWith,
    RoundTrip,
    FromBits,
    ExtendFrom,
    Retake,
    // only in the fault workload
    ExtendPanic,
    FromBadBits,
}
use Code::*;

#[derive(Clone, Debug)]
struct Op {
    code: Code,
    r: usize,
    s: usize,
    a: u64,
    vals: Vec<u64>,
}

type Model = [BTreeSet<u64>; 3];

struct Bad(String);
type R = Result<(), Bad>;

struct Case<'a, E: Elem + Ord + Hash> {
    part: &'a str,
    set: [EnumSet<E>; 3],
    model: Model,
    counting: bool,
    evals: u64,
    counts: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    trace: Option<Vec<String>>,
}

fn ids<E: Elem>(it: impl Iterator<Item = E>) -> Vec<u64> {
    it.map(|x| x.id()).collect()
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// a list printed as a set of its items in order
struct AsSet<E>(Vec<E>);
impl<E: std::fmt::Debug> std::fmt::Debug for AsSet<E> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.debug_set().entries(self.0.iter()).finish()
    }
}

struct PanicIter<E> {
    items: Vec<E>,
    at: usize,
    stop: usize,
    lie: usize,
}
impl<E: Copy> Iterator for PanicIter<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        if self.at == self.stop {
            panic!("injected panic in iterator");
        }
        let x = self.items.get(self.at).copied();
        self.at += 1;
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lie, Some(self.lie))
    }
}

impl<'a, E: Elem + Ord + Hash> Case<'a, E> {
    fn note(&mut self, what: &'static str, key: impl FnOnce() -> Option<u64>) {
        if !self.counting {
            return;
        }
        self.evals += 1;
        *self.counts.entry(what).or_insert(0) += 1;
        if let Some(k) = key() {
            if self.distinct.len() < 1_000_000 {
                self.distinct.insert(k ^ mix(E::K));
            }
        }
    }
    fn key(&self, op: &Op) -> Option<u64> {
        let mut a = Acc::new();
        a.add(op.code as u64);
        for r in [op.r, op.s] {
            a.add(0x5e7);
            for x in &self.model[r] {
                a.add(*x);
            }
        }
        for x in &op.vals {
            a.add(*x);
        }
        if self.model[op.r].is_empty() && self.model[op.s].is_empty() && op.vals.is_empty() {
            None
        } else {
            Some(a.0)
        }
    }

    /// run the operation on the real set; returns what it returned
    fn real(&mut self, op: &Op) -> Vec<bool> {
        let (r, s) = (op.r, op.s);
        let e = |x: &u64| E::mk(*x);
        let mut ret = vec![];
        match op.code {
            New => self.set[r] = EnumSet::new(),
            Default => self.set[r] = std::default::Default::default(),
            Insert | InsertMany => {
                for x in &op.vals {
                    ret.push(self.set[r].insert(E::mk(*x)));
                }
            }
            Remove | RemoveMany => {
                for x in &op.vals {
                    ret.push(self.set[r].remove(E::mk(*x)));
                }
            }
            Clear => self.set[r].clear(),
            Extend => self.set[r].extend(op.vals.iter().map(e)),
            Collect => self.set[r] = op.vals.iter().map(e).collect(),
            Shrink => self.set[r].shrink_to_fit(),
            CloneTo => {
                if op.a & 1 == 0 || r == s {
                    self.set[s] = self.set[r].clone();
                } else {
                    let (a, b) = two(&mut self.set, s, r);
                    a.clone_from(b);
                }
            }
            UnionWith | IntersectWith | DifferenceWith | SymmetricWith => {
                let other;
                let o = if r == s {
                    other = self.set[s].clone();
                    &other
                } else {
                    let (a, b) = two(&mut self.set, r, s);
                    match op.code {
                        UnionWith => a.union_with(b),
                        IntersectWith => a.intersect_with(b),
                        DifferenceWith => a.difference_with(b),
                        _ => a.symmetric_difference_with(b),
                    }
                    return ret;
                };
                match op.code {
                    UnionWith => self.set[r].union_with(o),
                    IntersectWith => self.set[r].intersect_with(o),
                    DifferenceWith => self.set[r].difference_with(o),
                    _ => self.set[r].symmetric_difference_with(o),
                }
            }
            RoundTrip => {
                let b = std::mem::take(&mut self.set[r]).into_bit_set();
                self.set[r] = EnumSet::from_bit_set(b);
            }
            FromBits => {
                let mut b = BitSet::with_capacity((op.a % 400) as usize);
                for x in &op.vals {
                    b.insert(*x as usize);
                }
                if op.a & 1 << 40 != 0 {
                    b.reserve_len((op.a >> 41) as usize % 300);
                }
                self.set[r] = EnumSet::from_bit_set(b);
            }
            ExtendFrom => {
                let c: EnumSet<E> = self.set[s].clone();
                self.set[r].extend(c.iter());
            }
            Retake => {
                let v: Vec<E> = (&self.set[r]).into_iter().collect();
                self.set[r] = v.into_iter().rev().collect();
            }
            ExtendPanic => {
                let it = PanicIter { items: op.vals.iter().map(e).collect(), at: 0, stop: (op.a % (op.vals.len() as u64 + 1)) as usize, lie: [0, 1, 70, usize::MAX][(op.a >> 32) as usize % 4] };
                let set = &mut self.set[r];
                let _ = caught(|| set.extend(it));
            }
            FromBadBits => {
                // bits that are no discriminants, placed just past the last one or further out
                let mut b = BitSet::new();
                for x in &op.vals {
                    b.insert(*x as usize);
                }
                let bad = [E::K, E::K + 1, E::K + 31, E::K + (op.a >> 32) % 4000][op.a as usize % 4];
                b.insert(bad as usize);
                if let Ok(s) = caught(|| EnumSet::from_bit_set(b)) {
                    self.set[r] = s;
                }
            }
        }
        ret
    }
    fn model(&mut self, op: &Op) -> Vec<bool> {
        let (r, s) = (op.r, op.s);
        let mut ret = vec![];
        let other = self.model[s].clone();
        let m = &mut self.model[r];
        match op.code {
            New | Default | Clear => m.clear(),
            Insert | InsertMany => {
                for x in &op.vals {
                    ret.push(m.insert(*x));
                }
            }
            Remove | RemoveMany => {
                for x in &op.vals {
                    ret.push(m.remove(x));
                }
            }
            Extend => m.extend(op.vals.iter().cloned()),
            Collect | FromBits => *m = op.vals.iter().cloned().collect(),
            Shrink | RoundTrip | Retake => {}
            CloneTo => self.model[s] = self.model[r].clone(),
            UnionWith | ExtendFrom => m.extend(other),
            IntersectWith => m.retain(|x| other.contains(x)),
            DifferenceWith => m.retain(|x| !other.contains(x)),
            SymmetricWith => {
                for x in other {
                    if !m.remove(&x) {
                        m.insert(x);
                    }
                }
            }
            ExtendPanic => {
                let stop = (op.a % (op.vals.len() as u64 + 1)) as usize;
                m.extend(op.vals[..stop].iter().cloned());
            }
            FromBadBits => {}
        }
        ret
    }

    /// C21: the set read back through every reader
    fn members(&self, r: usize, probes: &[u64]) -> R {
        let (s, m) = (&self.set[r], &self.model[r]);
        if s.len() != m.len() {
            return Err(Bad(format!("len() of s{} is {}, it should hold {:?}", r, s.len(), short(m))));
        }
        if s.is_empty() != m.is_empty() {
            return Err(Bad(format!("is_empty() of s{} is {} with {} members", r, s.is_empty(), m.len())));
        }
        for x in probes.iter().chain(m.iter().take(40)) {
            if s.contains(E::mk(*x)) != m.contains(x) {
                return Err(Bad(format!("s{}.contains(value {}) is {}, it should hold {:?}", r, x, !m.contains(x), short(m))));
            }
        }
        if E::K <= 130 {
            for x in 0..E::K {
                if s.contains(E::mk(x)) != m.contains(&x) {
                    return Err(Bad(format!("s{}.contains(value {}) is {}, it should hold {:?}", r, x, !m.contains(&x), short(m))));
                }
            }
        }
        let mut got = ids(s.iter());
        got.sort_unstable();
        if !got.iter().eq(m.iter()) {
            return Err(Bad(format!("s{} iterates {:?}, it should hold {:?}", r, got, short(m))));
        }
        Ok(())
    }

    fn drive(&self, what: &str, mut it: impl Iterator<Item = E>, want: &[u64], a: u64) -> R {
        let mut left = want.len();
        let mut i = 0;
        let mut b = a;
        loop {
            let (lo, hi) = it.size_hint();
            if lo > left || hi.map_or(false, |h| h < left) {
                return Err(Bad(format!("{}: size_hint() is ({}, {:?}) with {} left of {:?}", what, lo, hi, left, want)));
            }
            // mostly next, sometimes nth
            b = mix(b);
            let k = if b % 7 == 0 { (b >> 8) as usize % 4 } else { 0 };
            let got = if k == 0 { it.next() } else { it.nth(k) }.map(|x| x.id());
            let w = want.get(i + k).cloned();
            if got != w {
                return Err(Bad(format!("{}: item {} is {:?}, it should be {:?} of {:?}", what, i + k, got, w, want)));
            }
            if w.is_none() {
                break;
            }
            i += k + 1;
            left = want.len() - i;
        }
        for _ in 0..3 {
            if let Some(x) = it.next() {
                return Err(Bad(format!("{}: yields {} after its end", what, x.id())));
            }
        }
        Ok(())
    }

    /// C22
    fn algebra(&mut self, r: usize, s: usize, a: u64) -> R {
        let (x, y) = (&self.set[r], &self.set[s]);
        let (m, n) = (&self.model[r], &self.model[s]);
        let u: Vec<u64> = m.union(n).cloned().collect();
        let i: Vec<u64> = m.intersection(n).cloned().collect();
        let d: Vec<u64> = m.difference(n).cloned().collect();
        let sy: Vec<u64> = m.symmetric_difference(n).cloned().collect();
        let own: Vec<u64> = m.iter().cloned().collect();
        let nm = |k: &str| format!("s{}.{}(s{})", r, k, s);
        self.drive(&nm("union"), x.union(y), &u, a)?;
        self.drive(&nm("intersection"), x.intersection(y), &i, a ^ 1)?;
        self.drive(&nm("difference"), x.difference(y), &d, a ^ 2)?;
        self.drive(&nm("symmetric_difference"), x.symmetric_difference(y), &sy, a ^ 3)?;
        self.drive(&format!("s{}.iter()", r), x.iter(), &own, a ^ 4)?;
        self.drive(&format!("(&s{}).into_iter()", r), x.into_iter(), &own, a ^ 5)?;
        // consumers other than next
        if x.iter().count() != own.len() || x.iter().last().map(|v| v.id()) != own.last().cloned() {
            return Err(Bad(format!("s{}.iter(): count or last differ from {:?}", r, own)));
        }
        if ids(x.union(y)) != u || ids(x.intersection(y)) != i || ids(x.difference(y)) != d || ids(x.symmetric_difference(y)) != sy {
            return Err(Bad(format!("collecting an iterator over s{} and s{} differs from stepping it", r, s)));
        }
        let mut rng = Rng::new(a, 31, 0);
        for (name, want) in [("union", &u), ("intersection", &i), ("difference", &d), ("symmetric_difference", &sy), ("iter", &own)] {
            let which = rng.below(FORWARD);
            let (t, n) = (if want.is_empty() || rng.chance(1, 5) { rng.below(E::K.max(1)) } else { *rng.pick(want) }, rng.below(5) as usize);
            let got = match name {
                "union" => forward(x.union(y), which, t, n),
                "intersection" => forward(x.intersection(y), which, t, n),
                "difference" => forward(x.difference(y), which, t, n),
                "symmetric_difference" => forward(x.symmetric_difference(y), which, t, n),
                _ => forward(x.iter(), which, t, n),
            };
            if got != forward(want.iter().map(|v| E::mk(*v)), which, t, n) {
                return Err(Bad(format!("way {} of consuming {} (with {} and {}) gives {:?}, over {:?}", which, nm(name), t, n, got, want)));
            }
        }
        let folded = x.union(y).fold(0u64, |c, v| mix(c ^ v.id()));
        if folded != u.iter().fold(0u64, |c, v| mix(c ^ *v)) {
            return Err(Bad(format!("folding {} differs", nm("union"))));
        }
        let (sub, sup, dis) = (x.is_subset(y), x.is_superset(y), x.is_disjoint(y));
        if sub != m.is_subset(n) || sup != m.is_superset(n) || dis != m.is_disjoint(n) {
            return Err(Bad(format!("is_subset {} is_superset {} is_disjoint {} for {:?} and {:?}", sub, sup, dis, short(m), short(n))));
        }
        // in-place forms on copies
        for k in 0..4 {
            let mut c = x.clone();
            let (w, name) = match k {
                0 => {
                    c.union_with(y);
                    (&u, "union_with")
                }
                1 => {
                    c.intersect_with(y);
                    (&i, "intersect_with")
                }
                2 => {
                    c.difference_with(y);
                    (&d, "difference_with")
                }
                _ => {
                    c.symmetric_difference_with(y);
                    (&sy, "symmetric_difference_with")
                }
            };
            let g = ids(c.iter());
            if g != *w || c.len() != w.len() {
                return Err(Bad(format!("{} gives {:?} (len {}), it should give {:?}", nm(name), g, c.len(), w)));
            }
        }
        // nobody changed the operands
        if ids(x.iter()) != own || !ids(y.iter()).iter().eq(n.iter()) {
            return Err(Bad(format!("an operand of the algebra on s{} and s{} changed", r, s)));
        }
        Ok(())
    }

    fn rebuilt(&self, r: usize, a: u64) -> EnumSet<E> {
        let mut v: Vec<u64> = self.model[r].iter().cloned().collect();
        match a % 4 {
            0 => v.reverse(),
            1 => v.sort_unstable_by_key(|x| mix(*x ^ a)),
            _ => {}
        }
        let mut s: EnumSet<E> = v.iter().map(|x| E::mk(*x)).collect();
        // spare capacity
        if a & 16 != 0 && E::K > 1 {
            let top = E::mk(reach::<E>() - 1 - (a >> 8) % E::K.min(70));
            if !self.model[r].contains(&top.id()) {
                s.insert(top);
                s.remove(top);
            }
        }
        if a & 32 != 0 {
            s.shrink_to_fit();
        }
        s
    }

    /// C23
    fn represent(&mut self, r: usize, s: usize, a: u64) -> R {
        let f = self.rebuilt(r, a);
        let x = &self.set[r];
        if !(*x == f) || !(f == *x) || *x != f {
            return Err(Bad(format!("s{} differs from a fresh set of the same members {:?}", r, short(&self.model[r]))));
        }
        if hash(x) != hash(&f) {
            return Err(Bad(format!("s{} hashes unlike a fresh set of the same members {:?}", r, short(&self.model[r]))));
        }
        if x.cmp(&f) != Ordering::Equal || x.partial_cmp(&f) != Some(Ordering::Equal) || x < &f || x > &f || !(x <= &f) {
            return Err(Bad(format!("s{} does not order equal to a fresh set of the same members", r)));
        }
        // the order, on all triples of registers and their rebuilt twins
        let tw: Vec<EnumSet<E>> = (0..3).map(|q| self.rebuilt(q, a >> (q + 1))).collect();
        let all: Vec<(&EnumSet<E>, usize)> = (0..3).map(|q| (&self.set[q], q)).chain((0..3).map(|q| (&tw[q], q))).collect();
        let mut c = vec![vec![Ordering::Equal; 6]; 6];
        for i in 0..6 {
            for j in 0..6 {
                let (p, q) = (all[i].0, all[j].0);
                c[i][j] = p.cmp(q);
                let same = self.model[all[i].1] == self.model[all[j].1];
                if (p == q) != same || (p != q) == same || (c[i][j] == Ordering::Equal) != same {
                    return Err(Bad(format!(
                        "{:?} and {:?}: eq {} cmp {:?}",
                        short(&self.model[all[i].1]), short(&self.model[all[j].1]), p == q, c[i][j]
                    )));
                }
                if p.partial_cmp(q) != Some(c[i][j]) || (p < q) != (c[i][j] == Ordering::Less) || (p >= q) == (c[i][j] == Ordering::Less) {
                    return Err(Bad("partial_cmp or an operator disagrees with cmp".to_string()));
                }
                if same && hash(p) != hash(q) {
                    return Err(Bad(format!("equal sets hash differently: {:?}", short(&self.model[all[i].1]))));
                }
            }
        }
        for i in 0..6 {
            for j in 0..6 {
                if c[i][j] != c[j][i].reverse() {
                    return Err(Bad("the order is not antisymmetric".to_string()));
                }
                // the order depends on members only
                if c[i][j] != c[i % 3][j % 3] {
                    return Err(Bad("the order depends on more than the members".to_string()));
                }
                for k in 0..6 {
                    if c[i][j] == Ordering::Less && c[j][k] == Ordering::Less && c[i][k] != Ordering::Less {
                        return Err(Bad(format!(
                            "the order is not transitive on {:?}, {:?}, {:?}",
                            short(&self.model[i % 3]), short(&self.model[j % 3]), short(&self.model[k % 3])
                        )));
                    }
                }
            }
        }
        // one member more or less is a different set
        let mut g = x.clone();
        let v = E::mk(a % reach::<E>());
        let had = !g.insert(v);
        if had {
            g.remove(v);
        }
        if g == *x || g.cmp(x) == Ordering::Equal {
            return Err(Bad(format!("a set equals the same set with value {} {}", v.id(), if had { "removed" } else { "added" })));
        }
        let own: Vec<u64> = self.model[r].iter().cloned().collect();
        // a clone shares nothing
        let mut cl = x.clone();
        cl.clear();
        for q in 0..(E::K.min(65)) {
            cl.insert(E::mk(q));
        }
        if ids(x.iter()) != own {
            return Err(Bad(format!("changing a clone of s{} changed it", r)));
        }
        let cl = x.clone();
        let keep = cl.clone();
        let own_bits: Vec<u64> = x.get_ref().iter().map(|b| b as u64).collect();
        if own_bits != own || x.get_ref().len() != own.len() {
            return Err(Bad(format!("get_ref() of s{} holds {:?}, the members are {:?}", r, own_bits, own)));
        }
        let bits = cl.into_bit_set();
        if !bits.iter().map(|b| b as u64).eq(own.iter().cloned()) {
            return Err(Bad(format!("into_bit_set() of s{} lost members of {:?}", r, own)));
        }
        let back = EnumSet::<E>::from_bit_set(bits);
        if back != keep || ids(back.iter()) != own || hash(&back) != hash(x) {
            return Err(Bad(format!("s{} does not survive into_bit_set and from_bit_set", r)));
        }
        // Debug
        let twin = AsSet(own.iter().map(|d| E::mk(*d)).collect::<Vec<E>>());
        let (got, alt) = (format!("{:?}", x), format!("{:#?}", x));
        if got != format!("{:?}", twin) {
            return Err(Bad(format!("Debug prints {}, the members are {:?}", got, own)));
        }
        if alt != format!("{:#?}", twin) {
            return Err(Bad(format!("{{:#?}} prints {}, the members are {:?}", alt, own)));
        }
        let _ = s;
        Ok(())
    }

    /// C08: every value that a set hands out has a valid discriminant
    fn decode(&mut self, r: usize, s: usize) -> R {
        let (x, y) = (&self.set[r], &self.set[s]);
        let res = caught(|| {
            let mut n = x.iter().count() + x.into_iter().count() + x.union(y).count() + x.intersection(y).count();
            n += x.difference(y).count() + x.symmetric_difference(y).count() + y.symmetric_difference(x).count();
            n + format!("{:?}", x).len()
        });
        if let Some((x, k)) = el::bad() {
            return Err(Bad(format!("from_discr({}) was called on a type with {} variants", x, k)));
        }
        let _ = res;
        Ok(())
    }

    fn step(&mut self, op: &Op) -> R {
        if let Some(t) = &mut self.trace {
            t.push(describe(op));
        }
        SCOPE.store(1, Relaxed);
        if self.part == "C08" || self.part == "C07" {
            let _ = caught(|| self.real(op));
            let key = Some(mix(op.code as u64) ^ hash(&op.vals) ^ op.a);
            self.note(name(op.code), || key);
            return self.decode(op.r, op.s);
        }
        let real = caught(|| self.real(op)).map_err(|m| Bad(format!("{} panicked: {}", describe(op), m)));
        let foreign = self.part != "C21" && !(self.part == "C22" && is_algebra(op.code));
        let real = match real {
            Ok(x) => x,
            Err(b) => {
                if foreign && self.part != "C23" {
                    return Err(Bad(String::new()));
                }
                return Err(b);
            }
        };
        let want = self.model(op);
        match self.part {
            "C21" => {
                let key = self.key(op);
                self.note(name(op.code), || key);
                if real != want {
                    return Err(Bad(format!("{} returned {:?}, it should return {:?}", describe(op), real, want)));
                }
                let mut probes = vec![0, E::K - 1, op.a % E::K];
                for x in op.vals.iter().step_by(1 + op.vals.len() / 200) {
                    probes.push(*x);
                    for d in [1, 31, 32, 33, 63, 64, 65] {
                        probes.push((x + d) % E::K);
                        probes.push(if d <= *x { x - d } else { E::K - 1 - (d - x - 1) % E::K });
                    }
                }
                self.members(op.r, &probes)?;
                self.members(op.s, &probes)?;
                // the third one is nobody's business
                self.members(3 - op.r - if op.s == op.r { (op.r + 1) % 3 } else { op.s }, &[])?;
            }
            part => {
                // readers other than the judged ones: resynchronise, so that only this property is judged
                for q in 0..3 {
                    let c: BTreeSet<u64> = if E::K <= 130 {
                        (0..E::K).filter(|x| self.set[q].contains(E::mk(*x))).collect()
                    } else {
                        self.set[q].get_ref().iter().map(|x| x as u64).collect()
                    };
                    if c != self.model[q] {
                        if part == "C22" && is_algebra(op.code) && q == op.r || part == "C23" && matches!(op.code, CloneTo | RoundTrip | FromBits) {
                            return Err(Bad(format!("after {}: s{} holds {:?}, it should hold {:?}", describe(op), q, short(&c), short(&self.model[q]))));
                        }
                        self.model[q] = c;
                    }
                }
                let key = self.key(op);
                self.note(name(op.code), || key);
                if part == "C22" {
                    self.algebra(op.r, op.s, op.a)?;
                    self.algebra(op.s, op.r, op.a ^ 77)?;
                    self.algebra(op.r, op.r, op.a ^ 78)?;
                } else {
                    self.represent(op.r, op.s, op.a)?;
                }
            }
        }
        Ok(())
    }
}

fn is_algebra(c: Code) -> bool {
    matches!(c, UnionWith | IntersectWith | DifferenceWith | SymmetricWith)
}

fn two<T>(a: &mut [T; 3], r: usize, s: usize) -> (&mut T, &T) {
    assert!(r != s);
    let (lo, hi) = a.split_at_mut(r.max(s));
    if r < s {
        (&mut lo[r], &hi[0])
    } else {
        (&mut hi[0], &lo[s])
    }
}

fn short(m: &BTreeSet<u64>) -> Vec<u64> {
    m.iter().take(80).cloned().collect()
}

fn brief(v: &[u64]) -> String {
    if v.len() <= 100 {
        format!("{:?}", v)
    } else {
        format!("[{} values from {} by {}]", v.len(), v[0], v[1].wrapping_sub(v[0]) as i64)
    }
}

fn cut(mut s: String) -> String {
    if let Some((n, _)) = s.char_indices().nth(1500) {
        s.truncate(n);
        s.push_str(" ...");
    }
    s
}

fn name(c: Code) -> &'static str {
    match c {
        New => "new",
        Default => "default",
        Insert => "insert",
        InsertMany => "insert run",
        Remove => "remove",
        RemoveMany => "remove run",
        Clear => "clear",
        Extend => "extend",
        Collect => "collect",
        Shrink => "shrink_to_fit",
        CloneTo => "clone",
        UnionWith => "union_with",
        IntersectWith => "intersect_with",
        DifferenceWith => "difference_with",
        SymmetricWith => "symmetric_difference_with",
        RoundTrip => "into_bit_set and from_bit_set",
        FromBits => "from_bit_set",
        ExtendFrom => "extend from a set's iterator",
        Retake => "iterate and collect",
        ExtendPanic => "extend with an iterator that panics",
        FromBadBits => "from_bit_set with bits that are no discriminants",
    }
}

fn describe(op: &Op) -> String {
    format!("s{}: {} {}{}", op.r, name(op.code), brief(&op.vals), match op.code {
        CloneTo => format!(" to s{}", op.s),
        c if is_algebra(c) || c == ExtendFrom => format!(" with s{}", op.s),
        FromBits | ExtendPanic | FromBadBits => format!(" ({:#x})", op.a),
        _ => String::new(),
    })
}

/// How far the members of a set of this type reach: types with more values than a bitmap of them
/// could hold are used with their small values only.
fn reach<E: Elem>() -> u64 {
    if E::K > 1 << 32 { 5000 } else { E::K }
}

fn gen<E: Elem>(rng: &mut Rng, part: &str, small: bool) -> Vec<Op> {
    let k = reach::<E>();
    let mut w: Vec<(Code, u64)> = vec![
        (New, 1), (Default, 1), (Insert, 10), (InsertMany, 6), (Remove, 8), (RemoveMany, 5), (Clear, 1), (Extend, 5), (Collect, 3), (Shrink, 4),
        (CloneTo, 4), (UnionWith, 5), (IntersectWith, 5), (DifferenceWith, 5), (SymmetricWith, 5), (RoundTrip, 2), (FromBits, 3), (ExtendFrom, 2), (Retake, 2),
    ];
    if part == "C08" || part == "C07" || part == "C09" {
        w.push((ExtendPanic, 8));
        if E::K == k {
            w.push((FromBadBits, 8));
        }
    }
    // where the values of this history lie
    let style = rng.below(5);
    let span = match style {
        0 => k.min(6),
        1 => k.min(40),
        2 => k.min(130),
        _ => k,
    };
    let base = if style < 3 { rng.below(k - span + 1) } else { 0 };
    let edges: Vec<u64> = [0, 1, 30, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 1023, 1024, k - 1, k.saturating_sub(2)].iter().cloned().filter(|x| *x < k).collect();
    let val = move |rng: &mut Rng| -> u64 {
        if style == 4 && rng.chance(2, 3) {
            edges[rng.below(edges.len() as u64) as usize]
        } else {
            base + rng.below(span)
        }
    };
    let total: u64 = w.iter().map(|x| x.1).sum();
    let n = if small { rng.range(4, 12) } else { rng.range(5, 50) };
    (0..n)
        .map(|_| {
            let mut t = rng.below(total);
            let mut code = New;
            for (c, x) in &w {
                if t < *x {
                    code = *c;
                    break;
                }
                t -= *x;
            }
            let cnt = match code {
                Insert | Remove => 1,
                InsertMany | RemoveMany | Extend | Collect | FromBits | ExtendPanic | FromBadBits => {
                    let top = if rng.chance(1, 6) && !small { 90 } else { 9 };
                    rng.below(top)
                }
                _ => 0,
            };
            let mut vals: Vec<u64> = (0..cnt).map(|_| val(rng)).collect();
            if rng.chance(1, 8) && cnt > 1 && code != Insert {
                // a run of neighbours
                let b = val(rng);
                vals = (0..cnt).map(|i| (b + i) % k).collect();
            }
            let r = rng.below(3) as usize;
            Op { code, r, s: rng.below(3) as usize, a: rng.next(), vals }
        })
        .collect()
}

/// Sets of very many members, built from runs.
fn mass(rng: &mut Rng, k: u64) -> Vec<Op> {
    (0..rng.range(3, 8))
        .map(|i| {
            let code = match if i == 0 { 0 } else { rng.below(16) } {
                0..=3 => Extend,
                4 => Collect,
                5 => InsertMany,
                6 | 7 => RemoveMany,
                8 => UnionWith,
                9 => IntersectWith,
                10 => DifferenceWith,
                11 => SymmetricWith,
                12 => CloneTo,
                13 => Shrink,
                14 => RoundTrip,
                _ => FromBits,
            };
            let mut vals = vec![];
            if matches!(code, Extend | Collect | InsertMany | RemoveMany | FromBits) {
                let step = *rng.pick(&[1, 1, 1, 2, 3, 32, 33]);
                let most = (k - 1) / step + 1;
                let len = if rng.chance(1, 3) { most } else { *rng.pick(&[most / 2, 65535, 65536, 65537, 255, 256, 257, 4096]) }.min(most);
                let start = if rng.chance(1, 2) { 0 } else { rng.below(k - (len - 1).min(most - 1) * step) };
                vals = (0..len).map(|i| start + i * step).filter(|x| *x < k).collect();
                if rng.chance(1, 4) {
                    vals.reverse();
                }
            }
            let r = rng.below(2) as usize;
            Op { code, r, s: rng.below(2) as usize, a: rng.next(), vals }
        })
        .collect()
}

struct Out {
    bad: Option<String>,
    evals: u64,
    counts: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    trace: Vec<String>,
    leaked: i64,
}

fn exec<E: Elem + Ord + Hash>(part: &str, ops: &[Op], counting: bool, tracing: bool) -> Out {
    el::reset();
    clear_panic_msg();
    BEAT.fetch_add(1, Relaxed);
    let live = alloc::snap().live;
    // creating a set is part of its history
    SCOPE.store((part == "C21") as u64, Relaxed);
    let mut c: Case<E> = Case {
        part,
        set: [EnumSet::new(), EnumSet::new(), EnumSet::new()],
        model: [BTreeSet::new(), BTreeSet::new(), BTreeSet::new()],
        counting,
        evals: 0,
        counts: BTreeMap::new(),
        distinct: HashSet::new(),
        trace: if tracing { Some(vec![]) } else { None },
    };
    let mut bad = None;
    for (n, op) in ops.iter().enumerate() {
        STEP.store(n as u64, Relaxed);
        BEAT.fetch_add(1, Relaxed);
        if part == "C09" {
            // only what is left over in the end is judged
            let _ = caught(|| c.real(op));
            c.note(name(op.code), || None);
            continue;
        }
        if let Err(Bad(m)) = c.step(op) {
            if !m.is_empty() {
                bad = Some(cut(format!("step {}: {}", n, m)));
            }
            break;
        }
    }
    SCOPE.store(0, Relaxed);
    let Case { set, model, counts, distinct, trace, evals, .. } = c;
    drop(set);
    drop(model);
    clear_panic_msg();
    let leaked = alloc::snap().live - live;
    Out { bad, evals, counts, distinct, trace: trace.unwrap_or_default(), leaked }
}

fn case<E: Elem + Ord + Hash>(rep: &mut Report, c: u64, rng: &mut Rng, label: &str) {
    let part = rep.args.prop.clone();
    let ops = if label == "many members" { mass(rng, E::K) } else { gen::<E>(rng, &part, rep.args.tiny) };
    let out = exec::<E>(&part, &ops, true, rep.args.trace);
    if rep.args.trace {
        for t in &out.trace {
            eprintln!("  {}", t);
        }
    }
    rep.evaluations += out.evals;
    for (k, v) in out.counts {
        rep.count(k, v);
    }
    rep.count(
        match label {
            "many members" => "histories of sets with up to 200000 members",
            "more values than memory has bits" => "histories of sets of types with more values than memory has bits",
            _ => "histories",
        },
        1,
    );
    rep.distinct.extend(out.distinct);
    let mut bad = out.bad;
    if part == "C09" {
        let o = exec::<E>(&part, &ops, false, false);
        rep.distinct.insert(hash(&ops.iter().map(|o| (o.code as u64, o.r, o.s, o.vals.clone())).collect::<Vec<_>>()));
        if o.leaked != 0 {
            bad = Some(format!("{} bytes are still allocated after every set was dropped", o.leaked));
        }
    }
    if let Some(m) = bad {
        let head = format!("EnumSet of an element type with {} variants ({})", E::K, label);
        let fails = |o: &[Op]| -> Option<String> {
            let x = exec::<E>(&part, o, false, false);
            if part == "C09" { (x.leaked != 0).then(|| format!("{} bytes leaked", x.leaked)) } else { x.bad }
        };
        let mut cur = ops.clone();
        let mut i = 0;
        let t0 = std::time::Instant::now();
        while i < cur.len() && t0.elapsed().as_millis() < 3000 {
            let mut t = cur.clone();
            t.remove(i);
            if fails(&t).is_some() {
                cur = t;
            } else {
                i += 1;
            }
        }
        let what = fails(&cur).unwrap_or(m);
        let mut t = vec![head];
        t.extend(cur.iter().map(describe));
        rep.violation(c, &what, &t);
    }
    if rep.samples.len() < 2 {
        let t: Vec<String> = ops.iter().take(12).map(describe).collect();
        rep.sample(|| format!("case {}: {} variants: {}", c, E::K, t.join("; ")));
    }
}

fn main() {
    if std::env::args().any(|x| x == "--noop") {
        return;
    }
    let args = Args::parse();
    let mut rep = Report::new(args.clone());
    watchdog(25);
    alloc::set_cap(1 << 30);
    guard(move || {
        let mut last = 0;
        for c in args.cases() {
            if rep.out_of_time() {
                break;
            }
            last = c;
            CASE.store(c, Relaxed);
            let mut rng = Rng::new(args.seed, 21, c);
            let r = &mut rep;
            let g = &mut rng;
            if args.tiny {
                match c % 4 {
                    0 => case::<El<3>>(r, c, g, "El"),
                    1 => case::<El<33>>(r, c, g, "El"),
                    2 => case::<bool>(r, c, g, "bool"),
                    _ => case::<Rev<70>>(r, c, g, "Rev"),
                }
                continue;
            }
            if c % 1000 == 7 && !cfg!(debug_assertions) && matches!(&*args.prop, "C21" | "C22" | "C23") {
                if c % 2000 == 7 {
                    case::<El<70_000>>(r, c, g, "many members")
                } else {
                    case::<El<200_000>>(r, c, g, "many members")
                }
                continue;
            }
            if c % 37 == 5 {
                match c % 3 {
                    0 => case::<El<0x1_0000_0005>>(r, c, g, "more values than memory has bits"),
                    1 => case::<El<0x100_0000_0000>>(r, c, g, "more values than memory has bits"),
                    _ => case::<El<{ u64::MAX }>>(r, c, g, "more values than memory has bits"),
                }
                continue;
            }
            match c % 18 {
                0 => case::<El<1>>(r, c, g, "El"),
                1 => case::<El<2>>(r, c, g, "El"),
                2 => case::<El<3>>(r, c, g, "El"),
                3 => case::<El<31>>(r, c, g, "El"),
                4 => case::<El<32>>(r, c, g, "El"),
                5 => case::<El<33>>(r, c, g, "El"),
                6 => case::<El<63>>(r, c, g, "El"),
                7 => case::<El<64>>(r, c, g, "El"),
                8 => case::<El<65>>(r, c, g, "El"),
                9 => case::<El<100>>(r, c, g, "El"),
                10 => case::<El<128>>(r, c, g, "El"),
                11 => case::<El<1000>>(r, c, g, "El"),
                12 => case::<El<4096>>(r, c, g, "El"),
                13 => case::<El<20000>>(r, c, g, "El"),
                14 => case::<bool>(r, c, g, "bool"),
                15 => case::<Rev<40>>(r, c, g, "Rev"),
                16 => case::<Rev<300>>(r, c, g, "Rev"),
                _ => case::<Option<[bool; 4]>>(r, c, g, "Option<[bool; 4]>"),
            }
        }
        rep.done(last)
    })
}
