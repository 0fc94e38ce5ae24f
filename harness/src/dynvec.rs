//! Type-erased access to the six EnumVec implementations. Elements are named by their id
//! (0..K), so all models and oracles are written once over u64.
use crate::alloc;
use crate::consume::both;
use crate::el::Elem;
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

/// A second hasher, sensitive to every byte written and to the order of writes.
pub struct ByteHasher(pub u64);
impl Hasher for ByteHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub trait DynIter {
    fn next(&mut self) -> Option<u64>;
    fn next_back(&mut self) -> Option<u64>;
    fn nth(&mut self, n: usize) -> Option<u64>;
    fn nth_back(&mut self, n: usize) -> Option<u64>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<u64>;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(u64));
    fn rfold(self: Box<Self>, f: &mut dyn FnMut(u64));
    fn collect(self: Box<Self>) -> Vec<u64>;
    /// one of `consume::both`, on this iterator and on a plain list of `rest`
    fn consume(self: Box<Self>, which: u64, x: u64, n: usize, rest: &[u64]) -> (Vec<u64>, Vec<u64>);
}

pub struct It<I>(pub I);

impl<T: Elem, I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator> DynIter for It<I> {
    fn next(&mut self) -> Option<u64> {
        self.0.next().map(|x| x.id())
    }
    fn next_back(&mut self) -> Option<u64> {
        self.0.next_back().map(|x| x.id())
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        self.0.nth(n).map(|x| x.id())
    }
    fn nth_back(&mut self, n: usize) -> Option<u64> {
        self.0.nth_back(n).map(|x| x.id())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<u64> {
        self.0.last().map(|x| x.id())
    }
    fn fold(self: Box<Self>, f: &mut dyn FnMut(u64)) {
        self.0.for_each(|x| f(x.id()))
    }
    fn rfold(self: Box<Self>, f: &mut dyn FnMut(u64)) {
        self.0.rfold((), |_, x| f(x.id()))
    }
    fn collect(self: Box<Self>) -> Vec<u64> {
        let v: Vec<T> = self.0.collect();
        v.into_iter().map(|x| x.id()).collect()
    }
    fn consume(self: Box<Self>, which: u64, x: u64, n: usize, rest: &[u64]) -> (Vec<u64>, Vec<u64>) {
        let m: Vec<T> = rest.iter().map(|d| T::mk(*d)).collect();
        (both(self.0, which, x, n), both(m.into_iter(), which, x, n))
    }
}

/// A boxed DynIter as a std iterator, so that std adaptors (skip, step_by, rev, zip, ...) can be
/// driven over the library's own next, nth, next_back and size_hint.
pub struct DI<'a>(pub Box<dyn DynIter + 'a>);
impl<'a> Iterator for DI<'a> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        self.0.next()
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        self.0.nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a> DoubleEndedIterator for DI<'a> {
    fn next_back(&mut self) -> Option<u64> {
        self.0.next_back()
    }
    fn nth_back(&mut self, n: usize) -> Option<u64> {
        self.0.nth_back(n)
    }
}
impl<'a> ExactSizeIterator for DI<'a> {
    fn len(&self) -> usize {
        self.0.len()
    }
}

/// Feeds ids to the library as elements, passing size_hint through.
struct Feed<'a, T> {
    it: &'a mut dyn Iterator<Item = u64>,
    p: PhantomData<T>,
}
impl<'a, T: Elem> Iterator for Feed<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.it.next().map(T::mk)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Info {
    pub storage: &'static str,
    pub block: u32,
    pub k: u64,
    pub elem: &'static str,
}

impl Info {
    /// bits needed for one element, from first principles
    pub fn bits(&self) -> u32 {
        let mut b = 0;
        while b < 64 && (1u128 << b) < self.k as u128 {
            b += 1;
        }
        b
    }
    pub fn epb(&self) -> u64 {
        (self.block / self.bits()) as u64
    }
    pub fn blocks(&self, n: u64) -> u64 {
        let e = self.epb();
        n / e + (n % e != 0) as u64
    }
    pub fn bytes(&self, n: u64) -> u64 {
        self.blocks(n).saturating_mul((self.block / 8) as u64)
    }
    pub fn inline_blocks(&self) -> u64 {
        if self.storage == "small" { 4 } else { 0 }
    }
}

pub trait DynVec: Any {
    fn info(&self) -> Info;
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;

    // construction of a vector of the same type
    fn mk_new(&self) -> Box<dyn DynVec>;
    fn mk_default(&self) -> Box<dyn DynVec>;
    fn mk_cap(&self, n: usize) -> Box<dyn DynVec>;
    fn mk_elem(&self, v: u64, n: usize) -> Box<dyn DynVec>;
    fn mk_slice(&self, v: &[u64]) -> Box<dyn DynVec>;
    fn mk_vec(&self, v: &[u64]) -> Box<dyn DynVec>;
    fn mk_iter(&self, it: &mut dyn Iterator<Item = u64>) -> Box<dyn DynVec>;
    fn mk_macro_fill(&self, v: u64, n: usize) -> Box<dyn DynVec>;
    fn mk_macro_list(&self, v: &[u64]) -> Box<dyn DynVec>;
    fn dup(&self) -> Box<dyn DynVec>;
    fn clone_from(&mut self, o: &dyn DynVec);

    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn capacity(&self) -> usize;
    fn get(&self, i: usize) -> Option<u64>;
    fn set(&mut self, i: usize, v: u64);
    fn push(&mut self, v: u64);
    fn pop(&mut self) -> Option<u64>;
    fn swap(&mut self, i: usize, j: usize);
    fn swap_remove(&mut self, i: usize) -> u64;
    fn insert(&mut self, i: usize, v: u64);
    fn remove(&mut self, i: usize) -> u64;
    fn retain(&mut self, f: &mut dyn FnMut(u64) -> bool);
    fn truncate(&mut self, n: usize);
    fn clear(&mut self);
    fn split_off(&mut self, at: usize) -> Box<dyn DynVec>;
    fn extend(&mut self, it: &mut dyn Iterator<Item = u64>);
    fn resize(&mut self, n: usize, v: u64);
    fn append(&mut self, o: &mut dyn DynVec);
    fn reserve(&mut self, n: usize);
    fn shrink(&mut self);
    fn for_each(&mut self, f: &mut dyn FnMut(u64) -> u64);
    fn any(&self, v: u64) -> bool;
    fn all(&self, v: u64) -> bool;
    fn to_vec(&self) -> Vec<u64>;
    fn into_vec(self: Box<Self>) -> Vec<u64>;
    fn iter(&self) -> Box<dyn DynIter + '_>;
    fn ref_into_iter(&self) -> Box<dyn DynIter + '_>;
    fn into_iter(self: Box<Self>) -> Box<dyn DynIter>;
    /// collect the by-value iterator into a vector of the same type
    fn recollect(self: Box<Self>) -> Box<dyn DynVec>;
    /// extend from another vector's by-value iterator
    fn extend_from(&mut self, o: Box<dyn DynVec>);
    fn eq(&self, o: &dyn DynVec) -> bool;
    fn ne(&self, o: &dyn DynVec) -> bool;
    fn hash_sip(&self) -> u64;
    fn hash_bytes(&self) -> u64;
    fn debug(&self) -> String;
    fn debug_alt(&self) -> String;
    /// what Debug should print for these ids
    fn debug_model(&self, v: &[u64]) -> (String, String);

    // raw access
    fn storage_len(&self) -> usize;
    fn storage_cap(&self) -> usize;
    fn block(&self, i: usize) -> u128;
    fn set_block(&mut self, i: usize, b: u128);
    fn resize_storage(&mut self, n: usize);
    unsafe fn raw_get(&self, i: usize) -> usize;
    unsafe fn raw_set(&mut self, i: usize, d: usize);
    unsafe fn set_len(&mut self, n: usize);
    fn spilled(&self) -> bool;
}

pub struct W<V>(pub V);

/// bracket a library call with the allocation counters
macro_rules! m {
    ($e:expr) => {{
        let s = alloc::snap();
        let r = $e;
        let d = alloc::since(s);
        alloc::LAST.with(|l| l.set(d));
        r
    }};
}

macro_rules! imp {
    ($m:ident, $name:expr, $bits:expr, $path:path, $block:ty, |$st:ident| $spill:expr) => {
        pub mod $m {
            use super::*;
            use $path as EnumVec;
            use enum_vec::enum_vec;
            type Me<T> = W<EnumVec<T>>;
            fn cast<T: Elem>(o: &dyn DynVec) -> &EnumVec<T> {
                &o.as_any().downcast_ref::<Me<T>>().expect("same type").0
            }
            fn bx<T: Elem>(v: EnumVec<T>) -> Box<dyn DynVec> {
                Box::new(W(v))
            }
            pub fn fresh<T: Elem>() -> Box<dyn DynVec> {
                bx::<T>(EnumVec::new())
            }
            impl<T: Elem> DynVec for Me<T> {
                fn info(&self) -> Info {
                    Info { storage: $name, block: $bits, k: T::K, elem: std::any::type_name::<T>() }
                }
                fn as_any(&self) -> &dyn Any {
                    self
                }
                fn as_any_mut(&mut self) -> &mut dyn Any {
                    self
                }
                fn mk_new(&self) -> Box<dyn DynVec> {
                    bx::<T>(m!(EnumVec::new()))
                }
                fn mk_default(&self) -> Box<dyn DynVec> {
                    bx::<T>(m!(Default::default()))
                }
                fn mk_cap(&self, n: usize) -> Box<dyn DynVec> {
                    bx::<T>(m!(EnumVec::with_capacity(n)))
                }
                fn mk_elem(&self, v: u64, n: usize) -> Box<dyn DynVec> {
                    bx::<T>(m!(EnumVec::from_elem(T::mk(v), n)))
                }
                fn mk_slice(&self, v: &[u64]) -> Box<dyn DynVec> {
                    let v: Vec<T> = v.iter().map(|d| T::mk(*d)).collect();
                    bx::<T>(m!(EnumVec::from_slice(&v)))
                }
                fn mk_vec(&self, v: &[u64]) -> Box<dyn DynVec> {
                    let v: Vec<T> = v.iter().map(|d| T::mk(*d)).collect();
                    let bytes = (v.capacity() * std::mem::size_of::<T>()) as i64;
                    let r: EnumVec<T> = m!(v.into());
                    // the source Vec was released inside the call: not the vector's doing
                    alloc::LAST.with(|l| {
                        let mut d = l.get();
                        d.live += bytes;
                        l.set(d)
                    });
                    bx::<T>(r)
                }
                fn mk_iter(&self, it: &mut dyn Iterator<Item = u64>) -> Box<dyn DynVec> {
                    bx::<T>(m!(Feed { it, p: PhantomData }.collect()))
                }
                fn mk_macro_fill(&self, v: u64, n: usize) -> Box<dyn DynVec> {
                    // each argument is an expression that must be evaluated once
                    let (mut a, mut b) = (0u64, 0usize);
                    let r: EnumVec<T> = m!(enum_vec![{ a += 1; T::mk(if a == 1 { v } else { (v + 1) % T::K }) }; { b += 1; if b == 1 { n } else { n / 2 + 3 } }]);
                    bx::<T>(r)
                }
                fn mk_macro_list(&self, v: &[u64]) -> Box<dyn DynVec> {
                    // the arguments are expressions to be evaluated once each, in order
                    let mut next = 0;
                    let mut e = |_: usize| {
                        next += 1;
                        T::mk(v[(next - 1) % v.len()])
                    };
                    let r: EnumVec<T> = match v.len() {
                        0 => m!(enum_vec![]),
                        1 => m!(enum_vec![e(0)]),
                        2 => m!(enum_vec![e(0), e(1)]),
                        3 => m!(enum_vec![e(0), e(1), e(2),]),
                        _ => m!(enum_vec![e(0), e(1), e(2), e(3)]),
                    };
                    bx::<T>(r)
                }
                fn dup(&self) -> Box<dyn DynVec> {
                    bx::<T>(m!(self.0.clone()))
                }
                fn clone_from(&mut self, o: &dyn DynVec) {
                    m!(self.0.clone_from(cast::<T>(o)))
                }
                fn len(&self) -> usize {
                    self.0.len()
                }
                fn is_empty(&self) -> bool {
                    self.0.is_empty()
                }
                fn capacity(&self) -> usize {
                    self.0.capacity()
                }
                fn get(&self, i: usize) -> Option<u64> {
                    self.0.get(i).map(|x| x.id())
                }
                fn set(&mut self, i: usize, v: u64) {
                    m!(self.0.set(i, T::mk(v)))
                }
                fn push(&mut self, v: u64) {
                    m!(self.0.push(T::mk(v)))
                }
                fn pop(&mut self) -> Option<u64> {
                    m!(self.0.pop()).map(|x| x.id())
                }
                fn swap(&mut self, i: usize, j: usize) {
                    m!(self.0.swap(i, j))
                }
                fn swap_remove(&mut self, i: usize) -> u64 {
                    m!(self.0.swap_remove(i)).id()
                }
                fn insert(&mut self, i: usize, v: u64) {
                    m!(self.0.insert(i, T::mk(v)))
                }
                fn remove(&mut self, i: usize) -> u64 {
                    m!(self.0.remove(i)).id()
                }
                fn retain(&mut self, f: &mut dyn FnMut(u64) -> bool) {
                    m!(self.0.retain(|x| f(x.id())))
                }
                fn truncate(&mut self, n: usize) {
                    m!(self.0.truncate(n))
                }
                fn clear(&mut self) {
                    m!(self.0.clear())
                }
                fn split_off(&mut self, at: usize) -> Box<dyn DynVec> {
                    bx::<T>(m!(self.0.split_off(at)))
                }
                fn extend(&mut self, it: &mut dyn Iterator<Item = u64>) {
                    m!(self.0.extend(Feed::<T> { it, p: PhantomData }))
                }
                fn resize(&mut self, n: usize, v: u64) {
                    m!(self.0.resize(n, T::mk(v)))
                }
                fn append(&mut self, o: &mut dyn DynVec) {
                    let o = &mut o.as_any_mut().downcast_mut::<Me<T>>().expect("same type").0;
                    m!(self.0.append(o))
                }
                fn reserve(&mut self, n: usize) {
                    m!(self.0.reserve(n))
                }
                fn shrink(&mut self) {
                    m!(self.0.shrink_to_fit())
                }
                fn for_each(&mut self, f: &mut dyn FnMut(u64) -> u64) {
                    m!(self.0.for_each(|x| {
                        let n = f(x.id());
                        *x = T::mk(n);
                    }))
                }
                fn any(&self, v: u64) -> bool {
                    self.0.any(T::mk(v))
                }
                fn all(&self, v: u64) -> bool {
                    self.0.all(T::mk(v))
                }
                fn to_vec(&self) -> Vec<u64> {
                    self.0.to_vec().into_iter().map(|x| x.id()).collect()
                }
                fn into_vec(self: Box<Self>) -> Vec<u64> {
                    let v: Vec<T> = self.0.into();
                    v.into_iter().map(|x| x.id()).collect()
                }
                fn iter(&self) -> Box<dyn DynIter + '_> {
                    Box::new(It(self.0.iter()))
                }
                fn ref_into_iter(&self) -> Box<dyn DynIter + '_> {
                    Box::new(It((&self.0).into_iter()))
                }
                fn into_iter(self: Box<Self>) -> Box<dyn DynIter> {
                    Box::new(It(self.0.into_iter()))
                }
                fn recollect(self: Box<Self>) -> Box<dyn DynVec> {
                    let v = self.0;
                    bx::<T>(m!(v.into_iter().collect()))
                }
                fn extend_from(&mut self, o: Box<dyn DynVec>) {
                    let o = cast::<T>(&*o).clone();
                    m!(self.0.extend(o))
                }
                fn eq(&self, o: &dyn DynVec) -> bool {
                    self.0 == *cast::<T>(o)
                }
                fn ne(&self, o: &dyn DynVec) -> bool {
                    self.0 != *cast::<T>(o)
                }
                fn hash_sip(&self) -> u64 {
                    let mut h = DefaultHasher::new();
                    self.0.hash(&mut h);
                    h.finish()
                }
                fn hash_bytes(&self) -> u64 {
                    let mut h = ByteHasher(1);
                    self.0.hash(&mut h);
                    h.finish()
                }
                fn debug(&self) -> String {
                    format!("{:?}", self.0)
                }
                fn debug_alt(&self) -> String {
                    format!("{:#?}", self.0)
                }
                fn debug_model(&self, v: &[u64]) -> (String, String) {
                    let v: Vec<T> = v.iter().map(|d| T::mk(*d)).collect();
                    (format!("{:?}", v), format!("{:#?}", v))
                }
                fn storage_len(&self) -> usize {
                    self.0.storage().len()
                }
                fn storage_cap(&self) -> usize {
                    self.0.storage().capacity()
                }
                fn block(&self, i: usize) -> u128 {
                    self.0.storage()[i] as u128
                }
                fn set_block(&mut self, i: usize, b: u128) {
                    unsafe { self.0.storage_mut()[i] = b as $block }
                }
                fn resize_storage(&mut self, n: usize) {
                    unsafe { self.0.storage_mut().resize(n, 0) }
                }
                unsafe fn raw_get(&self, i: usize) -> usize {
                    unsafe { self.0.get_raw_unchecked(i) }
                }
                unsafe fn raw_set(&mut self, i: usize, d: usize) {
                    unsafe { self.0.set_raw_unchecked(i, d) }
                }
                unsafe fn set_len(&mut self, n: usize) {
                    unsafe { self.0.set_len(n) }
                }
                fn spilled(&self) -> bool {
                    let $st = self.0.storage();
                    $spill
                }
            }
        }
    };
}

imp!(v8, "u8", 8, enum_vec::vec_u8::EnumVec, u8, |s| s.capacity() > 0);
imp!(v16, "u16", 16, enum_vec::vec_u16::EnumVec, u16, |s| s.capacity() > 0);
imp!(v32, "u32", 32, enum_vec::vec_u32::EnumVec, u32, |s| s.capacity() > 0);
imp!(v64, "u64", 64, enum_vec::vec_u64::EnumVec, u64, |s| s.capacity() > 0);
imp!(v128, "u128", 128, enum_vec::vec_u128::EnumVec, u128, |s| s.capacity() > 0);
imp!(vs, "small", 32, enum_vec::smallvec_u32::EnumVec, u32, |s| s.spilled());

pub type Mk = fn() -> Box<dyn DynVec>;

use crate::el::{El, Rev};
macro_rules! els {
    ($out:ident, $m:ident, $($k:expr),*) => { $( $out.push($m::fresh::<El<{ $k }>> as Mk); )* };
}

/// The combinations of storage and element type every history monitor uses.
pub fn core_combos() -> Vec<Mk> {
    let mut v: Vec<Mk> = vec![];
    els!(v, v8, 2, 3, 5, 10, 17, 100, 256);
    els!(v, v16, 2, 3, 5, 10, 17, 100, 256, 1025, 65536);
    els!(v, v32, 2, 3, 5, 10, 17, 100, 256, 1025, 70000, 1 << 32);
    els!(v, vs, 2, 3, 5, 10, 17, 100, 256, 1025, 70000, 1 << 32);
    els!(v, v64, 2, 3, 5, 10, 17, 100, 256, 1025, 70000, 1 << 32, (1 << 33) - 5, u64::MAX);
    els!(v, v128, 2, 3, 5, 10, 17, 100, 256, 1025, 70000, 1 << 32, (1 << 33) - 5, u64::MAX);
    v.push(v32::fresh::<bool>);
    v.push(vs::fresh::<bool>);
    v.push(v32::fresh::<Option<[bool; 4]>>);
    v.push(v8::fresh::<Rev<6>>);
    v.push(v64::fresh::<Rev<6>>);
    v
}

/// A small set for slow interpreters: every storage, one wasteful and one exact width, one
/// element as wide as the block.
pub fn tiny_combos() -> Vec<Mk> {
    let mut v: Vec<Mk> = vec![];
    els!(v, v8, 5, 256);
    els!(v, v16, 17, 65536);
    els!(v, v32, 100, 1025);
    els!(v, vs, 100, 1 << 32);
    els!(v, v64, 1025, u64::MAX);
    els!(v, v128, 70000, u64::MAX);
    v.push(v32::fresh::<bool>);
    v.push(v32::fresh::<Option<[bool; 4]>>);
    v
}

/// groups of constructors with equal K, one per storage that accepts it
pub fn lockstep_groups() -> Vec<Vec<Mk>> {
    let mut by: std::collections::BTreeMap<String, Vec<Mk>> = Default::default();
    for c in core_combos() {
        let i = c().info();
        by.entry(i.elem.to_string()).or_default().push(c);
    }
    by.into_values().filter(|g| g.len() > 1).collect()
}

#[cfg(feature = "wide")]
pub fn wide_combos() -> Vec<Mk> {
    let mut v: Vec<Mk> = vec![];
    macro_rules! p {
        ($m:ident, $($b:expr),*) => { $( els!(v, $m, (1u64 << $b) - 1, 1u64 << $b, (1u64 << $b) + 1); )* };
    }
    include!("wide_table.rs");
    v
}
#[cfg(not(feature = "wide"))]
pub fn wide_combos() -> Vec<Mk> {
    core_combos()
}
