//! Ways of consuming an iterator which an implementation may override, written once over any iterator,
//! so that the library's can be compared with a plain Vec's.
use crate::el::Elem;
use crate::rng::mix;

/// how many kinds there are
pub const FORWARD: u64 = 14;
pub const BOTH: u64 = 6;

fn o<T: Elem>(x: Option<T>) -> u64 {
    x.map_or(u64::MAX, |x| mix(x.id() + 1) >> 1)
}
fn p(x: Option<usize>) -> u64 {
    x.map_or(u64::MAX, |x| x as u64)
}

/// consumes `it` in manner `which`; `x` is an id to look for, `n` a small number
pub fn forward<T: Elem, I: Iterator<Item = T>>(mut it: I, which: u64, x: u64, n: usize) -> Vec<u64> {
    let ids = |v: Vec<T>| v.into_iter().map(|x| x.id()).collect::<Vec<_>>();
    match which {
        0 => vec![o(it.max())],
        1 => vec![o(it.min())],
        2 => {
            let a = p(it.position(|y| y.id() == x));
            let mut r = vec![a];
            r.extend(it.map(|y| y.id()));
            r
        }
        3 => {
            let a = it.any(|y| y.id() == x) as u64;
            let mut r = vec![a];
            r.extend(it.map(|y| y.id()));
            r
        }
        4 => {
            let a = it.all(|y| y.id() != x) as u64;
            let mut r = vec![a];
            r.extend(it.map(|y| y.id()));
            r
        }
        5 => {
            let a = o(it.find(|y| y.id() == x));
            let mut r = vec![a];
            r.extend(it.map(|y| y.id()));
            r
        }
        6 => {
            let (a, b): (Vec<T>, Vec<T>) = it.partition(|y| y.id() < x);
            let mut r = ids(a);
            r.push(u64::MAX);
            r.extend(ids(b));
            r
        }
        7 => vec![o(it.reduce(|a, b| if mix(a.id()) < mix(b.id()) { b } else { a }))],
        8 => vec![o(it.max_by_key(|y| mix(y.id()) >> 60))],
        9 => vec![o(it.min_by_key(|y| mix(y.id()) >> 60))],
        10 => {
            let a: Vec<T> = it.by_ref().take(n).collect();
            let mut r = ids(a);
            r.push(u64::MAX);
            r.extend(it.map(|y| y.id()));
            r
        }
        11 => {
            let mut a = 0u64;
            let e = it.try_for_each(|y| {
                a = mix(a ^ y.id());
                if y.id() == x { Err(y.id()) } else { Ok(()) }
            });
            let mut r = vec![a, e.err().unwrap_or(u64::MAX)];
            r.extend(it.map(|y| y.id()));
            r
        }
        12 => {
            let a: Vec<T> = it.by_ref().skip(n).step_by(n + 1).take(n).collect();
            let mut r = ids(a);
            r.push(u64::MAX);
            r.extend(it.map(|y| y.id()));
            r
        }
        _ => {
            let mut a: Vec<T> = vec![];
            a.extend(it);
            ids(a)
        }
    }
}

pub fn both<T: Elem, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mut it: I, which: u64, x: u64, n: usize) -> Vec<u64> {
    if which >= BOTH {
        return forward(it, which - BOTH, x, n);
    }
    match which {
        0 => {
            let a = p(it.rposition(|y| y.id() == x));
            let mut r = vec![a];
            r.extend(it.map(|y| y.id()));
            r
        }
        1 => {
            let a = o(it.rfind(|y| y.id() == x));
            let mut r = vec![a];
            r.extend(it.map(|y| y.id()));
            r
        }
        2 => {
            let a: Vec<u64> = it.by_ref().rev().take(n).map(|y| y.id()).collect();
            let mut r = a;
            r.push(u64::MAX);
            r.extend(it.map(|y| y.id()));
            r
        }
        3 => {
            let a = it.try_rfold(0u64, |a, y| if y.id() == x { Err(a) } else { Ok(mix(a ^ y.id())) });
            let mut r = vec![a.unwrap_or_else(|e| !e)];
            r.extend(it.map(|y| y.id()));
            r
        }
        4 => {
            let mut r: Vec<u64> = it.by_ref().rev().skip(n).step_by(n + 1).take(n).map(|y| y.id()).collect();
            r.push(u64::MAX);
            r.extend(it.map(|y| y.id()));
            r
        }
        _ => {
            let l = it.len() as u64;
            let mut r: Vec<u64> = it.enumerate().rev().skip(n).map(|(i, y)| mix(i as u64) ^ y.id()).collect();
            r.push(l);
            r
        }
    }
}
