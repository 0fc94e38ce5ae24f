//! Element types. `El<K>` is the monitoring element: it has exactly K variants, logs each
//! conversion, notices invalid discriminants and can be told to panic in a conversion.
use enum_like::EnumLike;
use std::cell::Cell;
use std::fmt;

thread_local! {
    pub static ENC: Cell<u64> = const { Cell::new(0) };
    pub static DEC: Cell<u64> = const { Cell::new(0) };
    /// number of from_discr calls with an argument >= K, and the first such argument
    pub static BAD: Cell<u64> = const { Cell::new(0) };
    pub static BAD_ARG: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    /// countdown to an injected panic in a conversion (0 = off)
    pub static BOMB: Cell<u64> = const { Cell::new(0) };
}

pub fn reset() {
    ENC.with(|x| x.set(0));
    DEC.with(|x| x.set(0));
    BAD.with(|x| x.set(0));
    BOMB.with(|x| x.set(0));
}
pub fn bad() -> Option<(u64, u64)> {
    if BAD.with(|x| x.get()) > 0 {
        Some(BAD_ARG.with(|x| x.get()))
    } else {
        None
    }
}
pub fn conversions() -> u64 {
    ENC.with(|x| x.get()) + DEC.with(|x| x.get())
}
fn tick() {
    BOMB.with(|b| {
        let n = b.get();
        if n > 0 {
            b.set(n - 1);
            if n == 1 {
                panic!("injected panic in element conversion");
            }
        }
    });
}

/// What the harness needs of an element type: a construction from an id in 0..K that does not
/// go through the library.
pub trait Elem: EnumLike + fmt::Debug + Ord + 'static {
    const K: u64;
    fn mk(d: u64) -> Self;
    fn id(self) -> u64;
}

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct El<const K: u64>(pub u64);

impl<const K: u64> fmt::Debug for El<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "e{}", self.0)
    }
}

unsafe impl<const K: u64> EnumLike for El<K> {
    const NUM_VARIANTS: usize = K as usize;
    fn to_discr(self) -> usize {
        ENC.with(|x| x.set(x.get() + 1));
        tick();
        self.0 as usize
    }
    fn from_discr(x: usize) -> Self {
        DEC.with(|c| c.set(c.get() + 1));
        if x as u64 >= K {
            BAD.with(|b| {
                if b.get() == 0 {
                    BAD_ARG.with(|a| a.set((x as u64, K)));
                }
                b.set(b.get() + 1);
            });
            panic!("from_discr({}) on a type with {} variants", x, K);
        }
        tick();
        El(x as u64)
    }
}

impl<const K: u64> Elem for El<K> {
    const K: u64 = K;
    fn mk(d: u64) -> Self {
        assert!(d < K);
        El(d)
    }
    fn id(self) -> u64 {
        self.0
    }
}

/// Same, but the number of a value is the reverse of its content, so that values and
/// discriminants cannot be confused without being noticed.
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rev<const K: u64>(u64);

impl<const K: u64> fmt::Debug for Rev<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "r{}", self.0)
    }
}
unsafe impl<const K: u64> EnumLike for Rev<K> {
    const NUM_VARIANTS: usize = K as usize;
    fn to_discr(self) -> usize {
        El::<K>(K - 1 - self.0).to_discr()
    }
    fn from_discr(x: usize) -> Self {
        Rev(K - 1 - El::<K>::from_discr(x).0)
    }
}
impl<const K: u64> Elem for Rev<K> {
    const K: u64 = K;
    fn mk(d: u64) -> Self {
        assert!(d < K);
        Rev(K - 1 - d)
    }
    fn id(self) -> u64 {
        K - 1 - self.0
    }
}

impl Elem for bool {
    const K: u64 = 2;
    fn mk(d: u64) -> Self {
        d == 1
    }
    fn id(self) -> u64 {
        if self { 1 } else { 0 }
    }
}

// 17 variants with niches: Some([..]) is 0..15 (first element fastest), None is 16
impl Elem for Option<[bool; 4]> {
    const K: u64 = 17;
    fn mk(d: u64) -> Self {
        if d == 16 {
            None
        } else {
            Some([d & 1 != 0, d & 2 != 0, d & 4 != 0, d & 8 != 0])
        }
    }
    fn id(self) -> u64 {
        match self {
            None => 16,
            Some(a) => (0..4).map(|i| (a[i] as u64) << i).sum(),
        }
    }
}

// Composed types with recording parts: what the parts are asked to decode is noticed too. With
// `El<0>` nothing may be asked at all.
impl<const N: u64> Elem for Option<El<N>> {
    const K: u64 = N + 1;
    fn mk(d: u64) -> Self {
        if d == N {
            None
        } else {
            Some(El(d))
        }
    }
    fn id(self) -> u64 {
        self.map_or(N, |x| x.0)
    }
}
impl<const N: u64> Elem for Option<Option<El<N>>> {
    const K: u64 = N + 2;
    fn mk(d: u64) -> Self {
        if d == N + 1 {
            None
        } else {
            Some(Elem::mk(d))
        }
    }
    fn id(self) -> u64 {
        self.map_or(N + 1, |x| x.id())
    }
}
impl<const N: u64, const M: u64> Elem for Result<El<N>, El<M>> {
    const K: u64 = N + M;
    fn mk(d: u64) -> Self {
        if d < N {
            Ok(El(d))
        } else {
            Err(El(d - N))
        }
    }
    fn id(self) -> u64 {
        match self {
            Ok(x) => x.0,
            Err(x) => N + x.0,
        }
    }
}
impl<const N: u64, const M: u64> Elem for (El<N>, El<M>) {
    const K: u64 = N * M;
    fn mk(d: u64) -> Self {
        (El(d % N), El(d / N))
    }
    fn id(self) -> u64 {
        (self.0).0 + N * (self.1).0
    }
}
impl<const N: u64> Elem for [El<N>; 3] {
    const K: u64 = N * N * N;
    fn mk(d: u64) -> Self {
        [El(d % N), El(d / N % N), El(d / N / N)]
    }
    fn id(self) -> u64 {
        self[0].0 + N * (self[1].0 + N * self[2].0)
    }
}
impl<const N: u64> Elem for [El<N>; 0] {
    const K: u64 = 1;
    fn mk(_: u64) -> Self {
        []
    }
    fn id(self) -> u64 {
        0
    }
}
