//! Counting global allocator. Counters are per thread; `snap` and `since` bracket one library call.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Stat {
    pub allocs: u64,
    pub frees: u64,
    pub live: i64,
    pub peak: i64,
}

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// bytes ever asked for
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    /// A single request above this is refused and ends the process with a message (0 = no limit)
    static CAP: Cell<i64> = const { Cell::new(0) };
    pub static LAST: Cell<Stat> = const { Cell::new(Stat { allocs: 0, frees: 0, live: 0, peak: 0 }) };
}

pub fn set_cap(bytes: i64) {
    CAP.with(|c| c.set(bytes));
}

pub fn total() -> (u64, u64) {
    (ALLOCS.with(|x| x.get()), TOTAL.with(|x| x.get()))
}

fn on_alloc(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        let _ = CAP.try_with(|c| {
            if c.get() != 0 && v > c.get() {
                c.set(0);
                crate::report::memcap(v);
            }
        });
    });
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
}
fn on_free(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
    let _ = FREES.try_with(|a| a.set(a.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // beyond any real machine: let it fail as the system would
        if l.size() < 1 << 40 {
            on_alloc(l.size());
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() < 1 << 40 {
            on_alloc(l.size());
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // counted as the worst case: new block obtained before the old one is released
        if n < 1 << 40 {
            on_alloc(n);
            on_free(l.size());
        }
        unsafe { System.realloc(p, l, n) }
    }
}

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: Counting = Counting;

pub fn snap() -> Stat {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
    Stat {
        allocs: ALLOCS.with(|x| x.get()),
        frees: FREES.with(|x| x.get()),
        live: LIVE.with(|x| x.get()),
        peak: 0,
    }
}

/// Difference since `s`: number of allocations and frees, change of live bytes, peak above the start
pub fn since(s: Stat) -> Stat {
    Stat {
        allocs: ALLOCS.with(|x| x.get()) - s.allocs,
        frees: FREES.with(|x| x.get()) - s.frees,
        live: LIVE.with(|x| x.get()) - s.live,
        peak: PEAK.with(|x| x.get()) - s.live,
    }
}

pub fn last() -> Stat {
    LAST.with(|l| l.get())
}
