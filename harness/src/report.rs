//! Command line, verdict lines, crash attribution and counters shared by all monitors.
//!
//! A monitor process ends with: 0 and a `@@DONE {json}` line; 10 after a `@@VIOL {json}` line;
//! 68 after `@@CRASH` (the process got a fatal signal), 69 after `@@MEMCAP`. The driver decides
//! from the scope flag whether a crash belongs to the property.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub static CASE: AtomicU64 = AtomicU64::new(0);
pub static STEP: AtomicU64 = AtomicU64::new(0);
/// 1 while an operation is running whose crash would violate the property under watch
pub static SCOPE: AtomicU64 = AtomicU64::new(0);

/// progress outside operations (shrinking, long oracles)
pub static BEAT: AtomicU64 = AtomicU64::new(0);

thread_local! {
    pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    pub static OPNAME: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub start: u64,
    pub count: u64,
    pub shard: u64,
    pub shards: u64,
    pub max_ms: u64,
    pub only: Option<u64>,
    pub trace: bool,
    pub tiny: bool,
    pub hashes: Option<String>,
    pub extra: BTreeMap<String, String>,
}

impl Args {
    pub fn parse() -> Args {
        let mut a = Args {
            prop: String::new(),
            seed: 1,
            start: 0,
            count: 100,
            shard: 0,
            shards: 1,
            max_ms: 60_000,
            only: None,
            trace: false,
            tiny: false,
            hashes: None,
            extra: BTreeMap::new(),
        };
        let v: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        while i < v.len() {
            let k = v[i].as_str();
            if k == "--trace" {
                a.trace = true;
                i += 1;
                continue;
            }
            if k == "--tiny" {
                a.tiny = true;
                i += 1;
                continue;
            }
            let x = v[i + 1].clone();
            match k {
                "--prop" => a.prop = x,
                "--seed" => a.seed = x.parse().unwrap(),
                "--start" => a.start = x.parse().unwrap(),
                "--count" => a.count = x.parse().unwrap(),
                "--shard" => a.shard = x.parse().unwrap(),
                "--shards" => a.shards = x.parse().unwrap(),
                "--max-ms" => a.max_ms = x.parse().unwrap(),
                "--case" => a.only = Some(x.parse().unwrap()),
                "--hashes" => a.hashes = Some(x),
                k if k.starts_with("--") => {
                    a.extra.insert(k[2..].to_string(), x);
                }
                _ => panic!("argument {}", k),
            }
            i += 2;
        }
        a
    }
    /// The case numbers this process runs
    pub fn cases(&self) -> Box<dyn Iterator<Item = u64>> {
        if let Some(c) = self.only {
            return Box::new(std::iter::once(c));
        }
        let (s, n) = (self.shard, self.shards);
        Box::new((self.start..self.count).filter(move |c| c % n == s))
    }
}

pub struct Report {
    pub args: Args,
    pub begin: Instant,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub distinct: HashSet<u64>,
    pub evaluations: u64,
}

impl Report {
    pub fn new(args: Args) -> Report {
        install();
        Report {
            args,
            begin: Instant::now(),
            counts: BTreeMap::new(),
            samples: vec![],
            distinct: HashSet::new(),
            evaluations: 0,
        }
    }
    pub fn out_of_time(&self) -> bool {
        self.begin.elapsed() > Duration::from_millis(self.args.max_ms)
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn violation(&self, case: u64, what: &str, trace: &[String]) -> ! {
        self.report(case, what, trace);
        std::process::exit(10)
    }
    /// print a violation without ending: a later, shorter account may follow
    pub fn report(&self, case: u64, what: &str, trace: &[String]) {
        let t: Vec<String> = trace.iter().map(|x| esc(x)).collect();
        println!(
            "@@VIOL {{\"prop\":{},\"seed\":{},\"case\":{},\"what\":{},\"trace\":[{}]}}",
            esc(&self.args.prop),
            self.args.seed,
            case,
            esc(what),
            t.join(",")
        );
        use std::io::Write;
        let _ = std::io::stdout().flush();
    }
    pub fn done(&self, last_case: u64) -> ! {
        if let Some(p) = &self.args.hashes {
            let mut b = Vec::with_capacity(self.distinct.len() * 8);
            for h in &self.distinct {
                b.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(p, b).unwrap();
        }
        let c: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let s: Vec<String> = self.samples.iter().map(|x| esc(x)).collect();
        println!(
            "@@DONE {{\"evaluations\":{},\"distinct\":{},\"last_case\":{},\"counts\":{{{}}},\"samples\":[{}]}}",
            self.evaluations,
            self.distinct.len(),
            last_case,
            c.join(","),
            s.join(",")
        );
        std::process::exit(0)
    }
}

pub fn clear_panic_msg() {
    PANIC_MSG.with(|m| *m.borrow_mut() = String::new())
}
pub fn panic_msg() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

/// Run `f`, catching panics; the message is available from `panic_msg`.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| panic_msg())
}

fn install() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if m.contains("unsafe precondition") || std::env::var_os("EVMON_VERBOSE").is_some() {
            eprintln!("{} at {:?}", m, i.location().map(|l| l.to_string()));
        }
        let m = match i.location() {
            Some(l) => format!("{} ({}:{})", m, l.file(), l.line()),
            None => m,
        };
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = m);
    }));
    #[cfg(not(miri))]
    sig::install();
}

#[cfg(not(miri))]
mod sig {
    use super::*;
    extern "C" {
        fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    fn num(buf: &mut [u8; 160], at: &mut usize, mut n: u64) {
        let mut d = [0u8; 20];
        let mut k = 0;
        loop {
            d[k] = b'0' + (n % 10) as u8;
            n /= 10;
            k += 1;
            if n == 0 {
                break;
            }
        }
        while k > 0 {
            k -= 1;
            buf[*at] = d[k];
            *at += 1;
        }
    }
    fn txt(buf: &mut [u8; 160], at: &mut usize, s: &str) {
        for b in s.bytes() {
            buf[*at] = b;
            *at += 1;
        }
    }
    pub fn emit(kind: &str, x: u64, code: i32) -> ! {
        let mut b = [0u8; 160];
        let mut n = 0;
        txt(&mut b, &mut n, "\n@@");
        txt(&mut b, &mut n, kind);
        txt(&mut b, &mut n, " {\"x\":");
        num(&mut b, &mut n, x);
        txt(&mut b, &mut n, ",\"case\":");
        num(&mut b, &mut n, CASE.load(Relaxed));
        txt(&mut b, &mut n, ",\"step\":");
        num(&mut b, &mut n, STEP.load(Relaxed));
        txt(&mut b, &mut n, ",\"scope\":");
        num(&mut b, &mut n, SCOPE.load(Relaxed));
        txt(&mut b, &mut n, "}\n");
        unsafe {
            write(1, b.as_ptr() as *const _, n);
            _exit(code)
        }
    }
    extern "C" fn on_sig(s: i32) {
        emit("CRASH", s as u64, 68)
    }
    pub fn install() {
        let asan = std::env::var_os("EVMON_NO_SEGV").is_some();
        unsafe {
            // SIGABRT, SIGILL always; SIGSEGV, SIGBUS unless a sanitizer wants them
            for s in [6, 4, 11, 7] {
                if asan && s != 4 {
                    continue;
                }
                // on the alternate stack the runtime has set up: a stack overflow is reported as well
                let a = Action { handler: on_sig as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
                sigaction(s, &a, std::ptr::null_mut());
            }
        }
    }
}

/// Ends the process when one step makes no progress for `secs` seconds.
pub fn watchdog(secs: u64) {
    #[cfg(not(miri))]
    std::thread::spawn(move || {
        let mut last = (0, 0, 0);
        let mut still = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = (CASE.load(Relaxed), STEP.load(Relaxed), BEAT.load(Relaxed));
            if now == last {
                still += 1;
                if still >= secs * 2 {
                    sig::emit("HANG", secs, 70)
                }
            } else {
                still = 0;
                last = now;
            }
        }
    });
    #[cfg(miri)]
    let _ = secs;
}

pub fn memcap(bytes: i64) {
    #[cfg(not(miri))]
    sig::emit("MEMCAP", bytes as u64, 69);
    #[cfg(miri)]
    let _ = bytes;
}

/// Runs a monitor; a panic that nobody caught ends the process like a crash, so that the driver
/// can tell whose fault it was and carry on after it.
pub fn guard(f: impl FnOnce()) {
    if let Err(m) = caught(f) {
        eprintln!("uncaught panic: {}", m);
        #[cfg(not(miri))]
        sig::emit("CRASH", 101, 68);
        #[cfg(miri)]
        std::process::exit(101);
    }
}
