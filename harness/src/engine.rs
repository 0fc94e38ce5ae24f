//! Runs operation histories against one monitor at a time: steps, verdicts, shrinking, counters.
use crate::alloc;
use crate::dynvec::{DynVec, Info, Mk};
use crate::el;
use crate::hist::*;
use crate::report::{Report, BEAT, CASE, SCOPE, STEP};
use crate::rng::{mix, Acc, Rng};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering::Relaxed;

/// How one step ended
pub enum Verdict {
    Ok,
    /// the property under watch is violated
    Bad(String),
    /// something outside the property misbehaved: the case ends without a verdict
    Foreign(String),
}
pub use Verdict::*;

#[derive(Default)]
pub struct Tally {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub evaluations: u64,
}
impl Tally {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
}

/// The state of a running history
pub struct H {
    pub mk: Mk,
    pub info: Info,
    pub prof: Profile,
    pub k: u64,
    pub v: Regs,
    /// contents last read back, per register
    pub obs: [Vec<u64>; 3],
    pub tally: Tally,
    pub trace: Option<Vec<String>>,
    pub stderr: bool,
    pub counting: bool,
}

impl H {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() || self.stderr {
            let s = f();
            if self.stderr {
                eprintln!("  {}", s);
            }
            if let Some(t) = &mut self.trace {
                t.push(s);
            }
        }
    }
    pub fn lens(&self) -> [usize; 3] {
        [self.obs[0].len(), self.obs[1].len(), self.obs[2].len()]
    }
    /// one oracle evaluation; `situation` identifies it, trivial ones are not counted as distinct
    pub fn eval(&mut self, what: &str, situation: impl FnOnce(&H) -> Option<Acc>) {
        if !self.counting {
            return;
        }
        self.tally.evaluations += 1;
        self.tally.count(what, 1);
        if self.tally.distinct.len() < 3_000_000 {
            if let Some(mut a) = situation(self) {
                for b in self.info.storage.bytes() {
                    a.add(b as u64);
                }
                a.add(self.info.k);
                self.tally.distinct.insert(a.0);
            }
        }
    }
    pub fn acc(&self, res: &Res) -> Option<Acc> {
        let mut a = Acc::new();
        a.add(res.code as u64);
        a.add(res.i as u64);
        a.add(res.j as u64);
        a.add(res.v);
        for x in &res.vals {
            a.add(*x);
        }
        a.add(res.keep);
        for r in touched(res) {
            a.add(0x77);
            for x in &self.obs[r] {
                a.add(*x);
            }
        }
        if touched(res).iter().all(|r| self.obs[*r].is_empty()) && res.vals.is_empty() && res.i == 0 {
            return None;
        }
        Some(a)
    }
    /// a random stream that belongs to one operation, so that removing others does not change it
    pub fn aux(&self, op: &Op, salt: u64) -> Rng {
        Rng::new(op.a ^ mix(op.b), salt, op.v)
    }
    pub fn fresh(&self) -> Box<dyn DynVec> {
        (self.mk)()
    }
    pub fn scope(&self, inside: bool) {
        SCOPE.store(inside as u64, Relaxed);
    }
}

pub trait Mon {
    /// stream number for the random generator
    fn weights(&self, rng: &mut Rng) -> Vec<(Code, u32)> {
        let _ = rng;
        weights()
    }
    fn steps(&self) -> (u64, u64) {
        (8, 60)
    }
    fn start(&mut self, h: &mut H) {
        let _ = h;
    }
    fn step(&mut self, h: &mut H, op: &Op) -> Verdict;
    /// after the last step, with the vectors still there
    fn finish(&mut self, h: &mut H) -> Verdict {
        let _ = h;
        Ok
    }
    /// after all vectors are dropped; `leaked` is the change in live heap bytes
    fn after_drop(&mut self, leaked: i64) -> Verdict {
        let _ = leaked;
        Ok
    }
}

pub struct Plan {
    pub mk: Mk,
    pub prof: Profile,
    pub ops: Vec<Op>,
}

pub struct Outcome {
    pub bad: Option<(usize, String)>,
    pub trace: Vec<String>,
    pub tally: Tally,
}

pub fn exec(new_mon: &dyn Fn() -> Box<dyn Mon>, plan: &Plan, ops: &[Op], counting: bool, tracing: bool, stderr: bool) -> Outcome {
    let mut mon = new_mon();
    BEAT.fetch_add(1, Relaxed);
    el::reset();
    crate::report::clear_panic_msg();
    let live0 = alloc::snap().live;
    let v = regs(plan.mk);
    let info = v[0].info();
    let mut h = H {
        mk: plan.mk,
        info,
        prof: plan.prof.clone(),
        k: info.k,
        v,
        obs: [vec![], vec![], vec![]],
        tally: Tally::default(),
        trace: if tracing { Some(vec![]) } else { None },
        stderr,
        counting,
    };
    let mut bad = None;
    mon.start(&mut h);
    let mut foreign = false;
    for (n, op) in ops.iter().enumerate() {
        STEP.store(n as u64, Relaxed);
        match mon.step(&mut h, op) {
            Ok => {}
            Bad(m) => {
                bad = Some((n, m));
                break;
            }
            Foreign(m) => {
                h.log(|| format!("outside this property: {}", m));
                h.tally.count("cases ended by something outside the property", 1);
                foreign = true;
                break;
            }
        }
    }
    if bad.is_none() && !foreign {
        if let Bad(m) = mon.finish(&mut h) {
            bad = Some((ops.len(), m));
        }
    }
    SCOPE.store(0, Relaxed);
    let H { v, obs, tally, trace, prof, .. } = h;
    mon_scope_drop(&mut *mon, v);
    drop(obs);
    drop(prof);
    // what the harness itself still holds: tally and trace are measured separately
    let trace = trace.unwrap_or_default();
    crate::report::clear_panic_msg();
    if bad.is_none() && !foreign && !counting && !tracing {
        let leaked = alloc::snap().live - live0;
        if let Bad(m) = mon.after_drop(leaked) {
            bad = Some((ops.len(), m));
        }
    }
    Outcome { bad, trace, tally }
}

fn mon_scope_drop(_m: &mut dyn Mon, v: Regs) {
    drop(v);
}

/// Remove operations while the history still fails.
fn shrink(new_mon: &dyn Fn() -> Box<dyn Mon>, plan: &Plan, ops: Vec<Op>, leaky: bool) -> Vec<Op> {
    let begin = std::time::Instant::now();
    let fails = |o: &[Op]| exec(new_mon, plan, o, false, !leaky, false).bad.is_some();
    let mut cur = ops;
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() {
            if begin.elapsed().as_millis() > 4000 {
                return cur;
            }
            let mut t = cur.clone();
            t.drain(i..(i + chunk).min(t.len()));
            if fails(&t) {
                cur = t;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !changed {
            return cur;
        }
        chunk = (chunk / 2).max(1);
    }
}

fn head(plan: &Plan) -> String {
    let i = (plan.mk)().info();
    format!("storage {} ({}-bit blocks), element type with {} variants ({}), {} bits each", i.storage, i.block, i.k, i.elem, i.bits())
}

pub fn run(mut rep: Report, stream: u64, combos: Vec<Mk>, new_mon: &dyn Fn() -> Box<dyn Mon>, leak_pass: bool) -> ! {
    let args = rep.args.clone();
    let small = args.tiny;
    let large = args.extra.get("size").map_or(false, |x| x == "large");
    let mut last = 0;
    for c in args.cases() {
        if rep.out_of_time() {
            break;
        }
        last = c;
        CASE.store(c, Relaxed);
        let mut rng = Rng::new(args.seed, stream, c);
        let mk = combos[(c % combos.len() as u64) as usize];
        let info = mk().info();
        let prof = if large { large_profile(&mut rng, &info) } else { profile(&mut rng, &info, small) };
        let m = new_mon();
        let w = m.weights(&mut rng);
        let (lo, hi) = m.steps();
        let n = if small { rng.range(6, 18) } else if large { rng.range(3, 14) } else { rng.range(lo, hi) };
        let mut ops = gen_ops(&mut rng, &w, n as usize);
        if large {
            // begin with a vector of any length up to the longest, or of just that length
            ops[0].code = *rng.pick(&[Code::FromIter, Code::FromElem, Code::FromSlice, Code::FromVec, Code::Extend, Code::PushMany, Code::Resize]);
            ops[0].r = 0;
            ops[0].a = rng.next() | 15;
            ops[0].b |= 1;
            if rng.chance(1, 3) {
                ops[0].a = (prof.max_len as u64) << 4 | 15;
            }
        }
        let plan = Plan { mk, prof, ops };
        if args.trace {
            eprintln!("case {}: {}", c, head(&plan));
        }
        let mut out = exec(new_mon, &plan, &plan.ops, true, false, args.trace);
        // a second pass without the harness's own bookkeeping, to see leaked bytes exactly
        let mut leaky = false;
        if out.bad.is_none() && leak_pass {
            let o2 = exec(new_mon, &plan, &plan.ops, false, false, false);
            if o2.bad.is_some() {
                out.bad = o2.bad;
                leaky = true;
            }
        }
        rep.evaluations += out.tally.evaluations;
        for (k, v) in &out.tally.counts {
            rep.count(k, *v);
        }
        rep.count("histories", 1);
        if rep.distinct.len() < 3_000_000 {
            rep.distinct.extend(out.tally.distinct.iter());
        }
        if rep.samples.len() < 2 && out.bad.is_none() {
            let o = exec(new_mon, &plan, &plan.ops, false, true, false);
            let mut t = o.trace;
            t.truncate(12);
            rep.sample(|| format!("case {}: {}: {}", c, head(&plan), t.join("; ")));
        }
        if let Some((step, what)) = out.bad {
            let full = exec(new_mon, &plan, &plan.ops, false, true, false);
            let mut t = vec![head(&plan)];
            t.extend(full.trace);
            rep.report(c, &format!("step {}: {}", step, what), &t);
            let ops = shrink(new_mon, &plan, plan.ops.clone(), leaky);
            let fin = exec(new_mon, &plan, &ops, false, !leaky, false);
            let (s2, w2) = fin.bad.clone().unwrap_or((step, what));
            let mut t = vec![head(&plan)];
            if leaky {
                t.extend(exec(new_mon, &plan, &ops, false, true, false).trace);
            } else {
                t.extend(fin.trace);
            }
            rep.violation(c, &format!("step {} of the shortened history: {}", s2, w2), &t)
        }
    }
    rep.done(last)
}
