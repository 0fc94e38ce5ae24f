use evmon::alloc;
use evmon::dynvec::*;
use evmon::engine::*;
use evmon::hist::Fam;
use evmon::mons::*;
use evmon::report::*;

fn main() {
    if std::env::args().any(|x| x == "--noop") {
        return;
    }
    let args = Args::parse();
    let prop = args.prop.clone();
    let rep = Report::new(args.clone());
    watchdog(25);
    alloc::set_cap(1 << 30);
    let combos = if args.tiny { tiny_combos() } else { core_combos() };
    let part = args.extra.get("part").cloned().unwrap_or_default();
    guard(move || {
    match (prop.as_str(), part.as_str()) {
        ("C01", _) => run(rep, 1, combos, &|| Box::new(ListMon { all_reads: false }), false),
        ("C14", _) => run(rep, 14, wide_combos(), &|| Box::new(ListMon { all_reads: true }), false),
        ("C02", _) => run(rep, 2, combos, &|| Box::new(FamMon { fam: Fam::Pos }), false),
        ("C03", _) => run(rep, 3, combos, &|| Box::new(FamMon { fam: Fam::Bulk }), false),
        ("C04", _) => run(rep, 4, combos, &|| Box::new(AnyAll), false),
        ("C05", _) => run(rep, 5, combos, &|| Box::new(Iteration), false),
        ("C06", _) => run(rep, 6, combos, &|| Box::new(Repr), false),
        ("C07", _) => run(rep, 7, combos, &|| Box::new(Hostile), false),
        ("C08", _) => run(rep, 8, combos, &|| Box::new(Faults { strict: false }), false),
        ("C09", "leak") => run(rep, 109, combos, &|| Box::new(LeakFaults(Faults { strict: false })), true),
        ("C09", _) => run(rep, 9, combos, &|| Box::new(Memory::default()), true),
        ("C10", _) => run(rep, 10, combos, &|| Box::new(Capacity::default()), false),
        ("C11", _) => run(rep, 11, combos, &|| Box::new(Range), false),
        ("C12", _) => run(rep, 12, combos, &|| Box::new(Faults { strict: true }), false),
        ("C13", _) => run(rep, 13, lockstep_groups().into_iter().flatten().collect(), &|| Box::new(Lockstep::default()), false),
        ("C25", _) => {
            let mut v: enum_vec::EnumVec<bool> = enum_vec::EnumVec::new();
            for i in 0..33 {
                v.push(i % 2 == 1);
            }
            let b = std::mem::size_of_val(&v.storage()[0]);
            if b != 4 {
                rep.violation(0, &format!("the default EnumVec has blocks of {} bytes instead of 4", b), &[]);
            }
            run(rep, 25, combos, &|| Box::new(Layout), false)
        }
        (p, _) => panic!("no monitor for {}", p),
    }
    })
}
