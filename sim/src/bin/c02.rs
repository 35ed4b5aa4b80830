//! C02: iterators are exact, ordered, double-ended snapshots.
use enumset_sim::kernel;
use enumset_sim::seteng::SetEngine;
use enumset_sim::setm::{Machine, Op, Sets};

fn make(name: &str) -> Box<dyn Machine> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Box::new(Sets::<$t>::new()) as Box<dyn Machine>,)*
                _ => panic!("no shape {name}"),
            }
        };
    }
    enumset_sim::for_core_shapes!(pick)
}

fn weight(op: Op) -> u64 {
    match op {
        Op::Step => 60,
        Op::Iter => 12,
        Op::CloneIt | Op::Drain => 8,
        Op::DropIt | Op::Clear => 1,
        Op::Fill => 4,
        Op::Insert | Op::Remove | Op::Bulk | Op::Compl | Op::Bin | Op::Assign => 3,
        _ => 0,
    }
}

fn main() {
    kernel::main(&SetEngine {
        id: "C02",
        make,
        weights: weight,
        faults: false,
        runs: (120_000, 20_000_000),
        steps: (10, 110),
        rule: "seeded discrete-event schedule of 1-5 callers stepping, skipping, searching, cloning and draining four live \
               iterators from both ends while their sources change; non-trivial: distinct script in which iterators \
               were stepped and at least one source changed",
        real: &["enumset (iterators, their double-ended, exact-size and adaptor behaviour)", "enumset_derive (bit to variant mapping for 109 enums)"],
        stub: &["the callers (seeded scheduler instead of threads)", "reference iterators: VecDeque of discriminants"],
        assumptions: &["an iterator is stepped by one caller at a time, as Rust enforces"],
    })
}
