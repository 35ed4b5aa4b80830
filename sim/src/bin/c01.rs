//! C01: sets behave as mathematical sets under any interleaved history of callers.
use enumset_sim::kernel;
use enumset_sim::seteng::SetEngine;
use enumset_sim::setm::{Machine, Op, Sets};

fn make(name: &str) -> Box<dyn Machine> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Box::new(Sets::<$t>::new()) as Box<dyn Machine>,)*
                _ => panic!("no shape {name}"),
            }
        };
    }
    enumset_sim::for_core_shapes!(pick)
}

fn weight(op: Op) -> u64 {
    match op {
        Op::Die | Op::Step | Op::CloneIt | Op::Drain | Op::DropIt => 0,
        Op::Iter => 1,
        Op::Contains | Op::Clear => 2,
        Op::Make | Op::Len | Op::Copy | Op::Fill => 3,
        Op::Insert | Op::Remove | Op::Bin | Op::Macro => 8,
        _ => 5,
    }
}

fn main() {
    kernel::main(&SetEngine {
        id: "C01",
        make,
        weights: weight,
        faults: false,
        runs: (120_000, 20_000_000),
        steps: (10, 70),
        rule: "seeded discrete-event schedule of 1-5 callers issuing set operations on four shared sets of one of the \
               109 core enums; non-trivial: distinct script in which at least five steps changed a set",
        real: &["enumset (all set operations, operators, macros, iteration)", "enumset_derive (expansion for 109 enums)"],
        stub: &["the callers (seeded scheduler instead of threads)", "reference sets: BTreeSet of discriminants"],
        assumptions: &["callers share sets through exclusive references or locks, so a step is atomic, as Rust enforces"],
    })
}
