//! C03: interrupted updates neither lose nor invent members.
use enumset_sim::kernel;
use enumset_sim::seteng::SetEngine;
use enumset_sim::setm::{Machine, Op, Sets};

fn make(name: &str) -> Box<dyn Machine> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Box::new(Sets::<$t>::new()) as Box<dyn Machine>,)*
                _ => panic!("no shape {name}"),
            }
        };
    }
    enumset_sim::for_core_shapes!(pick)
}

fn weight(op: Op) -> u64 {
    match op {
        Op::Feed => 40,
        Op::Operand => 25,
        Op::Fill => 4,
        Op::Insert | Op::Remove | Op::Bulk | Op::Compl | Op::Bin | Op::Assign | Op::Contains | Op::Len | Op::Rel => 2,
        Op::Clear | Op::Copy | Op::Iter | Op::Step => 1,
        _ => 0,
    }
}

fn main() {
    kernel::main(&SetEngine {
        id: "C03",
        make,
        weights: weight,
        faults: true,
        runs: (120_000, 20_000_000),
        steps: (8, 60),
        rule: "seeded schedule of 1-5 callers updating four shared sets from iterators and operands that panic at, end \
               before, or yield after any element and lie about their size; non-trivial: distinct script in which at \
               least five steps changed a set",
        real: &["enumset (Extend, FromIterator, Sum, operators and assignment operators)", "enumset_derive (operators on bare variants)", "Rust's unwinding"],
        stub: &["the callers and their iterators and operands (fault-injecting)", "reference sets: BTreeSet of discriminants"],
        assumptions: &["a caller that panics inside an update is caught by its supervisor and the set is used further"],
    })
}
