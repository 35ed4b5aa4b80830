//! The system under test for set histories: a few shared registers holding sets and a few live iterators, driven
//! through enumset's public API, and the reference model it is compared with.
//!
//! `Sets<T>` must not allocate by itself (C12 runs it with the allocator refusing), so results go to a buffer that
//! the caller has reserved.
use crate::kernel::Violation;
use crate::zoo::{self, ShapeMeta, Variant};
use enumset::{EnumSet, EnumSetIter};
use std::cell::Cell;
use std::collections::{BTreeSet, VecDeque};

pub const REGS: usize = 4;
pub const ITS: usize = 4;
/// Stands for "not offered by this enum" or "no element".
pub const NONE: u64 = u64::MAX;

macro_rules! ops {
    ($($id:ident $name:literal),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum Op { $($id),* }
        pub const OPS: &[&str] = &[$($name),*];
        pub const ALL: &[Op] = &[$(Op::$id),*];
    };
}
ops! {
    Make "make", Insert "insert", Remove "remove", Contains "contains", Clear "clear", Bin "binary", BinV "binary-variant",
    Assign "assign", AssignV "assign-variant", Bulk "bulk-set", Compl "complement", Bare "bare", BareS "bare-set",
    BareNot "bare-not", Rel "relations", EqV "equals-variant", Macro "macro", Len "len", Fill "fill", Copy "copy",
    Feed "feed", Operand "operand", Iter "iter", Step "step", CloneIt "clone-iter", Drain "drain", DropIt "drop-iter",
    Die "die",
}

/// How a machine is driven, independent of the enum.
pub trait Machine {
    fn exec(&mut self, op: Op, a: &[u64], out: &mut Vec<u64>);
    /// Contents of a register, by iteration.
    fn contents(&self, r: usize, out: &mut Vec<u64>);
    /// Contents by membership queries, then length and emptiness.
    fn members(&self, r: usize, out: &mut Vec<u64>);
}

pub struct Sets<T: Variant> {
    pub regs: [EnumSet<T>; REGS],
    pub its: [Option<EnumSetIter<T>>; ITS],
}
impl<T: Variant> Sets<T> {
    pub fn new() -> Self {
        Sets { regs: [EnumSet::new(); REGS], its: [const { None }; ITS] }
    }
}

/// An operand whose conversion into a set may panic.
pub struct Operand<T: Variant>(pub EnumSet<T>, pub bool);
impl<T: Variant> From<Operand<T>> for EnumSet<T> {
    fn from(o: Operand<T>) -> Self {
        if o.1 {
            std::panic::panic_any(crate::Injected);
        }
        o.0
    }
}

/// A caller's iterator that panics, ends early (and goes on afterwards), or lies about its size.
pub struct Feed<'a, F> {
    pub items: &'a [u64],
    pub pos: usize,
    pub calls: u64,
    pub panic_at: u64,
    pub none_at: u64,
    pub hint: u64,
    pub yielded: &'a Cell<u64>,
    pub map: F,
}
impl<X, F: FnMut(u64) -> X> Iterator for Feed<'_, F> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        let n = self.calls;
        self.calls += 1;
        if n == self.panic_at {
            std::panic::panic_any(crate::Injected);
        }
        if n == self.none_at || self.pos >= self.items.len() {
            return None;
        }
        let x = (self.map)(self.items[self.pos]);
        self.pos += 1;
        self.yielded.set(self.pos as u64);
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len() - self.pos;
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(0)),
            3 => (usize::MAX, None),
            4 => (n + 7, Some(n + 7)),
            _ => (n, Some(n.saturating_sub(1))),
        }
    }
}

fn disc<T: Variant>(v: Option<T>) -> u64 {
    v.map_or(NONE, |v| v.disc() as u64)
}

impl<T: Variant> Sets<T> {
    fn v(&self, i: u64) -> T {
        T::variants()[i as usize]
    }
    fn bin(op: u64, a: EnumSet<T>, b: EnumSet<T>) -> EnumSet<T> {
        match op {
            0 => a.union(b),
            1 => a.intersection(b),
            2 => a.difference(b),
            3 => a.symmetrical_difference(b),
            4 => a | b,
            5 => a & b,
            6 => a - b,
            _ => a ^ b,
        }
    }
    fn op_with<O: Into<EnumSet<T>>>(op: u64, a: EnumSet<T>, b: O) -> EnumSet<T> {
        match op {
            0 => a | b,
            1 => a & b,
            2 => a - b,
            _ => a ^ b,
        }
    }
    fn assign_with<O: Into<EnumSet<T>>>(op: u64, a: &mut EnumSet<T>, b: O) {
        match op {
            0 => *a |= b,
            1 => *a &= b,
            2 => *a -= b,
            _ => *a ^= b,
        }
    }
    fn feed(&mut self, r: usize, kind: u64, panic_at: u64, none_at: u64, hint: u64, items: &[u64], yielded: &Cell<u64>) {
        let regs = self.regs;
        macro_rules! it {
            ($map:expr) => {
                Feed { items, pos: 0, calls: 0, panic_at, none_at, hint, yielded, map: $map }
            };
        }
        let vs = T::variants();
        match kind {
            0 => self.regs[r].extend(it!(|i| vs[i as usize])),
            1 => self.regs[r].extend(it!(|i| regs[i as usize % REGS])),
            2 => self.regs[r] = it!(|i| vs[i as usize]).collect(),
            3 => self.regs[r] = it!(|i| regs[i as usize % REGS]).collect(),
            4 => self.regs[r] = it!(|i| regs[i as usize % REGS]).sum(),
            5 => self.regs[r] = it!(|i| &regs[i as usize % REGS]).sum(),
            6 => self.regs[r] = it!(|i| vs[i as usize]).sum(),
            _ => self.regs[r] = it!(|i| &vs[i as usize]).sum(),
        }
    }
}

impl<T: Variant> Machine for Sets<T> {
    fn contents(&self, r: usize, out: &mut Vec<u64>) {
        // Bounded, so that an iterator that never ends cannot hang the observer.
        out.extend(self.regs[r].iter().take(T::variants().len() + 2).map(|v| v.disc() as u64));
    }
    fn members(&self, r: usize, out: &mut Vec<u64>) {
        let s = self.regs[r];
        out.extend(T::variants().iter().filter(|v| s.contains(**v)).map(|v| v.disc() as u64));
        out.push(s.len() as u64);
        out.push(s.is_empty() as u64);
    }
    fn exec(&mut self, op: Op, a: &[u64], out: &mut Vec<u64>) {
        let r = a.first().map_or(0, |x| *x as usize);
        match op {
            Op::Make => {
                self.regs[r] = match a[1] {
                    0 => EnumSet::new(),
                    1 => EnumSet::empty(),
                    2 => Default::default(),
                    3 => EnumSet::all(),
                    4 => EnumSet::only(self.v(a[2])),
                    5 => self.v(a[2]).into(),
                    6 => match T::macro_only(self.v(a[2])) {
                        Some(x) => x,
                        None => EnumSet::new(),
                    },
                    #[allow(deprecated)]
                    8 => EnumSet::EMPTY,
                    #[allow(deprecated)]
                    9 => EnumSet::ALL,
                    _ => <EnumSet<T> as From<T>>::from(self.v(a[2])),
                }
            }
            Op::Insert => {
                let v = self.v(a[1]);
                out.push(self.regs[r].insert(v) as u64)
            }
            Op::Remove => {
                let v = self.v(a[1]);
                out.push(self.regs[r].remove(v) as u64)
            }
            Op::Contains => out.push(self.regs[r].contains(self.v(a[1])) as u64),
            Op::Clear => self.regs[r].clear(),
            Op::Bin => self.regs[r] = Self::bin(a[1], self.regs[a[2] as usize], self.regs[a[3] as usize]),
            Op::BinV => self.regs[r] = Self::op_with(a[1], self.regs[a[2] as usize], self.v(a[3])),
            Op::Assign => {
                let b = self.regs[a[2] as usize];
                Self::assign_with(a[1], &mut self.regs[r], b)
            }
            Op::AssignV => {
                let v = self.v(a[2]);
                Self::assign_with(a[1], &mut self.regs[r], v)
            }
            Op::Bulk => {
                let b = self.regs[a[2] as usize];
                if a[1] == 0 {
                    self.regs[r].insert_all(b)
                } else {
                    self.regs[r].remove_all(b)
                }
            }
            Op::Compl => {
                let b = self.regs[a[2] as usize];
                self.regs[r] = if a[1] == 0 { b.complement() } else { !b }
            }
            Op::Bare => match T::bare(a[1], self.v(a[2]), self.v(a[3])) {
                Some(x) => self.regs[r] = x,
                None => out.push(NONE),
            },
            Op::BareS => match T::bare(a[1], self.v(a[2]), self.regs[a[3] as usize]) {
                Some(x) => self.regs[r] = x,
                None => out.push(NONE),
            },
            Op::BareNot => match T::bare_not(self.v(a[1])) {
                Some(x) => self.regs[r] = x,
                None => out.push(NONE),
            },
            Op::Rel => {
                let (x, y) = (self.regs[r], self.regs[a[1] as usize]);
                out.extend([x.is_subset(y), x.is_superset(y), x.is_disjoint(y), x == y, x != y].map(|b| b as u64))
            }
            Op::EqV => {
                let (s, v) = (self.regs[r], self.v(a[1]));
                out.push((s == v) as u64);
                #[allow(clippy::nonminimal_bool)]
                out.push(!(s != v) as u64);
                out.push(T::bare_eq(v, s).map_or(NONE, |b| b as u64));
            }
            Op::Macro => {
                let (v, w) = (self.v(a[2]), self.v(a[3]));
                let (s, t) = (self.regs[a[4] as usize], self.regs[a[5] as usize]);
                match T::macros(a[1], [v, w], [s, t, self.regs[r]]) {
                    Some(x) => self.regs[r] = x,
                    None => out.push(NONE),
                }
            }
            Op::Len => out.extend([
                self.regs[r].len() as u64,
                self.regs[r].is_empty() as u64,
                EnumSet::<T>::variant_count() as u64,
                EnumSet::<T>::bit_width() as u64,
            ]),
            Op::Fill => {
                let mut s = EnumSet::new();
                for i in &a[1..] {
                    s.insert(self.v(*i));
                }
                self.regs[r] = s;
            }
            Op::Copy => {
                let b = self.regs[a[2] as usize];
                #[allow(clippy::clone_on_copy)]
                if a[1] == 0 {
                    self.regs[r] = b
                } else {
                    self.regs[r] = b.clone()
                }
            }
            Op::Feed => {
                // target, kind, panic at, none at, size hint, items
                let yielded = Cell::new(0);
                let g = crate::kernel::guard(|| self.feed(r, a[1], a[2], a[3], a[4], &a[5..], &yielded));
                out.push(yielded.get());
                out.push(match g {
                    crate::kernel::Caught::Done(()) => 0,
                    crate::kernel::Caught::Injected => 1,
                    crate::kernel::Caught::Panicked(_) => 2,
                });
            }
            Op::Operand => {
                // target, form (0 assignment, 1 operator, 2 bare operator), operator, left, operand register, panic
                let o = Operand(self.regs[a[4] as usize], a[5] == 1);
                let left = a[3];
                let g = crate::kernel::guard(|| match a[1] {
                    0 => Self::assign_with(a[2], &mut self.regs[r], o),
                    1 => self.regs[r] = Self::op_with(a[2], self.regs[left as usize % REGS], o),
                    _ => {
                        if let Some(x) = T::bare(a[2], self.v(left), o) {
                            self.regs[r] = x
                        } else {
                            out.push(NONE)
                        }
                    }
                });
                out.push(match g {
                    crate::kernel::Caught::Done(()) => 0,
                    crate::kernel::Caught::Injected => 1,
                    crate::kernel::Caught::Panicked(_) => 2,
                });
            }
            Op::Iter => {
                let s = self.regs[a[1] as usize];
                self.its[r] = Some(if a[2] == 0 { s.iter() } else { s.into_iter() });
            }
            Op::Step => {
                // iterator, kind, argument
                let Some(it) = &mut self.its[r] else { return };
                match a[1] {
                    0 => out.push(disc(it.next())),
                    1 => out.push(disc(it.next_back())),
                    2 => out.push(disc(it.nth(a[2] as usize))),
                    3 => out.push(disc(it.nth_back(a[2] as usize))),
                    4 => out.extend(it.by_ref().take(a[2] as usize).map(|v| v.disc() as u64)),
                    5 => out.push(disc(it.find(|v| v.disc() as u64 >= a[2]))),
                    6 => out.push(disc(it.rfind(|v| v.disc() as u64 <= a[2]))),
                    7 => out.push(it.position(|v| v.disc() as u64 == a[2]).map_or(NONE, |x| x as u64)),
                    8 => out.push(it.any(|v| v.disc() as u64 == a[2]) as u64),
                    9 => out.push(it.all(|v| v.disc() as u64 != a[2]) as u64),
                    10 => {
                        let n: Option<u64> = it.try_fold(0, |n, v| (v.disc() as u64 != a[2]).then_some(n + 1));
                        out.push(n.unwrap_or(NONE))
                    }
                    11 => {
                        let n: Option<u64> = it.try_rfold(0, |n, v| (v.disc() as u64 != a[2]).then_some(n + 1));
                        out.push(n.unwrap_or(NONE))
                    }
                    12 => out.push(it.rposition(|v| v.disc() as u64 == a[2]).map_or(NONE, |x| x as u64)),
                    13 => {
                        let n = it.try_for_each(|v| if v.disc() as u64 == a[2] { Err(()) } else { Ok(()) });
                        out.push(n.is_ok() as u64)
                    }
                    14 => out.push(it.find_map(|v| (v.disc() as u64 >= a[2]).then(|| v.disc() as u64)).unwrap_or(NONE)),
                    15 => out.push(disc(it.rev().nth(a[2] as usize))),
                    16 => out.extend(it.rev().take(a[2] as usize).map(|v| v.disc() as u64)),
                    17 => out.push(disc(it.skip(a[2] as usize).next())),
                    18 => out.push(disc(it.rev().skip(a[2] as usize).next())),
                    19 => out.push(it.count() as u64),
                    20 => out.push(disc(it.last())),
                    21 => out.push(disc(it.skip(a[2] as usize).next_back())),
                    22 => out.push(disc(it.take(a[2] as usize).next_back())),
                    _ => {
                        let b = it.clone();
                        out.push(it.eq(b) as u64)
                    }
                }
                let it = self.its[r].as_ref().unwrap();
                let (lo, hi) = it.size_hint();
                out.extend([it.len() as u64, lo as u64, hi.map_or(NONE, |x| x as u64)]);
            }
            Op::CloneIt => {
                let c = self.its[a[1] as usize].clone();
                self.its[r] = c
            }
            Op::Drain => {
                let Some(it) = self.its[r].take() else { return };
                let d = |v: T| v.disc() as u64;
                // Stops runaway iterators.
                let cap = T::variants().len() + 2;
                match a[1] {
                    0 => it.take(cap).for_each(|v| out.push(d(v))),
                    1 => it.rev().take(cap).for_each(|v| out.push(d(v))),
                    2 => it.fold((), |_, v| out.push(d(v))),
                    3 => it.rfold((), |_, v| out.push(d(v))),
                    4 => out.push(it.count() as u64),
                    5 => out.push(disc(it.last())),
                    6 => {
                        let s: EnumSet<T> = it.collect();
                        out.extend(s.iter().take(cap).map(d))
                    }
                    7 => out.push(disc(it.min_by_key(|v| v.disc()))),
                    8 => out.push(disc(it.max_by_key(|v| v.disc()))),
                    9 => it.for_each(|v| out.push(d(v))),
                    10 => it.rev().for_each(|v| out.push(d(v))),
                    11 => it.skip(a[2] as usize).for_each(|v| out.push(d(v))),
                    12 => it.step_by(a[2] as usize + 1).for_each(|v| out.push(d(v))),
                    13 => it.enumerate().for_each(|(i, v)| out.extend([i as u64, d(v)])),
                    14 => {
                        let mut it = it;
                        while let Some(v) = it.next() {
                            out.push(d(v));
                            if let Some(v) = it.next_back() {
                                out.push(d(v));
                            }
                        }
                        for _ in 0..3 {
                            out.push(disc(it.next()));
                            out.push(disc(it.next_back()));
                            out.push(it.len() as u64);
                        }
                    }
                    15 => it.peekable().for_each(|v| out.push(d(v))),
                    16 => {
                        let n = it.len();
                        it.rev().enumerate().for_each(|(i, v)| out.extend([(n - 1 - i) as u64, d(v)]))
                    }
                    17 => {
                        let b = it.clone();
                        it.zip(b).for_each(|(v, w)| out.extend([d(v), d(w)]))
                    }
                    18 => {
                        let s: EnumSet<T> = it.rev().sum();
                        out.extend(s.iter().take(cap).map(d))
                    }
                    19 => {
                        let b = it.clone();
                        it.chain(b).take(2 * cap).for_each(|v| out.push(d(v)))
                    }
                    20 => it.rev().skip(a[2] as usize).for_each(|v| out.push(d(v))),
                    21 => it.rev().step_by(a[2] as usize + 1).for_each(|v| out.push(d(v))),
                    22 => out.extend([it.clone().rev().count() as u64, disc(it.rev().last())]),
                    23 => out.push(disc(it.reduce(|a, b| if a.disc() % 3 > b.disc() % 3 { a } else { b }))),
                    24 => {
                        let n = it.len();
                        if n > 0 {
                            it.cycle().take(2 * n + 1).for_each(|v| out.push(d(v)))
                        }
                    }
                    25 => it.skip_while(|v| d(*v) % 3 != 0).for_each(|v| out.push(d(v))),
                    26 => it.map_while(|v| (d(v) % 5 != 4).then(|| d(v))).for_each(|v| out.push(v)),
                    27 => {
                        let (x, y): (EnumSet<T>, EnumSet<T>) = it.partition(|v| d(*v) % 2 == 0);
                        out.extend(x.iter().chain(y).take(2 * cap).map(d))
                    }
                    28 => out.push(it.rev().is_sorted_by(|a, b| a.disc() > b.disc()) as u64),
                    29 => {
                        // Two ends at once, the front in fold order.
                        let mut b = it.clone();
                        it.rev().for_each(|v| out.extend([d(v), disc(b.next())]));
                        out.push(disc(b.next()))
                    }
                    30 => it.skip(a[2] as usize).rev().for_each(|v| out.push(d(v))),
                    31 => it.take(a[2] as usize).rev().for_each(|v| out.push(d(v))),
                    _ => it.fuse().for_each(|v| out.push(d(v))),
                }
            }
            Op::DropIt => self.its[r] = None,
            Op::Die => {}
        }
    }
}

pub const DRAINS: u64 = 33;
pub const STEPS: u64 = 24;

//---------------------------------------------------------------------------------- model

/// The mathematical sets and sequences the machine has to agree with.
pub struct Model {
    pub meta: &'static ShapeMeta,
    pub all: BTreeSet<u32>,
    pub regs: Vec<BTreeSet<u32>>,
    pub its: Vec<Option<VecDeque<u32>>>,
}

fn set_op(op: u64, a: &BTreeSet<u32>, b: &BTreeSet<u32>) -> BTreeSet<u32> {
    match op {
        0 => a.union(b).copied().collect(),
        1 => a.intersection(b).copied().collect(),
        2 => a.difference(b).copied().collect(),
        _ => a.symmetric_difference(b).copied().collect(),
    }
}
fn opt(x: Option<u32>) -> u64 {
    x.map_or(NONE, |x| x as u64)
}

/// What the model expects of one step.
pub enum Expect {
    /// Exactly these results.
    Out(Vec<u64>),
    /// A step whose outcome depends on how far caller code got; already judged against `out`.
    Judged(Result<(), Violation>),
    /// The step does not apply (no such variant, iterator, or operator): not executed.
    Skip,
}

impl Model {
    pub fn new(meta: &'static ShapeMeta) -> Self {
        Model {
            meta,
            all: meta.declared.iter().copied().collect(),
            regs: vec![BTreeSet::new(); REGS],
            its: vec![None; ITS],
        }
    }
    fn one(&self, i: u64) -> BTreeSet<u32> {
        BTreeSet::from([self.meta.declared[i as usize]])
    }
    fn d(&self, i: u64) -> u32 {
        self.meta.declared[i as usize]
    }

    /// Maps any arguments to valid ones; `None` when the step cannot apply.
    pub fn normalise(&self, op: Op, a: &[u64]) -> Option<Vec<u64>> {
        let n = self.meta.declared.len() as u64;
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        let r = |i: usize| g(i) % REGS as u64;
        let it = |i: usize| g(i) % ITS as u64;
        let k = |i: usize, n: u64| g(i) % n;
        let v = |i: usize| if n == 0 { None } else { Some(g(i) % n) };
        Some(match op {
            Op::Make => {
                let kind = k(1, 10);
                if (4..8).contains(&kind) {
                    vec![r(0), kind, v(2)?]
                } else {
                    vec![r(0), kind]
                }
            }
            Op::Insert | Op::Remove | Op::Contains | Op::EqV => vec![r(0), v(1)?],
            Op::Clear | Op::Len => vec![r(0)],
            Op::Bin => vec![r(0), k(1, 8), r(2), r(3)],
            Op::BinV => vec![r(0), k(1, 4), r(2), v(3)?],
            Op::Assign => vec![r(0), k(1, 4), r(2)],
            Op::AssignV => vec![r(0), k(1, 4), v(2)?],
            Op::Bulk | Op::Compl | Op::Copy => vec![r(0), k(1, 2), r(2)],
            Op::Bare => vec![r(0), k(1, 4), v(2)?, v(3)?],
            Op::BareS => vec![r(0), k(1, 4), v(2)?, r(3)],
            Op::BareNot => vec![r(0), v(1)?],
            Op::Rel => vec![r(0), r(1)],
            Op::Macro => vec![r(0), k(1, zoo::MACROS), v(2)?, v(3)?, r(4), r(5)],
            Op::Fill => {
                let mut x = vec![r(0)];
                if n > 0 {
                    x.extend(a.iter().skip(1).map(|i| i % n));
                }
                x
            }
            Op::Feed => {
                let kind = k(1, 8);
                let mut x = vec![r(0), kind, g(2), g(3), k(4, 6)];
                let variants = matches!(kind, 0 | 2 | 6 | 7);
                if variants && n == 0 {
                    return Some(x);
                }
                x.extend(a.iter().skip(5).map(|i| if variants { i % n } else { i % REGS as u64 }));
                x
            }
            Op::Operand => {
                let form = k(1, 3);
                let left = if form == 2 { v(3)? } else { r(3) };
                vec![r(0), form, k(2, 4), left, r(4), k(5, 2)]
            }
            Op::Iter => vec![it(0), r(1), k(2, 2)],
            Op::Step => {
                self.its[it(0) as usize].as_ref()?;
                // Skips beyond any length included.
                vec![it(0), k(1, STEPS), if g(2) > 5000 { NONE } else { g(2) }]
            }
            Op::CloneIt => vec![it(0), it(1)],
            Op::Drain => {
                self.its[it(0) as usize].as_ref()?;
                vec![it(0), k(1, DRAINS), g(2) % 70]
            }
            Op::DropIt => vec![it(0)],
            Op::Die => vec![],
        })
    }

    /// The variants or sets a feed hands over, up to `n` items.
    fn fed(&self, kind: u64, items: &[u64]) -> BTreeSet<u32> {
        let mut s = BTreeSet::new();
        for i in items {
            if matches!(kind, 0 | 2 | 6 | 7) {
                s.insert(self.d(*i));
            } else {
                s.extend(self.regs[*i as usize].iter().copied());
            }
        }
        s
    }

    /// Applies a normalised step to the model. `out` is what the machine returned, `now` reads a register of the
    /// machine; both are only used where the outcome depends on how far caller code got.
    pub fn apply(&mut self, op: Op, a: &[u64], out: &[u64], now: &dyn Fn(usize) -> BTreeSet<u32>) -> Expect {
        let r = a.first().map_or(0, |x| *x as usize);
        let mut e = Vec::new();
        match op {
            Op::Make => {
                self.regs[r] = match a[1] {
                    0..=2 | 8 => BTreeSet::new(),
                    3 | 9 => self.all.clone(),
                    _ => self.one(a[2]),
                }
            }
            Op::Insert => {
                let d = self.d(a[1]);
                e.push(self.regs[r].insert(d) as u64)
            }
            Op::Remove => {
                let d = self.d(a[1]);
                e.push(self.regs[r].remove(&d) as u64)
            }
            Op::Contains => e.push(self.regs[r].contains(&self.d(a[1])) as u64),
            Op::Clear => self.regs[r].clear(),
            Op::Bin => self.regs[r] = set_op(a[1] % 4, &self.regs[a[2] as usize], &self.regs[a[3] as usize]),
            Op::BinV => self.regs[r] = set_op(a[1], &self.regs[a[2] as usize], &self.one(a[3])),
            Op::Assign => self.regs[r] = set_op(a[1], &self.regs[r], &self.regs[a[2] as usize]),
            Op::AssignV => self.regs[r] = set_op(a[1], &self.regs[r], &self.one(a[2])),
            Op::Bulk => self.regs[r] = set_op(a[1] * 2, &self.regs[r], &self.regs[a[2] as usize]),
            Op::Compl => self.regs[r] = set_op(2, &self.all, &self.regs[a[2] as usize]),
            Op::Bare | Op::BareS | Op::BareNot if !self.meta.ops => e.push(NONE),
            Op::Bare => self.regs[r] = set_op(a[1], &self.one(a[2]), &self.one(a[3])),
            Op::BareS => self.regs[r] = set_op(a[1], &self.one(a[2]), &self.regs[a[3] as usize]),
            Op::BareNot => self.regs[r] = set_op(2, &self.all, &self.one(a[1])),
            Op::Rel => {
                let (x, y) = (&self.regs[r], &self.regs[a[1] as usize]);
                let eq = x == y;
                e.extend([x.is_subset(y), x.is_superset(y), x.is_disjoint(y), eq, !eq].map(|b| b as u64))
            }
            Op::EqV => {
                let eq = (self.regs[r] == self.one(a[1])) as u64;
                e.extend([eq, eq, if self.meta.ops { eq } else { NONE }])
            }
            Op::Macro => {
                let (v, w) = (self.one(a[2]), self.one(a[3]));
                let (s, t, u) = (self.regs[a[4] as usize].clone(), self.regs[a[5] as usize].clone(), self.regs[r].clone());
                let all = |op: u64, x: &[&BTreeSet<u32>]| x[1..].iter().fold(x[0].clone(), |a, b| set_op(op, &a, b));
                self.regs[r] = match a[1] {
                    0 => set_op(0, &v, &w),
                    1 => set_op(0, &set_op(0, &v, &s), &t),
                    2 => set_op(1, &s, &t),
                    3 => set_op(2, &set_op(2, &s, &t), &v),
                    4 => set_op(3, &set_op(3, &s, &t), &v),
                    5 => set_op(2, &self.all, &s),
                    6 => set_op(0, &set_op(0, &set_op(0, &s, &t), &v), &w),
                    7 => set_op(1, &set_op(1, &s, &t), &v),
                    8 => set_op(2, &s, &v),
                    9 => set_op(3, &v, &s),
                    10 => set_op(2, &self.all, &v),
                    11 => set_op(2, &v, &s),
                    12 | 29 => BTreeSet::new(),
                    13 | 15 | 21 => s,
                    14 | 16 => all(0, &[&v, &w, &s, &t, &u]),
                    17 => all(1, &[&u, &s, &t]),
                    18 => all(2, &[&u, &v, &s, &w, &t]),
                    19 => all(3, &[&u, &v, &s, &w, &t]),
                    20 => v,
                    22 => u,
                    23 => set_op(2, &self.all, &u),
                    24..=27 => all(a[1] - 24, &[&u, &s, &t, &v]),
                    28 => set_op(0, &s, &t),
                    _ => set_op(3, &v, &w),
                }
            }
            Op::Len => {
                // The width of an enum without variants is not specified.
                let width = if self.all.is_empty() { out.get(3).copied().unwrap_or(0) } else { self.meta.max() as u64 + 1 };
                e.extend([
                    self.regs[r].len() as u64,
                    self.regs[r].is_empty() as u64,
                    self.all.len() as u64,
                    width,
                ])
            }
            Op::Fill => self.regs[r] = a[1..].iter().map(|i| self.d(*i)).collect(),
            Op::Copy => self.regs[r] = self.regs[a[2] as usize].clone(),
            Op::Feed => return Expect::Judged(self.judge_feed(r, a, out, now)),
            Op::Operand => {
                let panics = a[5] == 1;
                if a[1] == 2 && !self.meta.ops {
                    return Expect::Out(vec![NONE, 0]);
                }
                if !panics {
                    let b = self.regs[a[4] as usize].clone();
                    let left = match a[1] {
                        0 => self.regs[r].clone(),
                        1 => self.regs[a[3] as usize].clone(),
                        _ => self.one(a[3]),
                    };
                    self.regs[r] = set_op(a[2], &left, &b);
                }
                e.push(panics as u64)
            }
            Op::Iter => self.its[r] = Some(self.regs[a[1] as usize].iter().copied().collect()),
            Op::Step => {
                let Some(q) = &mut self.its[r] else { return Expect::Skip };
                let x = a[2] as u32;
                match a[1] {
                    0 => e.push(opt(q.pop_front())),
                    1 => e.push(opt(q.pop_back())),
                    2 => {
                        q.drain(..(a[2] as usize).min(q.len()));
                        e.push(opt(q.pop_front()))
                    }
                    3 => {
                        q.truncate(q.len() - (a[2] as usize).min(q.len()));
                        e.push(opt(q.pop_back()))
                    }
                    4 => {
                        let n = (a[2] as usize).min(q.len());
                        e.extend(q.drain(..n).map(|x| x as u64))
                    }
                    5 => {
                        let n = q.iter().position(|d| *d >= x);
                        e.push(opt(n.map(|n| q[n])));
                        q.drain(..n.map_or(q.len(), |n| n + 1));
                    }
                    6 => {
                        let n = q.iter().rposition(|d| *d <= x);
                        e.push(opt(n.map(|n| q[n])));
                        q.truncate(n.unwrap_or(0));
                    }
                    7 => {
                        let n = q.iter().position(|d| *d == x);
                        e.push(n.map_or(NONE, |n| n as u64));
                        q.drain(..n.map_or(q.len(), |n| n + 1));
                    }
                    8 | 9 => {
                        let n = q.iter().position(|d| *d == x);
                        e.push((n.is_some() == (a[1] == 8)) as u64);
                        q.drain(..n.map_or(q.len(), |n| n + 1));
                    }
                    10 => {
                        let n = q.iter().position(|d| *d == x);
                        e.push(if n.is_some() { NONE } else { q.len() as u64 });
                        q.drain(..n.map_or(q.len(), |n| n + 1));
                    }
                    11 => {
                        let n = q.iter().rposition(|d| *d == x);
                        e.push(if n.is_some() { NONE } else { q.len() as u64 });
                        q.truncate(n.unwrap_or(0));
                    }
                    12 => {
                        let n = q.iter().rposition(|d| *d == x);
                        e.push(n.map_or(NONE, |n| n as u64));
                        q.truncate(n.unwrap_or(0));
                    }
                    13 => {
                        let n = q.iter().position(|d| *d == x);
                        e.push(n.is_none() as u64);
                        q.drain(..n.map_or(q.len(), |n| n + 1));
                    }
                    14 => {
                        let n = q.iter().position(|d| *d as u64 >= a[2]);
                        e.push(opt(n.map(|n| q[n])));
                        q.drain(..n.map_or(q.len(), |n| n + 1));
                    }
                    15 | 18 => {
                        q.truncate(q.len() - (a[2] as usize).min(q.len()));
                        e.push(opt(q.pop_back()))
                    }
                    16 => {
                        let n = (a[2] as usize).min(q.len());
                        e.extend(q.drain(q.len() - n..).rev().map(|x| x as u64))
                    }
                    17 => {
                        q.drain(..(a[2] as usize).min(q.len()));
                        e.push(opt(q.pop_front()))
                    }
                    19 => {
                        e.push(q.len() as u64);
                        q.clear()
                    }
                    20 => {
                        e.push(opt(q.back().copied()));
                        q.clear()
                    }
                    // A double-ended skip takes from the back and only while more than the skipped ones remain.
                    21 => e.push(if q.len() as u64 > a[2] { opt(q.pop_back()) } else { NONE }),
                    // A double-ended take gives up what it will never hand out.
                    22 => {
                        if a[2] == 0 {
                            e.push(NONE)
                        } else {
                            q.truncate(a[2].min(q.len() as u64) as usize);
                            e.push(opt(q.pop_back()))
                        }
                    }
                    _ => {
                        e.push(1);
                        q.clear()
                    }
                }
                let n = q.len() as u64;
                e.extend([n, n, n]);
            }
            Op::CloneIt => self.its[r] = self.its[a[1] as usize].clone(),
            Op::Drain => {
                let Some(q) = self.its[r].take() else { return Expect::Skip };
                let fwd: Vec<u64> = q.iter().map(|x| *x as u64).collect();
                let mut bwd = fwd.clone();
                bwd.reverse();
                match a[1] {
                    0 | 2 | 6 | 9 | 15 | 18 => e = fwd,
                    1 | 3 | 10 => e = bwd,
                    4 => e.push(fwd.len() as u64),
                    5 | 8 => e.push(fwd.last().copied().unwrap_or(NONE)),
                    7 => e.push(fwd.first().copied().unwrap_or(NONE)),
                    11 => e = fwd.into_iter().skip(a[2] as usize).collect(),
                    12 => e = fwd.into_iter().step_by(a[2] as usize + 1).collect(),
                    13 => e = fwd.into_iter().enumerate().flat_map(|(i, d)| [i as u64, d]).collect(),
                    14 => {
                        let mut q = q;
                        while let Some(x) = q.pop_front() {
                            e.push(x as u64);
                            if let Some(x) = q.pop_back() {
                                e.push(x as u64);
                            }
                        }
                        for _ in 0..3 {
                            e.extend([NONE, NONE, 0]);
                        }
                    }
                    16 => e = fwd.into_iter().enumerate().rev().flat_map(|(i, d)| [i as u64, d]).collect(),
                    17 => e = fwd.into_iter().flat_map(|d| [d, d]).collect(),
                    19 => e = fwd.iter().chain(&fwd).copied().collect(),
                    20 => e = bwd.into_iter().skip(a[2] as usize).collect(),
                    21 => e = bwd.into_iter().step_by(a[2] as usize + 1).collect(),
                    22 => e.extend([fwd.len() as u64, bwd.last().copied().unwrap_or(NONE)]),
                    23 => e.push(fwd.into_iter().reduce(|a, b| if a % 3 > b % 3 { a } else { b }).unwrap_or(NONE)),
                    24 => e = fwd.iter().cycle().take(if fwd.is_empty() { 0 } else { 2 * fwd.len() + 1 }).copied().collect(),
                    25 => e = fwd.into_iter().skip_while(|d| d % 3 != 0).collect(),
                    26 => e = fwd.into_iter().take_while(|d| d % 5 != 4).collect(),
                    27 => e = [0, 1].iter().flat_map(|k| fwd.iter().filter(move |d| *d % 2 == *k)).copied().collect(),
                    28 => e.push(1),
                    29 => {
                        e = bwd.iter().zip(&fwd).flat_map(|(b, f)| [*b, *f]).collect();
                        e.push(NONE)
                    }
                    30 => e = fwd.into_iter().skip(a[2] as usize).rev().collect(),
                    31 => e = fwd.into_iter().take(a[2] as usize).rev().collect(),
                    _ => e = fwd,
                }
            }
            Op::DropIt => self.its[r] = None,
            Op::Die => {}
        }
        Expect::Out(e)
    }

    /// An update fed from caller code: between "what was there" and "what was there or handed over", exact when the
    /// caller's iterator was not interrupted.
    fn judge_feed(&mut self, r: usize, a: &[u64], out: &[u64], now: &dyn Fn(usize) -> BTreeSet<u32>) -> Result<(), Violation> {
        let (kind, panic_at, none_at) = (a[1], a[2], a[3]);
        let items = &a[5..];
        let ends = (none_at.min(items.len() as u64)) as usize;
        let (yielded, how) = (out[0] as usize, out[1]);
        let extends = kind < 2;
        let before = self.regs[r].clone();
        let base = if extends { before.clone() } else { BTreeSet::new() };
        let got = now(r);
        let name = ["extend(variants)", "extend(sets)", "collect(variants)", "collect(sets)", "sum(sets)", "sum(&sets)",
            "sum(variants)", "sum(&variants)"][kind as usize];
        let handed = self.fed(kind, &items[..yielded.min(items.len())]);
        match how {
            0 => {
                // The source ended by itself (or the target was complete and the rest was not asked for).
                let total = self.fed(kind, &items[..ends]);
                let want: BTreeSet<u32> = base.union(&total).copied().collect();
                let full = base.union(&handed).count() == self.all.len();
                let reached_panic = panic_at <= ends as u64;
                if reached_panic && !full {
                    return Violation::new(
                        format!("swallowed:{name}"),
                        format!("{name}: the iterator panics at element {panic_at} but the operation returned normally"),
                    );
                }
                self.regs[r] = got.clone();
                if got != want {
                    return Violation::new(
                        format!("feed:{name}"),
                        format!("{name}: from {base:?} and {total:?} got {got:?}, expected {want:?}"),
                    );
                }
            }
            1 => {
                let upper: BTreeSet<u32> =
                    if extends { base.union(&handed).copied().collect() } else { before.clone() };
                let lower = before.clone();
                self.regs[r] = got.clone();
                if !lower.is_subset(&got) || !got.is_subset(&upper) {
                    return Violation::new(
                        format!("interrupted:{name}"),
                        format!("{name} interrupted after {yielded} items: {lower:?} became {got:?}, at most {upper:?} is allowed"),
                    );
                }
            }
            _ => return Violation::new(format!("panic:{name}"), format!("{name}: {}", crate::kernel::last_panic())),
        }
        Ok(())
    }
}

/// The reading of a register through iteration, checked for order and duplicates by the caller.
pub fn read(m: &dyn Machine, r: usize) -> Vec<u64> {
    let mut v = Vec::new();
    m.contents(r, &mut v);
    v
}
pub fn read_set(m: &dyn Machine, r: usize) -> BTreeSet<u32> {
    read(m, r).into_iter().map(|x| x as u32).collect()
}

/// Compares a register of the machine with the model.
pub fn check_reg(m: &dyn Machine, model: &Model, r: usize, full: bool) -> Result<(), Violation> {
    let want: Vec<u64> = model.regs[r].iter().map(|x| *x as u64).collect();
    let got = read(m, r);
    if got != want {
        return Violation::new("contents", format!("set {r} iterates as {got:?}, expected {want:?}"));
    }
    if full {
        let mut got = Vec::new();
        m.members(r, &mut got);
        let mut want2: Vec<u64> =
            model.meta.declared.iter().filter(|d| model.regs[r].contains(d)).map(|d| *d as u64).collect();
        want2.push(want.len() as u64);
        want2.push(want.is_empty() as u64);
        if got != want2 {
            return Violation::new(
                "membership",
                format!("set {r}: members by contains(), len, is_empty are {got:?}, expected {want2:?}"),
            );
        }
    }
    Ok(())
}
