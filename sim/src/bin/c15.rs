//! C15: a set with a declared representation is that integer in memory, for native and foreign parties alike.
use enumset::{EnumSet, EnumSetTypeWithRepr};
use enumset_sim::callers::{self, SYSTEM};
use enumset_sim::kernel::{self, *};
use enumset_sim::rng::{mix, mix_str, splitmix, Rng};
use enumset_sim::zoo::{self, ShapeMeta, Variant};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::mem::{align_of, offset_of, size_of, transmute_copy};

const SLOTS: usize = 6;
const REGS: usize = 4;

//------------------------------------------------------------------- the foreign side: integers only

trait Prim: Copy + 'static {
    fn wide(self) -> u128;
    fn narrow(x: u128) -> Self;
}
macro_rules! prim {
    ($($t:ty)*) => {
        $(impl Prim for $t {
            fn wide(self) -> u128 {
                self as u128
            }
            fn narrow(x: u128) -> Self {
                x as $t
            }
        })*
    };
}
prim!(u8 u16 u32 u64 u128);

thread_local! {
    /// What the foreign code is to do with its argument, and with which bits.
    static ORDER: Cell<(u64, u128)> = const { Cell::new((0, 0)) };
    /// The integers the foreign code was handed.
    static SEEN: Cell<[u128; 2]> = const { Cell::new([0; 2]) };
}
fn apply(kind: u64, x: u128, mask: u128) -> u128 {
    match kind % 5 {
        0 => x,
        1 => x | mask,
        2 => x & mask,
        3 => x ^ mask,
        _ => mask,
    }
}
fn ordered(x: u128) -> u128 {
    let (k, m) = ORDER.with(|o| o.get());
    apply(k, x, m)
}
#[repr(C)]
struct Record<X> {
    tag: u8,
    first: X,
    mark: u16,
    second: X,
}
extern "C" fn by_value<R: Prim>(x: R) -> R {
    SEEN.with(|s| s.set([x.wide(), 0]));
    R::narrow(ordered(x.wide()))
}
extern "C" fn mixed<R: Prim>(tag: u8, x: R, mark: u32, y: R) -> R {
    SEEN.with(|s| s.set([x.wide(), y.wide()]));
    if tag == 0x5a && mark == 0xdead_beef {
        R::narrow(ordered(x.wide() ^ y.wide()))
    } else {
        R::narrow(0)
    }
}
extern "C" fn by_record<R: Prim>(r: Record<R>) -> Record<R> {
    SEEN.with(|s| s.set([r.first.wide(), r.second.wide()]));
    Record { tag: !r.tag, first: R::narrow(ordered(r.second.wide())), mark: !r.mark, second: r.first }
}
extern "C" fn by_pointer<R: Prim>(p: *mut R, n: usize) {
    // The caller passes an exclusive array of `n` integers.
    for x in unsafe { std::slice::from_raw_parts_mut(p, n) } {
        *x = R::narrow(ordered(x.wide()));
    }
}
/// The callback native code registers: integers in, integer out, as the foreign side sees it.
fn call_back<R: Prim>(f: extern "C" fn(R, R, u32) -> R, x: u128, y: u128, kind: u32) -> u128 {
    f(R::narrow(x), R::narrow(y), kind).wide()
}

//------------------------------------------------------------------- the native side: sets only

extern "C" fn native<T: Variant>(x: EnumSet<T>, y: EnumSet<T>, kind: u32) -> EnumSet<T> {
    match kind % 5 {
        0 => x | y,
        1 => x & y,
        2 => x - y,
        3 => x ^ y,
        _ => !x,
    }
}

/// One process's view of the shared memory, and its own sets.
trait Party {
    fn layout(&self) -> Vec<(&'static str, usize, usize)>;
    fn bytes(&mut self) -> &mut [u8];
    fn reg(&self, r: usize) -> (u128, Vec<u32>, usize);
    fn forget(&mut self);
    /// In-place changes through a reference into the memory.
    fn in_place(&mut self, slot: usize, kind: u64, v: usize, other: usize) -> u64;
    fn store(&mut self, slot: usize, r: usize);
    fn fetch(&mut self, slot: usize, r: usize);
    fn array(&mut self, kind: u64, a: usize, b: usize) -> u128;
    /// Reads the integer and turns it into a set by the checked form (and the truncating one if that refuses).
    fn recover(&mut self, slot: usize) -> bool;
    fn call(&mut self, kind: u64, r: usize, q: usize);
    fn pointer(&mut self, slot: usize, n: usize);
    fn callback(&mut self, x: u128, y: u128, kind: u32) -> u128;
}
type Int<T> = <T as EnumSetTypeWithRepr>::Repr;
struct Native<T: Variant> {
    mem: Vec<u128>,
    regs: [EnumSet<T>; REGS],
}
impl<T: Variant + EnumSetTypeWithRepr> Native<T>
where
    Int<T>: Prim,
{
    fn new() -> Self {
        Native { mem: vec![0; SLOTS], regs: [EnumSet::empty(); REGS] }
    }
    fn sets(&mut self) -> &mut [EnumSet<T>] {
        // Only after `layout` was checked, and only while no slot holds unknown bits.
        assert!(size_of::<EnumSet<T>>() == size_of::<Int<T>>() && align_of::<EnumSet<T>>() <= 16);
        unsafe { std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut EnumSet<T>, SLOTS) }
    }
    fn ints(&mut self) -> &mut [Int<T>] {
        unsafe { std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut Int<T>, SLOTS) }
    }
}
impl<T: Variant + EnumSetTypeWithRepr> Party for Native<T>
where
    Int<T>: Prim,
{
    fn layout(&self) -> Vec<(&'static str, usize, usize)> {
        vec![
            ("size", size_of::<EnumSet<T>>(), size_of::<Int<T>>()),
            ("alignment", align_of::<EnumSet<T>>(), align_of::<Int<T>>()),
            ("size of an array", size_of::<[EnumSet<T>; 7]>(), size_of::<[Int<T>; 7]>()),
            ("size of a record", size_of::<Record<EnumSet<T>>>(), size_of::<Record<Int<T>>>()),
            ("first offset", offset_of!(Record<EnumSet<T>>, first), offset_of!(Record<Int<T>>, first)),
            ("second offset", offset_of!(Record<EnumSet<T>>, second), offset_of!(Record<Int<T>>, second)),
        ]
    }
    fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut u8, SLOTS * size_of::<Int<T>>()) }
    }
    fn reg(&self, r: usize) -> (u128, Vec<u32>, usize) {
        let s = self.regs[r];
        let members = T::variants().iter().copied().filter(|v| s.contains(*v)).map(|v| v.disc()).collect();
        (s.as_repr().wide(), members, s.len())
    }
    fn forget(&mut self) {
        self.regs = [EnumSet::empty(); REGS];
    }
    fn in_place(&mut self, slot: usize, kind: u64, v: usize, other: usize) -> u64 {
        let o = self.sets()[other];
        let v = T::variants().get(v).copied();
        let s = &mut self.sets()[slot];
        match (kind % 12, v) {
            (0, Some(v)) => s.insert(v) as u64,
            (1, Some(v)) => s.remove(v) as u64,
            (2, _) => {
                *s |= o;
                0
            }
            (3, _) => {
                *s &= o;
                0
            }
            (4, _) => {
                *s -= o;
                0
            }
            (5, _) => {
                *s ^= o;
                0
            }
            (6, _) => {
                s.clear();
                0
            }
            (7, _) => {
                s.insert_all(o);
                0
            }
            (8, _) => {
                s.remove_all(o);
                0
            }
            (9, _) => {
                s.extend(o.iter());
                0
            }
            (10, _) => {
                *s = !*s;
                0
            }
            (11, Some(v)) => s.contains(v) as u64,
            _ => 0,
        }
    }
    fn store(&mut self, slot: usize, r: usize) {
        self.sets()[slot] = self.regs[r];
    }
    fn fetch(&mut self, slot: usize, r: usize) {
        self.regs[r] = self.sets()[slot];
    }
    fn array(&mut self, kind: u64, a: usize, b: usize) -> u128 {
        let (lo, hi) = (a.min(b), a.max(b));
        let s = self.sets();
        match kind % 8 {
            0 => s[lo..=hi].iter().sum::<EnumSet<T>>().as_repr().wide(),
            1 => s[lo..=hi].iter().copied().fold(EnumSet::all(), |x, y| x & y).as_repr().wide(),
            2 => s[lo..=hi].iter().map(|x| x.len()).sum::<usize>() as u128,
            3 => {
                s.swap(a, b);
                0
            }
            4 => {
                let x = s[a];
                s[lo..=hi].fill(x);
                0
            }
            5 => {
                s.copy_within(lo..=hi, 0);
                0
            }
            6 => {
                s[lo..=hi].reverse();
                0
            }
            _ => {
                let first = s[a];
                s.iter().filter(|x| **x == first).count() as u128
            },
        }
    }
    fn recover(&mut self, slot: usize) -> bool {
        let x = self.ints()[slot];
        match EnumSet::<T>::try_from_repr(x) {
            Some(s) => {
                self.sets()[slot] = s;
                true
            }
            None => {
                self.sets()[slot] = EnumSet::from_repr_truncated(x);
                false
            }
        }
    }
    fn call(&mut self, kind: u64, r: usize, q: usize) {
        type One<X> = extern "C" fn(X) -> X;
        type Four<X> = extern "C" fn(u8, X, u32, X) -> X;
        type Rec<X> = extern "C" fn(Record<X>) -> Record<X>;
        unsafe {
            match kind % 3 {
                0 => {
                    let f: One<EnumSet<T>> = transmute_copy(&(by_value::<Int<T>> as One<Int<T>>));
                    self.regs[r] = f(self.regs[q]);
                }
                1 => {
                    let f: Four<EnumSet<T>> = transmute_copy(&(mixed::<Int<T>> as Four<Int<T>>));
                    self.regs[r] = f(0x5a, self.regs[r], 0xdead_beef, self.regs[q]);
                }
                _ => {
                    let f: Rec<EnumSet<T>> = transmute_copy(&(by_record::<Int<T>> as Rec<Int<T>>));
                    let x = f(Record { tag: 0x0f, first: self.regs[r], mark: 0x1234, second: self.regs[q] });
                    if x.tag == 0xf0 && x.mark == !0x1234 {
                        (self.regs[r], self.regs[q]) = (x.first, x.second);
                    }
                }
            }
        }
    }
    fn pointer(&mut self, slot: usize, n: usize) {
        let p = self.sets()[slot..].as_mut_ptr();
        by_pointer::<Int<T>>(p as *mut Int<T>, n);
    }
    fn callback(&mut self, x: u128, y: u128, kind: u32) -> u128 {
        type Back<X> = extern "C" fn(X, X, u32) -> X;
        let f: Back<Int<T>> = unsafe { transmute_copy(&(native::<T> as Back<EnumSet<T>>)) };
        call_back(f, x, y, kind)
    }
}

macro_rules! parties {
    ($($t:ident)*) => {
        const NAMES: &[&str] = &[$(stringify!($t)),*];
        fn make(name: &str) -> Box<dyn Party> {
            match name {
                $(stringify!($t) => Box::new(Native::<zoo::$t>::new()) as Box<dyn Party>,)*
                _ => panic!("no shape {name}"),
            }
        }
    };
}
parties! {
    R8 R8s R8one REmpty R16 R16f R16s R32 R32f R32s R64 R64f R64s
    R128 R128f R128s R128m R128lo R128hi Ru8d Ri16
    SArrR16 SArrR128 SR32as64 SR128as8 SR64as128 SR8as32 SListR
}

//------------------------------------------------------------------- the simulation

const OPS: &[&str] = &[
    "in-place", "store", "fetch", "array", "foreign-write", "foreign-update", "call", "call-with-pointer", "callback", "sync",
    "crash", "foreign-garbage", "caller-died",
];
const IN_PLACE: usize = 0;
const STORE: usize = 1;
const FETCH: usize = 2;
const ARRAY: usize = 3;
const WRITE: usize = 4;
const UPDATE: usize = 5;
const CALL: usize = 6;
const POINTER: usize = 7;
const CALLBACK: usize = 8;
const SYNC: usize = 9;
const CRASH: usize = 10;
const GARBAGE: usize = 11;
const DIED: usize = 12;

const FAULTS: &[&str] = &[
    "crash with the memory image on disk", "unsynced set lost", "unsynced set torn between two bytes", "garbage from a foreign party",
    "death of a caller holding sets", "foreign update between a fetch and a store",
];
const PROBES: &[&str] = &[
    "native change seen by the foreign side", "foreign change seen as a set", "torn image refused and truncated",
    "torn image accepted (all bits valid)", "set passed by value", "sets passed in a record", "sets passed by pointer",
    "native callback called with integers", "array of sets",
];

struct C15;

fn full(meta: &ShapeMeta) -> u128 {
    meta.declared.iter().fold(0, |x, d| x | 1 << d)
}
fn some(meta: &ShapeMeta, kind: u64, salt: u64) -> u128 {
    callers::pattern(meta, kind % 10, salt).into_iter().fold(0, |x, i| x | 1 << meta.declared[i])
}

struct World {
    meta: &'static ShapeMeta,
    party: Box<dyn Party>,
    width: usize,
    all: u128,
    mem: [u128; SLOTS],
    durable: [u128; SLOTS],
    regs: [u128; REGS],
    fetched: BTreeMap<usize, usize>,
}
impl World {
    fn mask(&self) -> u128 {
        if self.width == 16 {
            u128::MAX
        } else {
            (1 << (self.width * 8)) - 1
        }
    }
    fn foreign_store(&mut self, slot: usize, x: u128) {
        let w = self.width;
        self.party.bytes()[slot * w..][..w].copy_from_slice(&x.to_le_bytes()[..w]);
        self.mem[slot] = x;
    }
    /// What a careful native process does before it looks at memory others may have damaged.
    fn recover(&mut self, what: &str, st: &mut Stats) -> Result<(), Violation> {
        for s in 0..SLOTS {
            let good = self.mem[s] & !self.all == 0;
            let raw = self.mem[s];
            self.mem[s] &= self.all;
            let said = self.party.recover(s);
            st.checks += 1;
            if said != good {
                return Violation::new(
                    "recovery",
                    format!(
                        "{what}: the integer {raw:#x} in slot {s} was {} as a set of {}, its variants make {:#x}",
                        if said { "accepted" } else { "refused" },
                        self.meta.name, self.all
                    ),
                );
            }
            st.probe(if good { 3 } else { 2 });
        }
        Ok(())
    }
    fn compare(&mut self, what: &str, st: &mut Stats) -> Result<(), Violation> {
        let w = self.width;
        for s in 0..SLOTS {
            let got = &self.party.bytes()[s * w..][..w];
            let want = &self.mem[s].to_le_bytes()[..w];
            st.checks += 1;
            if got != want {
                return Violation::new(
                    "memory",
                    format!("{what}: slot {s} of {} holds the bytes {got:x?}, expected {want:x?}", self.meta.name),
                );
            }
        }
        for r in 0..REGS {
            let (x, members, len) = self.party.reg(r);
            let mut want: Vec<u32> = self.meta.declared.iter().copied().filter(|d| self.regs[r] >> d & 1 == 1).collect();
            let mut members = members;
            want.sort_unstable();
            members.sort_unstable();
            st.checks += 1;
            if x != self.regs[r] || members != want || len != want.len() {
                return Violation::new(
                    "set",
                    format!(
                        "{what}: set {r} of {} is {x:#x} with members {members:?} and length {len}, expected {:#x} with {want:?}",
                        self.meta.name, self.regs[r]
                    ),
                );
            }
        }
        Ok(())
    }
}

impl Engine for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            150_000
        } else {
            30_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded schedule of two native and one foreign party on shared memory holding sets of one of 28 enums with a declared \
         representation; non-trivial: distinct script with at least five values crossing between the parties and one fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["enumset (memory of sets, updates through references, calls by value, declared-representation conversions)", "enumset_derive (representation of 28 enums)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["foreign code (C functions on plain integers)", "shared memory and its image on disk", "parties (seeded scheduler)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["little-endian target", "native code validates memory that a crash or a faulty party may have damaged before it reads it as sets, as the contract demands"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, contents of the shared memory) pairs"
    }

    fn generate(&self, rng: &mut Rng, run: u64, _tier: Tier) -> Script {
        let m = zoo::meta(NAMES[(run % NAMES.len() as u64) as usize]).unwrap();
        let w = callers::swarm(rng, &[20, 8, 8, 8, 8, 6, 10, 4, 5, 6, 2, 3, 2]);
        let steps = rng.range(10, 60);
        let mut ev = vec![];
        for s in 0..SLOTS as u64 {
            ev.push(Ev { t: 0, task: SYSTEM, op: WRITE, a: vec![s, rng.below(10), rng.next()] });
        }
        for r in 0..REGS as u64 {
            ev.push(Ev { t: 0, task: SYSTEM, op: FETCH, a: vec![rng.below(SLOTS as u64), r] });
        }
        ev.extend(callers::interleave(rng, 3, steps, 0, None, |rng, task| {
            let slot = rng.below(SLOTS as u64);
            let reg = task % 2 * 2 + rng.below(2);
            let op = rng.weighted(&w);
            let a = match op {
                IN_PLACE => vec![slot, rng.below(12), callers::variant(rng, m), rng.below(SLOTS as u64)],
                STORE | FETCH => vec![slot, reg],
                ARRAY => vec![rng.below(8), slot, rng.below(SLOTS as u64)],
                WRITE => vec![slot, rng.below(10), rng.next()],
                UPDATE => vec![slot, rng.below(5), rng.below(10), rng.next()],
                CALL => vec![rng.below(3), reg, rng.below(REGS as u64), rng.below(5), rng.below(10), rng.next()],
                POINTER => vec![slot, rng.below(SLOTS as u64 + 1), rng.below(5), rng.below(10), rng.next()],
                CALLBACK => vec![slot, rng.below(SLOTS as u64), rng.below(5), rng.below(SLOTS as u64)],
                SYNC => vec![slot, rng.below(SLOTS as u64)],
                CRASH => vec![rng.next()],
                GARBAGE => vec![slot, rng.next(), rng.below(4)],
                _ => vec![task % 2],
            };
            (op, a)
        }));
        Script { shape: m.name.to_string(), cfg: vec![], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        if !NAMES.contains(&meta.name) {
            return Ok(());
        }
        let party = make(meta.name);
        let width = meta.repr_bits as usize / 8;
        for (what, got, want) in party.layout() {
            st.checks += 1;
            if got != want || what == "size" && want != width {
                return Violation::new(
                    "layout",
                    format!("{what} of sets of {} is {got}, of its declared integer of {} bits {want}", meta.name, meta.repr_bits),
                );
            }
        }
        let mut w = World {
            meta, party, width, all: full(meta), mem: [0; SLOTS], durable: [0; SLOTS], regs: [0; REGS], fetched: BTreeMap::new(),
        };
        let shape_h = mix_str(15, meta.name);
        let (mut crossings, mut faults) = (0, 0);
        for (i, e) in s.ev.iter().enumerate() {
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            let what = format!("event {i} {} {:?}", OPS[e.op], e.a);
            let slot = g(0) as usize % SLOTS;
            st.ops[e.op] += 1;
            match e.op {
                IN_PLACE => {
                    let (kind, v, other) = (g(1) % 12, g(2) as usize, g(3) as usize % SLOTS);
                    let bit = meta.declared.get(v).map_or(0, |d| 1u128 << d);
                    let (x, o) = (w.mem[slot], w.mem[other]);
                    let (next, out) = match kind {
                        0 => (x | bit, bit != 0 && x & bit == 0),
                        1 => (x & !bit, x & bit != 0),
                        2 | 7 | 9 => (x | o, false),
                        3 => (x & o, false),
                        4 | 8 => (x & !o, false),
                        5 => (x ^ o, false),
                        6 => (0, false),
                        10 => (w.all & !x, false),
                        _ => (x, x & bit != 0),
                    };
                    let got = w.party.in_place(slot, kind, v, other);
                    st.checks += 1;
                    if got != out as u64 {
                        return Violation::new("result", format!("{what} on {} returned {got}, expected {out}", meta.name));
                    }
                    if next != x {
                        st.probe(0);
                        crossings += 1;
                    }
                    w.mem[slot] = next;
                }
                STORE => {
                    let r = g(1) as usize % REGS;
                    w.party.store(slot, r);
                    if w.fetched.get(&r) == Some(&slot) {
                        st.fault(5);
                        faults += 1;
                    }
                    w.mem[slot] = w.regs[r];
                    crossings += 1;
                    st.probe(0);
                }
                FETCH => {
                    let r = g(1) as usize % REGS;
                    w.party.fetch(slot, r);
                    w.regs[r] = w.mem[slot];
                    w.fetched.remove(&r);
                    crossings += 1;
                    st.probe(1);
                }
                ARRAY => {
                    let (kind, a, b) = (g(0) % 8, g(1) as usize % SLOTS, g(2) as usize % SLOTS);
                    let (lo, hi) = (a.min(b), a.max(b));
                    let got = w.party.array(kind, a, b);
                    let m = &mut w.mem;
                    let want = match kind {
                        0 => m[lo..=hi].iter().fold(0, |x, y| x | y),
                        1 => m[lo..=hi].iter().fold(w.all, |x, y| x & y),
                        2 => m[lo..=hi].iter().map(|x| x.count_ones() as u128).sum(),
                        3 => {
                            m.swap(a, b);
                            0
                        }
                        4 => {
                            let x = m[a];
                            m[lo..=hi].fill(x);
                            0
                        }
                        5 => {
                            m.copy_within(lo..=hi, 0);
                            0
                        }
                        6 => {
                            m[lo..=hi].reverse();
                            0
                        }
                        _ => m.iter().filter(|x| **x == m[a]).count() as u128,
                    };
                    st.checks += 1;
                    st.probe(8);
                    if got != want {
                        return Violation::new("array", format!("{what} on {} gave {got:#x}, expected {want:#x}", meta.name));
                    }
                }
                WRITE => {
                    let x = some(meta, g(1), g(2));
                    w.foreign_store(slot, x);
                    crossings += 1;
                }
                UPDATE => {
                    let x = apply(g(1), w.mem[slot], some(meta, g(2), g(3)));
                    w.foreign_store(slot, x);
                    // Whoever fetched this slot before now holds an old value.
                    for r in 0..REGS {
                        if w.regs[r] != x {
                            w.fetched.insert(r, slot);
                        }
                    }
                    crossings += 1;
                }
                CALL => {
                    let (kind, r, q) = (g(0) % 3, g(1) as usize % REGS, g(2) as usize % REGS);
                    let mask = some(meta, g(4), g(5));
                    ORDER.with(|o| o.set((g(3), mask)));
                    let (x, y) = (w.regs[r], w.regs[q]);
                    w.party.call(kind, r, q);
                    let seen = SEEN.with(|s| s.get());
                    let want = match kind {
                        0 => {
                            w.regs[r] = apply(g(3), y, mask);
                            [y, 0]
                        }
                        1 => {
                            w.regs[r] = apply(g(3), x ^ y, mask);
                            [x, y]
                        }
                        _ => {
                            w.regs[r] = apply(g(3), y, mask);
                            w.regs[q] = x;
                            [x, y]
                        }
                    };
                    st.probe(if kind == 2 { 5 } else { 4 });
                    st.checks += 1;
                    crossings += 1;
                    if seen != want {
                        return Violation::new(
                            "argument",
                            format!("{what}: the foreign function was handed {seen:x?} by {}, expected {want:x?}", meta.name),
                        );
                    }
                }
                POINTER => {
                    let n = g(1) as usize % (SLOTS - slot + 1);
                    let mask = some(meta, g(3), g(4));
                    ORDER.with(|o| o.set((g(2), mask)));
                    w.party.pointer(slot, n);
                    for x in &mut w.mem[slot..slot + n] {
                        *x = apply(g(2), *x, mask);
                    }
                    st.probe(6);
                    crossings += 1;
                }
                CALLBACK => {
                    let (other, kind, to) = (g(1) as usize % SLOTS, g(2) % 5, g(3) as usize % SLOTS);
                    let (x, y) = (w.mem[slot], w.mem[other]);
                    let got = w.party.callback(x, y, kind as u32);
                    let want = match kind {
                        0 => x | y,
                        1 => x & y,
                        2 => x & !y,
                        3 => x ^ y,
                        _ => w.all & !x,
                    };
                    st.checks += 1;
                    st.probe(7);
                    crossings += 1;
                    if got != want {
                        return Violation::new(
                            "callback",
                            format!("{what}: called with {x:#x} and {y:#x} of {}, native code returned {got:#x}, expected {want:#x}", meta.name),
                        );
                    }
                    w.foreign_store(to, want);
                }
                SYNC => {
                    let (a, b) = (slot.min(g(1) as usize % SLOTS), slot.max(g(1) as usize % SLOTS));
                    w.durable[a..=b].copy_from_slice(&w.mem[a..=b]);
                }
                CRASH => {
                    st.fault(0);
                    faults += 1;
                    let mut x = g(0);
                    for s in 0..SLOTS {
                        if w.mem[s] == w.durable[s] {
                            continue;
                        }
                        let (old, new) = (w.durable[s], w.mem[s]);
                        let next = match splitmix(&mut x) % 3 {
                            0 => {
                                st.fault(1);
                                old
                            }
                            1 => new,
                            _ => {
                                // Any byte may or may not have reached the image.
                                st.fault(2);
                                let pick = splitmix(&mut x);
                                let (o, n) = (old.to_le_bytes(), new.to_le_bytes());
                                let mut b = [0; 16];
                                for k in 0..16 {
                                    b[k] = if pick >> k & 1 == 1 { n[k] } else { o[k] };
                                }
                                u128::from_le_bytes(b)
                            }
                        };
                        w.foreign_store(s, next);
                    }
                    w.durable = w.mem;
                    w.party.forget();
                    w.regs = [0; REGS];
                    w.recover(&what, st)?;
                }
                GARBAGE => {
                    let mut x = g(1);
                    let y = (splitmix(&mut x) as u128) << 64 | splitmix(&mut x) as u128;
                    let keep = w.mem[slot];
                    let bits = match g(2) % 4 {
                        0 => y,
                        1 => keep | 1 << (splitmix(&mut x) % 128),
                        2 => keep ^ 1 << (meta.max() as u128 + 1 & 127),
                        _ => y & w.all,
                    } & w.mask();
                    w.foreign_store(slot, bits);
                    st.fault(3);
                    faults += 1;
                    w.recover(&what, st)?;
                }
                _ => {
                    w.party.forget();
                    w.regs = [0; REGS];
                    st.fault(4);
                    faults += 1;
                }
            }
            w.compare(&what, st)?;
            st.state(w.mem.iter().fold(shape_h, |h, x| mix(mix(h, *x as u64), (*x >> 64) as u64)));
            for x in &w.mem {
                st.observe(*x as u64);
            }
        }
        st.nontrivial = crossings >= 5 && faults >= 1;
        Ok(())
    }
}

fn main() {
    kernel::main(&C15)
}
