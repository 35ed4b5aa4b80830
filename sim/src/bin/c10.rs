//! C10: equality, order and hash depend on membership alone, whatever history produced a set.
use enumset_sim::bits;
use enumset_sim::callers::{self, SYSTEM};
use enumset_sim::disk::{Fate, File};
use enumset_sim::kernel::{self, *};
use enumset_sim::numm::*;
use enumset_sim::rng::{mix, mix_str, splitmix, Rng};
use enumset_sim::serm::SerMachine;
use enumset_sim::setm::{Machine, Model, Op, Sets, NONE, REGS};
use enumset_sim::zoo::{self, Group, Variant};
use enumset::EnumSet;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{BuildHasher, Hash, Hasher};
use std::marker::PhantomData;

//---------------------------------------------------------------------------------- hashers

/// Records every call.
#[derive(Default)]
struct Recorder(Vec<u64>);
macro_rules! record {
    ($($f:ident $t:ty, $tag:literal;)*) => {
        $(fn $f(&mut self, x: $t) {
            self.0.extend([$tag, x as u64, (x as u128 >> 64) as u64]);
        })*
    };
}
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        self.0.iter().fold(1, |h, x| mix(h, *x))
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(1);
        self.0.push(b.len() as u64);
        self.0.extend(b.iter().map(|x| *x as u64));
    }
    record! {
        write_u8 u8, 2; write_u16 u16, 3; write_u32 u32, 4; write_u64 u64, 5; write_u128 u128, 6; write_usize usize, 7;
        write_i8 i8, 8; write_i16 i16, 9; write_i32 i32, 10; write_i64 i64, 11; write_i128 i128, 12; write_isize isize, 13;
    }
}
/// 0: a good hasher, 1: one with four buckets, 2: one value for everything, 3: the standard one with fixed keys.
#[derive(Clone)]
struct Build(u64);
struct SimHasher(u64, u64, std::collections::hash_map::DefaultHasher);
impl BuildHasher for Build {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher(self.0, 99, std::collections::hash_map::DefaultHasher::new())
    }
}
impl Hasher for SimHasher {
    fn finish(&self) -> u64 {
        match self.0 {
            0 => self.1,
            1 => self.1 % 4 << 57 | self.1 % 4,
            2 => 7,
            _ => self.2.finish(),
        }
    }
    fn write(&mut self, b: &[u8]) {
        if self.0 == 3 {
            self.2.write(b)
        }
        for x in b {
            self.1 = mix(self.1, *x as u64 + 1);
        }
    }
}

//---------------------------------------------------------------------------------- keyed collections

trait Mode<T: Variant> {
    fn ser(s: &mut Sets<T>) -> Option<&mut dyn SerMachine>;
}
struct Plain;
struct Serde;
impl<T: Variant> Mode<T> for Plain {
    fn ser(_: &mut Sets<T>) -> Option<&mut dyn SerMachine> {
        None
    }
}
impl<T: Variant> Mode<T> for Serde {
    fn ser(s: &mut Sets<T>) -> Option<&mut dyn SerMachine> {
        Some(s)
    }
}
struct Keys<T: Variant, M> {
    sets: Sets<T>,
    tree: BTreeMap<EnumSet<T>, u64>,
    hash: HashMap<EnumSet<T>, u64, Build>,
    list: Vec<(EnumSet<T>, u64)>,
    mode: PhantomData<M>,
}
trait KeyMachine {
    fn num(&mut self) -> &mut dyn NumMachine;
    fn ser(&mut self) -> Option<&mut dyn SerMachine>;
    /// Members by `contains` alone.
    fn members(&self, r: usize) -> BTreeSet<u32>;
    fn relate(&self, a: usize, b: usize) -> Vec<u64>;
    fn record(&self, r: usize, kind: u64) -> Vec<u64>;
    fn reset(&mut self, hasher: u64);
    /// Results from the tree, the hash table and the sorted list, `NONE` for absent.
    fn put(&mut self, r: usize, v: u64) -> [u64; 3];
    fn get(&self, r: usize) -> [u64; 3];
    fn del(&mut self, r: usize) -> [u64; 3];
    /// Keys and values in the order of the tree, each key by `contains`; then the sorted list; then the table, in any order.
    fn dump(&self) -> [Vec<(BTreeSet<u32>, u64)>; 3];
    /// Loads the `i`-th key of the tree into a register.
    fn key(&mut self, i: usize, r: usize) -> Option<u64>;
    /// How many keys of the tree lie before register `r`, up to it, after it; then its place in the list.
    fn ranges(&self, r: usize) -> [u64; 4];
    /// The registers sorted, as their members.
    fn sorted(&self, stable: bool) -> Vec<BTreeSet<u32>>;
}
fn by_contains<T: Variant>(s: EnumSet<T>) -> BTreeSet<u32> {
    T::variants().iter().filter(|v| s.contains(**v)).map(|v| v.disc()).collect()
}
fn ord(o: Ordering) -> u64 {
    (o as i8 + 1) as u64
}
impl<T: Variant, M: Mode<T>> Keys<T, M> {
    fn new() -> Self {
        Keys { sets: Sets::new(), tree: BTreeMap::new(), hash: HashMap::with_hasher(Build(0)), list: vec![], mode: PhantomData }
    }
}
impl<T: Variant, M: Mode<T>> KeyMachine for Keys<T, M> {
    fn num(&mut self) -> &mut dyn NumMachine {
        &mut self.sets
    }
    fn ser(&mut self) -> Option<&mut dyn SerMachine> {
        M::ser(&mut self.sets)
    }
    fn members(&self, r: usize) -> BTreeSet<u32> {
        by_contains(self.sets.regs[r])
    }
    fn relate(&self, a: usize, b: usize) -> Vec<u64> {
        let (a, b) = (self.sets.regs[a], self.sets.regs[b]);
        vec![
            ord(a.cmp(&b)),
            a.partial_cmp(&b).map_or(NONE, ord),
            (a == b) as u64,
            (a != b) as u64,
            (a < b) as u64,
            (a <= b) as u64,
            (a > b) as u64,
            (a >= b) as u64,
            (a.max(b) == b) as u64,
            (a.min(b) == a) as u64,
            ([a].as_slice() == [b].as_slice()) as u64,
            ord((a, 1).cmp(&(b, 1))),
            (Some(a) == Some(b)) as u64,
        ]
    }
    fn record(&self, r: usize, kind: u64) -> Vec<u64> {
        let s = self.sets.regs[r];
        let mut h = Recorder::default();
        match kind % 3 {
            0 => s.hash(&mut h),
            1 => Hash::hash_slice(&[s, s], &mut h),
            _ => (1u8, s, 2u8).hash(&mut h),
        }
        h.0.push(Build(3).hash_one(s));
        h.0
    }
    fn reset(&mut self, hasher: u64) {
        self.tree = BTreeMap::new();
        self.hash = HashMap::with_hasher(Build(hasher % 4));
        self.list = Vec::new();
    }
    fn put(&mut self, r: usize, v: u64) -> [u64; 3] {
        let s = self.sets.regs[r];
        let l = match self.list.binary_search_by(|x| x.0.cmp(&s)) {
            Ok(i) => std::mem::replace(&mut self.list[i].1, v),
            Err(i) => {
                self.list.insert(i, (s, v));
                NONE
            }
        };
        [self.tree.insert(s, v).unwrap_or(NONE), self.hash.insert(s, v).unwrap_or(NONE), l]
    }
    fn get(&self, r: usize) -> [u64; 3] {
        let s = &self.sets.regs[r];
        let l = self.list.binary_search_by(|x| x.0.partial_cmp(s).unwrap_or(Ordering::Less)).map_or(NONE, |i| self.list[i].1);
        [self.tree.get(s).copied().unwrap_or(NONE), self.hash.get(s).copied().unwrap_or(NONE), l]
    }
    fn del(&mut self, r: usize) -> [u64; 3] {
        let s = self.sets.regs[r];
        let l = match self.list.binary_search_by_key(&s, |x| x.0) {
            Ok(i) => self.list.remove(i).1,
            Err(_) => NONE,
        };
        [self.tree.remove(&s).unwrap_or(NONE), self.hash.remove(&s).unwrap_or(NONE), l]
    }
    fn dump(&self) -> [Vec<(BTreeSet<u32>, u64)>; 3] {
        [
            self.tree.iter().map(|(k, v)| (by_contains(*k), *v)).collect(),
            self.list.iter().map(|(k, v)| (by_contains(*k), *v)).collect(),
            self.hash.iter().map(|(k, v)| (by_contains(*k), *v)).collect(),
        ]
    }
    fn key(&mut self, i: usize, r: usize) -> Option<u64> {
        let (k, v) = self.tree.iter().nth(i)?;
        self.sets.regs[r] = *k;
        Some(*v)
    }
    fn ranges(&self, r: usize) -> [u64; 4] {
        use std::ops::Bound::*;
        let s = self.sets.regs[r];
        [
            self.tree.range(..s).count() as u64,
            self.tree.range(..=s).count() as u64,
            self.tree.range((Excluded(s), Unbounded)).count() as u64,
            self.list.partition_point(|x| x.0 < s) as u64,
        ]
    }
    fn sorted(&self, stable: bool) -> Vec<BTreeSet<u32>> {
        let mut v = self.sets.regs.to_vec();
        if stable {
            v.sort();
        } else {
            v.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Less));
        }
        v.into_iter().map(by_contains).collect()
    }
}
fn make_core(name: &str) -> Option<Box<dyn KeyMachine>> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Some(Box::new(Keys::<$t, Plain>::new()) as Box<dyn KeyMachine>),)*
                _ => None,
            }
        };
    }
    enumset_sim::for_core_shapes!(pick)
}
fn make_ser(name: &str) -> Option<Box<dyn KeyMachine>> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Some(Box::new(Keys::<$t, Serde>::new()) as Box<dyn KeyMachine>),)*
                _ => None,
            }
        };
    }
    enumset_sim::for_ser_shapes!(pick)
}

//---------------------------------------------------------------------------------- engine

const OPS: &[&str] = &[
    "operate", "load-words", "load-document", "put", "get", "delete", "checkpoint", "sync", "crash", "compare", "variant",
];
const OPERATE: usize = 0;
const WORDS: usize = 1;
const DOC: usize = 2;
const PUT: usize = 3;
const GET: usize = 4;
const DEL: usize = 5;
const SAVE: usize = 6;
const SYNC: usize = 7;
const CRASH: usize = 8;
const COMPARE: usize = 9;
const VARIANT: usize = 10;

const FAULTS: &[&str] = &[
    "update interrupted by a panic", "corrupt words offered", "corrupt document offered", "crash", "unsynced checkpoint lost",
    "unsynced checkpoint torn (discarded)", "hasher with four buckets or one", "words of unknown variants truncated away",
];
const PROBES: &[&str] = &[
    "sets of different history, same members", "stored key found", "absent key not found", "collections rebuilt after a crash",
    "corrupt words accepted by truncation", "corrupt document accepted", "set equals a single variant", "order of a pair seen again",
    "keys replaced", "triples ordered", "keys deleted", "complemented set compared",
];

/// The operations that make up a history. Registers 0 to 2; register 3 is the twin built by insertion.
const HISTORY: &[Op] = &[
    Op::Make, Op::Insert, Op::Remove, Op::Clear, Op::Bin, Op::BinV, Op::Assign, Op::AssignV, Op::Bulk, Op::Compl, Op::Bare,
    Op::BareS, Op::BareNot, Op::Macro, Op::Fill, Op::Copy, Op::Feed, Op::Operand,
];
const TWIN: usize = 3;

type Image = Vec<(Vec<u64>, u64, BTreeSet<u32>)>;

struct C10;

impl Engine for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            80_000
        } else {
            5_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded history of one to four callers updating sets of one of 219 enums, recovering them from corrupt words and \
         documents, and keeping collections keyed by them on a crashing node; non-trivial: distinct script with at least \
         three updates or recoveries and one fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["enumset ==, cmp, hash, operations and recoveries", "enumset_derive (generated code)", "BTreeMap, HashMap, sort"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["hashers", "disk", "callers (seeded scheduler)", "reference collections keyed by mathematical sets"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["membership is what contains() says of every declared variant (C01 decides whether it is right)"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, pair of sets) compared"
    }

    fn generate(&self, rng: &mut Rng, run: u64, tier: Tier) -> Script {
        let mut shapes = zoo::shapes(Group::Core);
        shapes.extend(zoo::shapes(Group::Ser));
        let m = shapes[if run < shapes.len() as u64 * 4 { run as usize % shapes.len() } else { rng.below(shapes.len() as u64) as usize }];
        let tasks = rng.range(1, 4);
        let steps = if tier == Tier::Thorough { rng.range(20, 120) } else { rng.range(12, 60) };
        let w = callers::swarm(rng, &[40, 12, if m.group == Group::Ser { 12 } else { 0 }, 12, 8, 4, 3, 2, 2, 10, 6]);
        let few = rng.pct(40).then(|| [callers::variant(rng, m), callers::variant(rng, m), callers::variant(rng, m)]);
        let ev = callers::interleave(rng, tasks, steps, 0, None, |rng, _| {
            let op = rng.weighted(&w);
            let var = |rng: &mut Rng| match few {
                Some(f) => *rng.pick(&f),
                None => callers::variant(rng, m),
            };
            let r = rng.below(3);
            let a = match op {
                OPERATE => {
                    let h = HISTORY[rng.below(HISTORY.len() as u64) as usize];
                    let mut a = vec![h as u64, r];
                    match h {
                        Op::Fill => a.extend(callers::pattern(m, rng.below(10), rng.next()).into_iter().map(|x| x as u64)),
                        Op::Feed => {
                            let kind = rng.below(8);
                            a.extend([kind, if rng.pct(40) { rng.below(5) } else { u64::MAX }, if rng.pct(20) { rng.below(5) } else { u64::MAX }, rng.below(6)]);
                            for _ in 0..rng.below(6) {
                                a.push(if matches!(kind, 0 | 2 | 6 | 7) { var(rng) } else { rng.below(3) });
                            }
                        }
                        Op::Insert | Op::Remove => a.push(var(rng)),
                        Op::Make => a.extend([rng.below(10), var(rng)]),
                        Op::Assign | Op::Bulk | Op::Compl | Op::Copy => a.extend([rng.below(8), rng.below(3)]),
                        Op::AssignV => a.extend([rng.below(4), var(rng)]),
                        Op::Bin => a.extend([rng.below(8), rng.below(3), rng.below(3)]),
                        Op::BinV => a.extend([rng.below(4), rng.below(3), var(rng)]),
                        Op::Bare => a.extend([rng.below(4), var(rng), var(rng)]),
                        Op::BareS => a.extend([rng.below(4), var(rng), rng.below(3)]),
                        Op::BareNot => a.push(var(rng)),
                        Op::Macro => a.extend([rng.below(12), var(rng), var(rng), rng.below(3), rng.below(3)]),
                        Op::Operand => a.extend([rng.below(3), rng.below(4), if rng.pct(50) { rng.below(3) } else { var(rng) }, rng.below(3), rng.below(2)]),
                        _ => {}
                    }
                    a
                }
                // target, form, array length, mode, corruption, salt
                WORDS => vec![r, rng.below(10), rng.below(10), rng.below(3), rng.below(6), rng.next()],
                DOC => vec![r, rng.below(3), rng.below(6), rng.below(3), rng.next()],
                PUT => vec![r, rng.below(1000)],
                GET | DEL => vec![r],
                SAVE => vec![rng.below(2)],
                SYNC => vec![],
                CRASH => vec![rng.next(), rng.below(4)],
                COMPARE => vec![rng.below(6), rng.next()],
                _ => vec![r, var(rng)],
            };
            (op, a)
        });
        let ev = ev.into_iter().map(|e| if e.op == CRASH { Ev { task: SYSTEM, ..e } } else { e }).collect();
        Script { shape: m.name.to_string(), cfg: vec![rng.below(4)], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        let Some(m) = make_core(meta.name).or_else(|| make_ser(meta.name)) else { return Ok(()) };
        let mut w = World { m, meta, regs: Default::default(), order: BTreeMap::new(), model: Model::new(meta) };
        let hasher = s.cfg.first().copied().unwrap_or(0);
        w.m.reset(hasher);
        if hasher % 4 == 1 || hasher % 4 == 2 {
            st.fault(6);
        }
        let mut keyed: BTreeMap<BTreeSet<u32>, u64> = BTreeMap::new();
        let mut file: File<Image> = File::default();
        let words = meta.max() as usize / 64 + 1;
        let (mut updates, mut faults) = (0u64, 0u64);
        let mut out = Vec::new();
        for (i, e) in s.ev.iter().enumerate() {
            st.ops[e.op] += 1;
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            let r = g(0) as usize % TWIN;
            let what = format!("event {i} {} {:?} on {}", OPS[e.op], e.a, meta.name);
            let annotate = |v: Violation| Violation { class: v.class, detail: format!("{what}: {}", v.detail) };
            let mut touched = None;
            match e.op {
                OPERATE => {
                    let op = HISTORY[HISTORY.iter().position(|h| *h as u64 == g(0)).unwrap_or(0)];
                    let mut a = e.a.get(1..).unwrap_or(&[]).to_vec();
                    a.resize(a.len().max(1), 0);
                    a[0] %= TWIN as u64;
                    let Some(a) = w.model.normalise(op, &a) else { continue };
                    let r = a[0] as usize;
                    out.clear();
                    let g = guard(|| w.m.num().exec(op, &a, &mut out));
                    if let Caught::Panicked(x) = g {
                        return Violation::new("panic", format!("{what}: {x}"));
                    }
                    if matches!(op, Op::Feed | Op::Operand) && out.last() == Some(&1) {
                        st.fault(0);
                        faults += 1;
                    }
                    if op == Op::Compl {
                        st.probe(11);
                    }
                    updates += 1;
                    touched = Some(r);
                }
                WORDS => {
                    // Another set in numeric form, damaged, is read back.
                    let (form, len, mode) = (g(1) % 10, g(2) as usize % ARRAYS.len(), g(3) % 3);
                    let src = (r + g(5) as usize) % TWIN;
                    let n = match form {
                        0..=6 => 2,
                        7 => ARRAYS[len],
                        // Slices of any length, also cut short.
                        _ => match g(2) % 4 {
                            0 | 1 => (g(5) >> 8) as usize % (words + 3),
                            2 => words.saturating_sub(1),
                            _ => words + g(5) as usize % 3,
                        },
                    };
                    let mut x = g(5);
                    let mut v = bits::to_words(&w.regs[src], n);
                    match g(4) % 6 {
                        0 => {}
                        1 => v.iter_mut().for_each(|v| *v = splitmix(&mut x)),
                        2 => v.iter_mut().for_each(|v| *v = u64::MAX),
                        3 => v.iter_mut().for_each(|v| *v = !*v),
                        4 => v.iter_mut().for_each(|v| *v ^= splitmix(&mut x) & splitmix(&mut x) & splitmix(&mut x)),
                        _ => {
                            if let Some(v) = v.last_mut() {
                                *v |= 1 << (x % 64)
                            }
                        }
                    }
                    if g(4) % 6 != 0 {
                        st.fault(1);
                        faults += 1;
                        if mode == M_TRUNC {
                            st.fault(7);
                        }
                    }
                    let end = w.m.num().load(r, form, mode, len, &v);
                    if end == End::Ok {
                        if g(4) % 6 != 0 {
                            st.probe(4);
                        }
                        updates += 1;
                        touched = Some(r);
                    }
                }
                DOC => {
                    let src = (r + g(4) as usize) % TWIN;
                    let fmt = g(2) % 6;
                    let Some(ser) = w.m.ser() else { continue };
                    let mut b = Vec::new();
                    if ser.ser(0, fmt, src, 99, 0, &mut b).is_err() || b.is_empty() {
                        continue;
                    }
                    let mut x = g(4);
                    let n = b.len() as u64;
                    match g(1) % 3 {
                        0 => {}
                        1 => {
                            for _ in 0..=splitmix(&mut x) % 3 {
                                let p = (splitmix(&mut x) % n) as usize;
                                b[p] = if b[p].is_ascii_digit() && fmt != 2 { b'0' + (splitmix(&mut x) % 10) as u8 } else { b[p] ^ 1 << (splitmix(&mut x) % 8) };
                            }
                        }
                        _ => {
                            let p = (splitmix(&mut x) % n) as usize;
                            let c = b[p];
                            b.insert(p, if c.is_ascii_digit() { b'0' + (splitmix(&mut x) % 10) as u8 } else { splitmix(&mut x) as u8 });
                        }
                    }
                    if g(1) % 3 != 0 {
                        st.fault(2);
                        faults += 1;
                    }
                    let mut src = &b[..];
                    match guard(|| ser.de(0, fmt, r, 99, &mut src)) {
                        Caught::Done(Ok(_)) => {
                            if g(1) % 3 != 0 {
                                st.probe(5);
                            }
                            updates += 1;
                            touched = Some(r);
                        }
                        Caught::Done(Err(_)) => {}
                        _ => return Violation::new("panic", what),
                    }
                }
                PUT => {
                    let k = w.regs[r].clone();
                    let old = keyed.insert(k, g(1)).unwrap_or(NONE);
                    if old != NONE {
                        st.probe(8);
                    }
                    let got = w.m.put(r, g(1));
                    if got != [old; 3] {
                        return Violation::new("put", format!("{what}: storing under {:?} replaced {got:?} in tree, table and list, expected {old}", w.regs[r]));
                    }
                    w.dumps(&keyed).map_err(annotate)?;
                    st.checks += 1;
                }
                GET => {
                    // By the key with its history and by its twin.
                    let want = keyed.get(&w.regs[r]).copied().unwrap_or(NONE);
                    w.twin(r)?;
                    let got = [w.m.get(r), w.m.get(TWIN)];
                    if got != [[want; 3]; 2] {
                        return Violation::new("get", format!("{what}: looking up {:?} found {got:?}, expected {want}", w.regs[r]));
                    }
                    st.probe(if want == NONE { 2 } else { 1 });
                    let (keys, rr) = (w.m.dump()[0].clone(), w.regs[r].clone());
                    let below = keys.iter().filter(|k| w.order.get(&(k.0.clone(), rr.clone())) == Some(&Ordering::Less)).count() as u64;
                    let at = (want != NONE) as u64;
                    let ranges = w.m.ranges(r);
                    if ranges[1] != ranges[0] + at || ranges[0] != ranges[3] || ranges[1] + ranges[2] != keys.len() as u64 || below > ranges[0] {
                        return Violation::new("ranges", format!("{what}: around {rr:?} the tree of {} keys has {ranges:?} (at least {below} are known to be less)", keys.len()));
                    }
                    st.checks += 1;
                }
                DEL => {
                    let want = keyed.remove(&w.regs[r]).unwrap_or(NONE);
                    w.twin(r)?;
                    let got = w.m.del(if i % 2 == 0 { r } else { TWIN });
                    if got != [want; 3] {
                        return Violation::new("delete", format!("{what}: deleting {:?} removed {got:?}, expected {want}", w.regs[r]));
                    }
                    if want != NONE {
                        st.probe(10);
                    }
                    w.dumps(&keyed).map_err(annotate)?;
                }
                SAVE => {
                    let mut img: Image = Vec::new();
                    let mut i = 0;
                    while let Some(v) = w.m.key(i, TWIN) {
                        let k = w.m.members(TWIN);
                        let mut buf = vec![0; words];
                        let form = if g(0) == 0 { F_SLICE } else { F_VEC };
                        let end = w.m.num().save(TWIN, form, M_TRY, 0, &mut buf);
                        if end != End::Ok {
                            return Violation::new("checkpoint", format!("{what}: {k:?} cannot be written: {end:?}"));
                        }
                        img.push((buf, v, k));
                        i += 1;
                    }
                    let n = img.iter().map(|x| x.0.len() * 8 + 8).sum::<usize>();
                    file.write(vec![0xA5; n], Some(img));
                }
                SYNC => file.sync(),
                CRASH => {
                    st.fault(3);
                    faults += 1;
                    match file.crash(g(0)) {
                        Fate::Lost => st.fault(4),
                        Fate::Torn => st.fault(5),
                        _ => {}
                    }
                    w.m.reset(g(1));
                    keyed.clear();
                    for r in 0..REGS {
                        w.m.num().exec(Op::Make, &[r as u64, 0], &mut out);
                    }
                    w.regs = Default::default();
                    if let Some(img) = file.seen().and_then(|x| x.intact.clone()) {
                        for (i, (words, v, k)) in img.into_iter().enumerate() {
                            let mode = [M_PANIC, M_TRY, M_TRUNC][i % 3];
                            if w.m.num().load(TWIN, F_SLICE, mode, 0, &words) != End::Ok {
                                return Violation::new("recover", format!("{what}: key {k:?} = {words:x?} cannot be read back"));
                            }
                            w.m.put(TWIN, v);
                            keyed.insert(k, v);
                        }
                        st.probe(3);
                        w.dumps(&keyed).map_err(annotate)?;
                    }
                }
                COMPARE => {
                    // Three sets, in all orders.
                    let p = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][g(0) as usize % 6];
                    let o = |w: &World, a: usize, b: usize| w.m.relate(a, b)[0];
                    let (ab, bc, ac) = (o(&w, p[0], p[1]), o(&w, p[1], p[2]), o(&w, p[0], p[2]));
                    if ab <= 1 && bc <= 1 && ac > 1 || ab >= 1 && bc >= 1 && ac < 1 || ab == 0 && bc == 0 && ac != 0 {
                        return Violation::new("transitivity", format!("{what}: {:?}: {ab} {bc} {ac}", p.map(|r| &w.regs[r])));
                    }
                    st.probe(9);
                    w.m.num().exec(Op::Copy, &[TWIN as u64, 0, r as u64], &mut out);
                    w.regs[TWIN] = w.regs[r].clone();
                    for stable in [false, true] {
                        let v = w.m.sorted(stable);
                        let mut a: Vec<_> = v.clone();
                        let mut b: Vec<_> = w.regs.to_vec();
                        a.sort();
                        b.sort();
                        let descends = v.windows(2).any(|x| w.order.get(&(x[0].clone(), x[1].clone())) == Some(&Ordering::Greater));
                        if a != b || descends {
                            return Violation::new("sort", format!("{what}: {:?} sorted into {v:?}", w.regs));
                        }
                    }
                }
                _ => {
                    let Some(a) = w.model.normalise(Op::EqV, &[r as u64, g(1)]) else { continue };
                    out.clear();
                    w.m.num().exec(Op::EqV, &a, &mut out);
                    let eq = (w.regs[r] == BTreeSet::from([meta.declared[a[1] as usize]])) as u64;
                    let want = [eq, eq, if meta.ops { eq } else { NONE }];
                    if out != want {
                        return Violation::new("variant", format!("{what}: {:?} compared with variant {}: {out:?}, expected {want:?}", w.regs[r], meta.declared[a[1] as usize]));
                    }
                    if eq == 1 {
                        st.probe(6);
                    }
                }
            }
            if let Some(r) = touched {
                w.regs[r] = w.m.members(r);
                w.twin(r).map_err(annotate)?;
                w.alike(r, st).map_err(annotate)?;
                for b in 0..TWIN {
                    w.pair(r, b, st).map_err(annotate)?;
                }
                st.observe(w.regs[r].iter().fold(r as u64, |h, d| mix(h, *d as u64)));
            }
        }
        st.nontrivial = updates >= 3 && faults >= 1;
        Ok(())
    }
}

struct World {
    m: Box<dyn KeyMachine>,
    meta: &'static zoo::ShapeMeta,
    regs: [BTreeSet<u32>; REGS],
    /// How pairs compared the first time.
    order: BTreeMap<(BTreeSet<u32>, BTreeSet<u32>), Ordering>,
    model: Model,
}
impl World {
    /// Builds a set with the members of register `r` by insertion.
    fn twin(&mut self, r: usize) -> Result<(), Violation> {
        let d = self.meta.declared;
        let mut a = vec![TWIN as u64];
        a.extend((0..d.len()).filter(|i| self.regs[r].contains(&d[*i])).map(|i| i as u64));
        if self.regs[r].len() % 2 == 1 {
            a[1..].reverse();
        }
        self.m.num().exec(Op::Fill, &a, &mut Vec::new());
        self.regs[TWIN] = self.regs[r].clone();
        if self.m.members(TWIN) != self.regs[r] {
            return Violation::new("twin", format!("inserting {:?} gave {:?}", self.regs[r], self.m.members(TWIN)));
        }
        Ok(())
    }
    /// Register `r` and its twin are indistinguishable.
    fn alike(&mut self, r: usize, st: &mut Stats) -> Result<(), Violation> {
        self.pair(r, TWIN, st)?;
        self.pair(r, r, st)?;
        for kind in 0..3 {
            let (a, b) = (self.m.record(r, kind), self.m.record(TWIN, kind));
            if a != b {
                return Violation::new("hash", format!("two sets holding {:?} hash as {a:x?} and {b:x?}", self.regs[r]));
            }
        }
        st.probe(0);
        Ok(())
    }
    fn pair(&mut self, a: usize, b: usize, st: &mut Stats) -> Result<(), Violation> {
        let (x, y) = (&self.regs[a], &self.regs[b]);
        let (ab, ba) = (self.m.relate(a, b), self.m.relate(b, a));
        let eq = x == y;
        let o = ab[0];
        let want = vec![
            o, o, eq as u64, !eq as u64, (o == 0) as u64, (o <= 1) as u64, (o == 2) as u64, (o >= 1) as u64,
            (o <= 1) as u64, (o <= 1) as u64, eq as u64, o, eq as u64,
        ];
        if ab != want || (o == 1) != eq || ba[0] != 2 - o || ba[2] != eq as u64 {
            return Violation::new("relate", format!("{x:?} against {y:?}: {ab:?}, the other way round {ba:?}, expected {want:?}"));
        }
        let o = [Ordering::Less, Ordering::Equal, Ordering::Greater][o as usize];
        match self.order.insert((x.clone(), y.clone()), o) {
            Some(p) if p != o => return Violation::new("unstable", format!("{x:?} against {y:?} was {p:?} and is {o:?}")),
            Some(_) => st.probe(7),
            None => {}
        }
        self.order.insert((y.clone(), x.clone()), o.reverse());
        st.checks += 1;
        st.state(x.iter().fold(y.iter().fold(mix_str(3, self.meta.name), |h, d| mix(h, *d as u64)), |h, d| mix(h, *d as u64 + 4096)));
        Ok(())
    }
    /// The collections hold exactly the stored keys, in strictly ascending order.
    fn dumps(&mut self, keyed: &BTreeMap<BTreeSet<u32>, u64>) -> Result<(), Violation> {
        let dump = self.m.dump();
        for (i, d) in dump.iter().enumerate() {
            let m: BTreeMap<_, _> = d.iter().cloned().collect();
            if m != *keyed || d.len() != keyed.len() {
                return Violation::new("collection", format!("{} holds {d:?}, expected {keyed:?}", ["the tree", "the list", "the table"][i]));
            }
        }
        if dump[0] != dump[1] {
            return Violation::new("orders", format!("tree and list disagree: {:?} {:?}", dump[0], dump[1]));
        }
        Ok(())
    }
}

fn main() {
    kernel::main(&C10)
}
