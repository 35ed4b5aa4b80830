//! C12: with memory exhausted, everything but the export to a vector works as before.
use enumset_sim::callers::{self, SYSTEM};
use enumset_sim::kernel::{self, *};
use enumset_sim::numm::*;
use enumset_sim::rng::{mix, mix_str, splitmix, Rng};
use enumset_sim::setm::{Model, Op, Sets, ALL, DRAINS, ITS, OPS as SET_OPS, REGS, STEPS};
use enumset_sim::tokens::*;
use enumset_sim::zoo::{self, Buf, Group, ShapeMeta, Variant};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};

//---------------------------------------------------------------------------------- the allocator

thread_local! {
    /// Requests still granted; negative: all of them.
    static LEFT: Cell<i64> = const { Cell::new(-1) };
    static GRANTED: Cell<u64> = const { Cell::new(0) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
}
struct Scarce;
fn grant() -> bool {
    let n = LEFT.with(|l| l.get());
    if n < 0 {
        return true;
    }
    if n == 0 {
        REFUSED.with(|r| r.set(r.get() + 1));
        return false;
    }
    GRANTED.with(|r| r.set(r.get() + 1));
    LEFT.with(|l| l.set(n - 1));
    true
}
unsafe impl GlobalAlloc for Scarce {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if grant() { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if grant() { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if grant() { System.realloc(p, l, n) } else { std::ptr::null_mut() }
    }
}
#[global_allocator]
static ALLOCATOR: Scarce = Scarce;

struct Restore;
impl Drop for Restore {
    fn drop(&mut self) {
        LEFT.with(|l| l.set(-1));
    }
}
/// Runs `f` with only `budget` allocation requests granted (negative: no limit).
fn under<R>(budget: i64, f: impl FnOnce() -> R) -> R {
    let _r = Restore;
    LEFT.with(|l| l.set(budget));
    f()
}

//---------------------------------------------------------------------------------- the system under test

/// A text buffer of fixed capacity.
struct Fixed {
    text: String,
    cap: usize,
}
impl Write for Fixed {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.text.len() + s.len() > self.cap {
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
trait MemMachine: NumMachine + TokMachine {
    fn text(&self, r: usize, how: u64, f: &mut dyn Write) -> fmt::Result;
    fn hash(&self, r: usize) -> u64;
    fn relate(&self, a: usize, b: usize) -> u64;
}
impl<T: Variant> MemMachine for Sets<T> {
    fn text(&self, r: usize, how: u64, f: &mut dyn Write) -> fmt::Result {
        let s = self.regs[r];
        match how % 7 {
            0 => write!(f, "{s:?}"),
            1 => write!(f, "{s:#?}"),
            2 => write!(f, "{s}"),
            3 => write!(f, "{s:>9}"),
            4 => write!(f, "{s:08.3?}"),
            5 => write!(f, "[{s}] {:?}", Some(s)),
            _ => {
                let mut b = Buf::<24>::new();
                let r = write!(b, "{s}");
                f.write_str(b.as_str())?;
                r
            }
        }
    }
    fn hash(&self, r: usize) -> u64 {
        let mut h = DefaultHasher::new();
        self.regs[r].hash(&mut h);
        h.finish()
    }
    fn relate(&self, a: usize, b: usize) -> u64 {
        let (a, b) = (self.regs[a], self.regs[b]);
        (a.cmp(&b) as i8 + 1) as u64 * 16 + (a.partial_cmp(&b).map_or(3, |o| (o as i8 + 1) as u64)) * 4 + (a == b) as u64 * 2 + (a != b) as u64
    }
}
fn make_core(name: &str) -> Option<Box<dyn MemMachine>> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Some(Box::new(Sets::<$t>::new()) as Box<dyn MemMachine>),)*
                _ => None,
            }
        };
    }
    enumset_sim::for_core_shapes!(pick)
}
fn make_ser(name: &str) -> Option<Box<dyn MemMachine>> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Some(Box::new(Sets::<$t>::new()) as Box<dyn MemMachine>),)*
                _ => None,
            }
        };
    }
    enumset_sim::for_ser_shapes!(pick)
}

//---------------------------------------------------------------------------------- engine

const OPS: &[&str] = &["operate", "export", "import", "format", "hash", "compare", "write", "read", "exhaust", "relief", "foreign"];
const OPERATE: usize = 0;
const EXPORT: usize = 1;
const IMPORT: usize = 2;
const FORMAT: usize = 3;
const HASH: usize = 4;
const COMPARE: usize = 5;
const WRITE: usize = 6;
const READ: usize = 7;
const EXHAUST: usize = 8;
const FOREIGN: usize = 10;

const FAULTS: &[&str] = &[
    "memory ran out", "set or iterator operation without memory", "conversion without memory", "formatting without memory",
    "hashing or comparison without memory", "serialization without memory", "deserialization without memory",
    "format failed as well (writing or reading)", "buffer too small as well", "bits or documents of other origin read without memory",
];
const PROBES: &[&str] = &[
    "refused conversion without memory", "iteration without memory", "bulk update from a caller's iterator without memory",
    "document rejected without memory", "document accepted without memory", "memory came back", "operation with memory (baseline)",
];

struct C12;

impl Engine for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            120_000
        } else {
            15_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded schedule of one to three callers using sets of one of 219 enums while the allocator, from an arbitrary event \
         and request on, refuses everything; non-trivial: distinct script with at least five steps taken without memory"
    }
    fn real(&self) -> &'static [&'static str] {
        &["every enumset operation, conversion, iterator, formatting, hash, serde impl", "enumset_derive (generated code)", "serde"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["the global allocator", "the serde format (tokens in a fixed buffer)", "callers (seeded scheduler)", "reference: the same steps with ample memory"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["panics need memory by themselves, so nothing that panics with ample memory is tried without"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, kind of step, result without memory)"
    }

    fn generate(&self, rng: &mut Rng, run: u64, tier: Tier) -> Script {
        let mut shapes = zoo::shapes(Group::Core);
        shapes.extend(zoo::shapes(Group::Ser));
        let m = shapes[if run < shapes.len() as u64 * 4 { run as usize % shapes.len() } else { rng.below(shapes.len() as u64) as usize }];
        let tasks = rng.range(1, 3);
        let steps = if tier == Tier::Thorough { rng.range(20, 150) } else { rng.range(12, 60) };
        let w = callers::swarm(rng, &[50, 12, 12, 6, 4, 4, 10, 16, 6]);
        let weights: Vec<u64> = ALL.iter().map(|o| if matches!(o, Op::Iter | Op::Step | Op::Drain) { 12 } else { 4 }).collect();
        let kinds = callers::swarm(rng, &weights);
        let budget = if rng.pct(70) { 0 } else { rng.range(1, 3) };
        let mut ev = callers::interleave(rng, tasks, steps, 0, None, |rng, _| {
            let r = rng.below(REGS as u64);
            let op = match rng.weighted(&w) {
                8 => FOREIGN,
                op => op,
            };
            let a = match op {
                OPERATE => {
                    let h = ALL[rng.weighted(&kinds)];
                    let mut a = vec![h as u64];
                    a.extend(operands(rng, m, h));
                    a
                }
                EXPORT => vec![r, rng.below(9), rng.below(3), rng.below(10), rng.below(4)],
                IMPORT => vec![r, rng.below(10), rng.below(3), rng.below(10), rng.below(6), rng.next()],
                FORMAT => vec![r, rng.below(7), if rng.pct(40) { rng.below(80) } else { 1 << 16 }],
                HASH => vec![r],
                COMPARE => vec![r, rng.below(REGS as u64)],
                WRITE => vec![r, rng.below(2), rng.below(3), rng.below(20), rng.below(4), rng.next()],
                FOREIGN => {
                    let mut a = vec![rng.below(2), rng.below(5), rng.next(), rng.below(10), rng.next()];
                    for _ in 0..rng.below(4) {
                        a.push(rng.next());
                    }
                    a
                }
                _ => vec![r, rng.below(2), rng.below(3), rng.below(20), rng.below(6), rng.below(5), rng.below(3), rng.below(4), rng.below(2)],
            };
            (op, a)
        });
        // Most runs start with iterators open.
        for it in 0..if rng.pct(70) { ITS as u64 } else { 0 } {
            let a = vec![Op::Iter as u64, it, rng.below(REGS as u64), 0];
            ev.insert(0, Ev { t: 0, task: SYSTEM, op: OPERATE, a });
            let mut a = vec![Op::Fill as u64, rng.below(REGS as u64)];
            a.extend(callers::pattern(m, rng.below(10), rng.next()).into_iter().map(|x| x as u64));
            ev.insert(0, Ev { t: 0, task: SYSTEM, op: OPERATE, a });
        }
        // Memory runs out at some point, and now and then comes back.
        let mut at = rng.below(ev.len() as u64 / 2 + 1) as usize;
        let mut op = EXHAUST;
        while at < ev.len() {
            let t = ev[at].t;
            ev.insert(at, Ev { t, task: SYSTEM, op, a: vec![budget] });
            at += 1 + rng.range(5, 100) as usize;
            op ^= EXHAUST ^ (EXHAUST + 1);
        }
        Script { shape: m.name.to_string(), cfg: vec![], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        let new = || make_core(meta.name).or_else(|| make_ser(meta.name));
        let (Some(mut m), Some(mut twin)) = (new(), new()) else { return Ok(()) };
        let mut model = Model::new(meta);
        REFUSED.with(|x| x.set(0));
        GRANTED.with(|x| x.set(0));
        let n = meta.declared.len();
        let words = meta.max() as usize / 64 + 1;
        let tok_cap = 2 * n + words + 40;
        // All the memory the steps may use is there from the start.
        let mut out: [Vec<u64>; 2] = [Vec::with_capacity(8 * n + 4096), Vec::with_capacity(8 * n + 4096)];
        let mut bufs: [Vec<u64>; 2] = [Vec::with_capacity(words + 64), Vec::with_capacity(words + 64)];
        let mut texts = [0, 1].map(|_| Fixed { text: String::with_capacity(1 << 16), cap: 0 });
        let mut toks: [Vec<Tok>; 2] = [Vec::with_capacity(tok_cap), Vec::with_capacity(tok_cap)];
        let vars = names(&mut *twin, meta, tok_cap);
        let mut wires: [Option<Vec<Tok>>; 2] = [None, None];
        let mut budget = -1;
        let mut without = 0u64;
        let shape_h = mix_str(5, meta.name);
        for (i, e) in s.ev.iter().enumerate() {
            st.ops[e.op] += 1;
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            let r = g(0) as usize % REGS;
            let what = format!("event {i} {} {:?} on {}", OPS[e.op], e.a, meta.name);
            let scarce = budget >= 0;
            // Each step: first with ample memory on the twin, then on the subject. `same` is the comparison.
            let mut kind = 0;
            let mut h = mix(shape_h, e.op as u64);
            let mut same = Ok(());
            let differ = |name: &str, a: String, b: String| -> Result<(), Violation> {
                Violation::new(format!("differs:{name}"), format!("{what}: {b} without memory, {a} with"))
            };
            match e.op {
                OPERATE => {
                    let op = ALL[g(0) as usize % ALL.len()];
                    let mut a = e.a.get(1..).unwrap_or(&[]).to_vec();
                    // Injected panics would need memory.
                    if op == Op::Feed && a.len() > 2 {
                        a[2] = u64::MAX;
                    }
                    if op == Op::Operand && a.len() > 5 {
                        a[5] = 0;
                    }
                    // Live iterators are tracked in the model only to know which exist.
                    let Some(a) = model.normalise(op, &a) else { continue };
                    match op {
                        Op::Iter => model.its[a[0] as usize] = Some(Default::default()),
                        Op::CloneIt => model.its[a[0] as usize] = model.its[a[1] as usize].clone(),
                        Op::Drain | Op::DropIt => model.its[a[0] as usize] = None,
                        _ => {}
                    }
                    let (x, y) = out.split_at_mut(1);
                    x[0].clear();
                    y[0].clear();
                    let ample = guard(|| twin.exec(op, &a, &mut x[0]));
                    if ample != Caught::Done(()) {
                        return Ok(());
                    }
                    under(budget, || m.exec(op, &a, &mut y[0]));
                    if x[0] != y[0] {
                        same = differ(SET_OPS[op as usize], format!("{:?}", x[0]), format!("{:?}", y[0]));
                    }
                    h = y[0].iter().fold(mix(h, op as u64), |h, x| mix(h, *x));
                    kind = 1;
                    if scarce {
                        match op {
                            Op::Step | Op::Drain => st.probe(1),
                            Op::Feed => st.probe(2),
                            _ => {}
                        }
                    }
                }
                EXPORT | IMPORT => {
                    let (form, mode, len) = (g(1) % 10, g(2) % 3, g(3) as usize % ARRAYS.len());
                    kind = 2;
                    let (x, y) = bufs.split_at_mut(1);
                    let (x, y) = (&mut x[0], &mut y[0]);
                    for b in [&mut *x, &mut *y] {
                        b.clear();
                        b.resize((words + 2).saturating_sub(g(4) as usize % 4), 0xABCD);
                    }
                    if e.op == EXPORT {
                        if form == F_VEC {
                            continue;
                        }
                        let ample = twin.save(r, form, mode, len, x);
                        if ample == End::Panicked {
                            continue;
                        }
                        let end = under(budget, || m.save(r, form, mode, len, y));
                        if ample != end || x != y {
                            same = differ("export", format!("{ample:?} {x:x?}"), format!("{end:?} {y:x?}"));
                        }
                        if end == End::Refused && scarce {
                            st.probe(0);
                        }
                        h = y.iter().fold(mix(h, end as u64), |h, x| mix(h, *x));
                    } else {
                        let mut z = g(5);
                        for v in x.iter_mut() {
                            *v = match g(4) % 6 {
                                0 => 0,
                                1 => splitmix(&mut z),
                                2 => u64::MAX,
                                3 => splitmix(&mut z) & splitmix(&mut z) & splitmix(&mut z),
                                4 => 1 << (splitmix(&mut z) % 64),
                                _ => z,
                            };
                        }
                        let ample = twin.load(r, form, mode, len, x);
                        if ample == End::Panicked {
                            continue;
                        }
                        let end = under(budget, || m.load(r, form, mode, len, x));
                        if ample != end {
                            same = differ("import", format!("{ample:?}"), format!("{end:?}"));
                        }
                        if scarce {
                            st.fault(9);
                            if end == End::Refused {
                                st.probe(0);
                            }
                        }
                        h = mix(h, end as u64);
                    }
                }
                FORMAT => {
                    kind = 3;
                    let (x, y) = texts.split_at_mut(1);
                    let (x, y) = (&mut x[0], &mut y[0]);
                    for b in [&mut *x, &mut *y] {
                        b.text.clear();
                        b.cap = g(2) as usize % (b.text.capacity() + 1);
                    }
                    let ample = twin.text(r, g(1), x);
                    let end = under(budget, || m.text(r, g(1), y));
                    if ample != end || x.text != y.text {
                        same = differ("format", format!("{ample:?} {:?}", x.text), format!("{end:?} {:?}", y.text));
                    }
                    if end.is_err() && scarce {
                        st.fault(8);
                    }
                    h = mix_str(mix(h, end.is_ok() as u64), &y.text);
                }
                HASH | COMPARE => {
                    kind = 4;
                    let r2 = g(1) as usize % REGS;
                    let (ample, end) = if e.op == HASH {
                        (twin.hash(r), under(budget, || m.hash(r)))
                    } else {
                        (twin.relate(r, r2), under(budget, || m.relate(r, r2)))
                    };
                    if ample != end {
                        same = differ(OPS[e.op], ample.to_string(), end.to_string());
                    }
                    h = mix(h, end);
                }
                WRITE => {
                    kind = 5;
                    let fail = Fail { kind: (g(2) % 3 == 0) as u64, at: g(3), id: g(5) };
                    let (x, y) = toks.split_at_mut(1);
                    let write = |m: &dyn MemMachine, buf: &mut Vec<Tok>| {
                        buf.clear();
                        let mut o = TokOut { buf, calls: Calls { fail, ..Calls::default() }, readable: g(4) % 2 == 1, nonce: g(5) };
                        let r = m.tok_ser(r, &mut o);
                        (r, o.calls.fired)
                    };
                    let ample = write(&*twin, &mut x[0]);
                    let end = under(budget, || write(&*m, &mut y[0]));
                    if ample != end || x[0] != y[0] {
                        same = differ("write", format!("{ample:?} {:?}", x[0]), format!("{end:?} {:?}", y[0]));
                    }
                    if end.1 && scarce {
                        st.fault(7);
                    }
                    h = mix(h, y[0].len() as u64);
                    if end.0.is_ok() {
                        let mut t = x[0].clone();
                        if g(4) / 2 % 2 == 1 {
                            // Another writer's document.
                            for (k, t) in t.iter_mut().enumerate() {
                                if let Tok::Int(_, v) = t {
                                    *v ^= 1u128 << ((g(5) >> (k % 8)) % 64);
                                }
                            }
                        }
                        wires[g(1) as usize % 2] = Some(t);
                    }
                }
                READ => {
                    kind = 6;
                    let Some(t) = &wires[g(1) as usize % 2] else { continue };
                    let fail = Fail { kind: (g(2) % 3 == 0) as u64, at: g(3), id: 7 };
                    let manner = Manner { hint: g(4) % 6, width: g(5) % 5, end: g(6) % 3, ident: g(7) % 4, strict: false, readable: g(8) % 2 == 1 };
                    let read = |m: &mut dyn MemMachine| {
                        let mut src = TokIn::new(t, fail, manner);
                        let r = m.tok_de(r, &mut src);
                        (r, src.pos, src.calls.fired)
                    };
                    let ample = read(&mut *twin);
                    let end = under(budget, || read(&mut *m));
                    if ample != end {
                        same = differ("read", format!("{ample:?}"), format!("{end:?}"));
                    }
                    if scarce {
                        st.probe(if end.0.is_ok() { 4 } else { 3 });
                        if end.2 {
                            st.fault(7);
                        }
                    }
                    h = mix(h, end.1 as u64);
                }
                FOREIGN => {
                    // Sent by a peer that has all the memory it needs.
                    let mut t = Vec::with_capacity(tok_cap);
                    foreign(meta, &vars, e.a.get(1..).unwrap_or(&[]), &mut t);
                    wires[g(0) as usize % 2] = Some(t);
                }
                EXHAUST => {
                    budget = g(0) as i64 % 4;
                    st.fault(0);
                }
                _ => {
                    budget = -1;
                    st.probe(5);
                }
            }
            same?;
            if kind > 0 {
                if scarce {
                    st.fault(kind);
                    without += 1;
                } else {
                    st.probe(6);
                }
                st.state(h);
            }
            // What the sets hold now, read without memory.
            for r in 0..REGS {
                let (x, y) = out.split_at_mut(1);
                x[0].clear();
                y[0].clear();
                twin.contents(r, &mut x[0]);
                twin.members(r, &mut x[0]);
                under(budget, || {
                    m.contents(r, &mut y[0]);
                    m.members(r, &mut y[0]);
                });
                st.checks += 1;
                if x[0] != y[0] {
                    return differ("contents", format!("set {r} holds {:?}", x[0]), format!("set {r} holds {:?}", y[0]));
                }
            }
            st.observe(REFUSED.with(|x| x.get()) + GRANTED.with(|x| x.get()));
        }
        st.nontrivial = without >= 5;
        Ok(())
    }
}

fn operands(rng: &mut Rng, m: &ShapeMeta, op: Op) -> Vec<u64> {
    let var = |rng: &mut Rng| callers::variant(rng, m);
    let reg = |rng: &mut Rng| rng.below(REGS as u64);
    let it = |rng: &mut Rng| rng.below(ITS as u64);
    let max = m.max() as u64 + 2;
    match op {
        Op::Make => vec![reg(rng), rng.below(10), var(rng)],
        Op::Fill => {
            let mut a = vec![reg(rng)];
            a.extend(callers::pattern(m, rng.below(10), rng.next()).into_iter().map(|x| x as u64));
            a
        }
        Op::Bin => vec![reg(rng), rng.below(8), reg(rng), reg(rng)],
        Op::BinV => vec![reg(rng), rng.below(4), reg(rng), var(rng)],
        Op::Assign | Op::Bulk | Op::Compl | Op::Copy => vec![reg(rng), rng.below(4), reg(rng)],
        Op::AssignV => vec![reg(rng), rng.below(4), var(rng)],
        Op::Bare => vec![reg(rng), rng.below(4), var(rng), var(rng)],
        Op::BareS => vec![reg(rng), rng.below(4), var(rng), reg(rng)],
        Op::Rel => vec![reg(rng), reg(rng)],
        Op::Macro => vec![reg(rng), rng.below(zoo::MACROS), var(rng), var(rng), reg(rng), reg(rng)],
        Op::Feed => {
            let kind = rng.below(8);
            let mut a = vec![reg(rng), kind, u64::MAX, if rng.pct(20) { rng.below(5) } else { u64::MAX }, rng.below(6)];
            for _ in 0..if rng.pct(10) { rng.below(200) } else { rng.below(10) } {
                a.push(if matches!(kind, 0 | 2 | 6 | 7) { var(rng) } else { reg(rng) });
            }
            a
        }
        Op::Operand => vec![reg(rng), rng.below(3), rng.below(4), var(rng), reg(rng), 0],
        Op::Iter => vec![it(rng), reg(rng), rng.below(2)],
        Op::Step => vec![it(rng), rng.below(STEPS), if rng.pct(50) { rng.below(6) } else { rng.below(max) }],
        Op::CloneIt => vec![it(rng), it(rng)],
        Op::Drain => vec![it(rng), rng.below(DRAINS), rng.below(6)],
        Op::DropIt => vec![it(rng)],
        Op::Die => vec![],
        _ => vec![reg(rng), var(rng)],
    }
}

fn main() {
    kernel::main(&C12)
}
