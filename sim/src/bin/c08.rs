//! C08: nodes that gossip sets and merge by union converge, and never invent or lose members.
use enumset_sim::callers::{self, SYSTEM};
use enumset_sim::disk::{Fate, File};
use enumset_sim::kernel::{self, *};
use enumset_sim::numm::*;
use enumset_sim::rng::{mix, mix_str, splitmix, Rng};
use enumset_sim::serm::{SerMachine, FMTS};
use enumset_sim::setm::{check_reg, read_set, Expect, Machine, Model, Op, Sets};
use enumset_sim::zoo::{self, Group, ShapeMeta};
use enumset_sim::bits;
use std::collections::{BTreeMap, BTreeSet};

trait Both: NumMachine + SerMachine {}
impl<X: NumMachine + SerMachine> Both for X {}
enum Sut {
    Num(Box<dyn NumMachine>),
    Ser(Box<dyn Both>),
}
impl Sut {
    fn num(&mut self) -> &mut dyn NumMachine {
        match self {
            Sut::Num(m) => &mut **m,
            Sut::Ser(m) => &mut **m as &mut dyn NumMachine,
        }
    }
    fn machine(&self) -> &dyn Machine {
        match self {
            Sut::Num(m) => &**m as &dyn Machine,
            Sut::Ser(m) => &**m as &dyn Machine,
        }
    }
}

fn make_core(name: &str) -> Option<Sut> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Some(Sut::Num(Box::new(Sets::<$t>::new()))),)*
                _ => None,
            }
        };
    }
    enumset_sim::for_core_shapes!(pick)
}
fn make_ser(name: &str) -> Option<Sut> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Some(Sut::Ser(Box::new(Sets::<$t>::new()))),)*
                _ => None,
            }
        };
    }
    enumset_sim::for_ser_shapes!(pick)
}

const OPS: &[&str] = &[
    "add", "add-many", "add-from", "send", "snapshot", "sync", "crash", "restart", "partition", "heal", "laws",
];
const ADD: usize = 0;
const MANY: usize = 1;
const FROM: usize = 2;
const SEND: usize = 3;
const SNAP: usize = 4;
const SYNC: usize = 5;
const CRASH: usize = 6;
const RESTART: usize = 7;
const PART: usize = 8;
const HEAL: usize = 9;
const LAWS: usize = 10;

const FAULTS: &[&str] = &[
    "message lost", "message duplicated", "message overtaken by a later one", "message cut off by a partition",
    "message to a node that is down", "partition", "crash", "unsynced snapshot lost", "unsynced snapshot torn (discarded)",
    "restart from nothing", "local update interrupted by a panic", "message delayed a hundredfold",
];
const PROBES: &[&str] = &[
    "merge that grew a set", "merge that changed nothing", "restart from a snapshot", "restart lost members",
    "members came back through gossip", "final state reached only in the last allowed round", "laws checked on three different sets",
    "exchange by integer", "exchange by array, slice or vector", "exchange by serialized document", "exchange of the set itself",
    "integer too small, fell back to words", "everything a node held survived only elsewhere",
];

/// Exchange forms: the ten numeric ones, the set itself, then the wire formats.
const F_DIRECT: u64 = 10;
const F_SER: u64 = 11;
/// State, incoming, scratch, other.
const STATE: usize = 0;
const INC: usize = 1;
const TMP: usize = 2;
const OTHER: usize = 3;

#[derive(Clone)]
struct Packet {
    form: u64,
    len: usize,
    bytes: Vec<u8>,
    holds: BTreeSet<u32>,
}
struct Node {
    m: Sut,
    model: Model,
    up: bool,
    file: File<Packet>,
}
impl Node {
    fn new(meta: &'static ShapeMeta) -> Self {
        let m = make_core(meta.name).or_else(|| make_ser(meta.name)).expect("known shape");
        Node { m, model: Model::new(meta), up: true, file: File::default() }
    }
    fn has_ser(&self) -> bool {
        matches!(self.m, Sut::Ser(_))
    }
    /// One operation on the real sets and on the model.
    fn step(&mut self, op: Op, a: &[u64]) -> Result<(), Violation> {
        let Some(a) = self.model.normalise(op, a) else { return Ok(()) };
        let mut out = Vec::new();
        self.m.num().exec(op, &a, &mut out);
        let m = self.m.machine();
        match self.model.apply(op, &a, &out, &|r| read_set(m, r)) {
            Expect::Out(want) if want != out => {
                Violation::new(format!("result:{op:?}"), format!("{op:?} {a:?} returned {out:?}, expected {want:?}"))
            }
            Expect::Judged(r) => r,
            _ => Ok(()),
        }
    }
    fn check(&self, r: usize, full: bool) -> Result<(), Violation> {
        check_reg(self.m.machine(), &self.model, r, full)
    }
    /// Merges register `b` into register `r` by the given way of writing a union.
    fn merge(&mut self, r: usize, b: usize, how: u64, st: &mut Stats) -> Result<(), Violation> {
        let before = self.model.regs[r].clone();
        let want: BTreeSet<u32> = before.union(&self.model.regs[b]).copied().collect();
        let (r64, b64) = (r as u64, b as u64);
        let never = u64::MAX;
        match how % 16 {
            0 => self.step(Op::Bin, &[r64, 0, r64, b64])?,
            1 => self.step(Op::Bin, &[r64, 0, b64, r64])?,
            2 => self.step(Op::Bin, &[r64, 4, r64, b64])?,
            3 => self.step(Op::Bin, &[r64, 4, b64, r64])?,
            4 => self.step(Op::Assign, &[r64, 0, b64])?,
            5 => self.step(Op::Bulk, &[r64, 0, b64])?,
            6 => self.step(Op::Feed, &[r64, 1, never, never, how / 16, b64])?,
            7 => self.step(Op::Feed, &[r64, 3, never, never, how / 16, b64, r64, b64])?,
            8 => self.step(Op::Feed, &[r64, 4, never, never, how / 16, r64, b64])?,
            9 => self.step(Op::Feed, &[r64, 5, never, never, how / 16, b64, r64])?,
            10 | 11 => {
                let d = &self.model.meta.declared;
                let items: Vec<u64> = (0..d.len()).filter(|i| self.model.regs[b].contains(&d[*i])).map(|i| i as u64).collect();
                let mut a = vec![r64, if how % 16 == 10 { 0 } else { 2 }, never, never, how / 16];
                a.extend(items);
                if how % 16 == 11 {
                    let d = &self.model.meta.declared;
                    a.extend((0..d.len()).filter(|i| before.contains(&d[*i])).map(|i| i as u64));
                }
                self.step(Op::Feed, &a)?
            }
            12 => {
                // A member of the incoming set through the union macro, where there is one.
                let d = &self.model.meta.declared;
                match (0..d.len()).find(|i| self.model.regs[b].contains(&d[*i])) {
                    Some(i) => self.step(Op::Macro, &[r64, 1, i as u64, i as u64, r64, b64])?,
                    None => self.step(Op::Bulk, &[r64, 0, b64])?,
                }
                if self.model.regs[r] != want {
                    // An enum without the macro: nothing happened.
                    self.step(Op::Bin, &[r64, 0, r64, b64])?
                }
            }
            13 => {
                // By element.
                let d = &self.model.meta.declared;
                let items: Vec<u64> = (0..d.len()).filter(|i| self.model.regs[b].contains(&d[*i])).map(|i| i as u64).collect();
                for i in items {
                    self.step(Op::Insert, &[r64, i])?
                }
            }
            14 => self.step(Op::Operand, &[r64, 0, 0, 0, b64, 0])?,
            _ => self.step(Op::Operand, &[r64, 1, 0, r64, b64, 0])?,
        }
        if self.model.regs[r] != want {
            return Violation::new("model", "the harness merged something else");
        }
        self.check(r, true)?;
        st.checks += 1;
        if want.len() > before.len() {
            st.probe(0);
        } else {
            st.probe(1);
        }
        Ok(())
    }
    fn encode(&mut self, r: usize, form: u64, salt: u64, st: &mut Stats) -> Result<Packet, Violation> {
        let holds = self.model.regs[r].clone();
        let max = self.model.meta.max() as usize;
        let words = max / 64 + 1;
        let mut form = form % (F_SER + FMTS.len() as u64);
        if form >= F_SER && !self.has_ser() {
            form -= F_SER;
        }
        if form >= F_SER {
            let Sut::Ser(m) = &self.m else { unreachable!() };
            let mut bytes = Vec::new();
            if let Err(e) = m.ser(0, form - F_SER, r, 99, 0, &mut bytes) {
                return Violation::new("encode:serde", format!("{holds:?} cannot be written as {}: {e}", FMTS[(form - F_SER) as usize]));
            }
            st.probe(9);
            return Ok(Packet { form, len: 0, bytes, holds });
        }
        if form == F_DIRECT {
            st.probe(10);
            let bytes = bits::to_bytes(&bits::to_words(&holds, words));
            return Ok(Packet { form, len: words, bytes, holds });
        }
        let mode = if salt % 3 == 0 { M_PANIC } else { M_TRY };
        let mut buf = Vec::new();
        let mut len = (0..ARRAYS.len()).find(|i| ARRAYS[*i] >= words).unwrap_or(ARRAYS.len() - 1);
        let mut end = End::Absent;
        if form <= F_REPR {
            let fits = form == F_REPR || holds.iter().all(|d| *d < int_bits(form));
            if fits {
                end = self.m.num().save(r, form, mode, 0, &mut buf);
                if !matches!(end, End::Ok | End::Absent) {
                    return Violation::new("encode:int", format!("{holds:?} fits {} but the export ended as {end:?}", FORMS[form as usize]));
                }
                if end == End::Ok {
                    st.probe(7);
                }
            }
            if !fits {
                // A node cannot know beforehand: it tries, is refused and falls back to words.
                end = self.m.num().save(r, form, mode, 0, &mut buf);
                if end == End::Ok {
                    return Violation::new("encode:cut", format!("{holds:?} does not fit {} but the export gave {buf:x?}", FORMS[form as usize]));
                }
                buf.clear();
            }
            if end != End::Ok {
                st.probe(11);
                form = F_SLICE;
            }
        }
        if end != End::Ok {
            if form == F_ARRAY && ARRAYS[len] < words {
                form = F_SLICE;
            }
            if form == F_ARRAY && salt % 5 == 0 && len + 1 < ARRAYS.len() {
                len += 1;
            }
            if form == F_SLICE {
                // Whatever was in the buffer before must be overwritten.
                buf = vec![salt | 1; words + (salt % 4) as usize / 3];
            }
            end = self.m.num().save(r, form, mode, len, &mut buf);
            if end != End::Ok {
                return Violation::new("encode:words", format!("{holds:?} exported as {} ended as {end:?}", FORMS[form as usize]));
            }
            st.probe(8);
        }
        Ok(Packet { form, len, bytes: bits::to_bytes(&buf), holds })
    }
    /// Loads a packet into register `r`.
    fn decode(&mut self, r: usize, p: &Packet, salt: u64) -> Result<(), Violation> {
        let name = if p.form < 10 { FORMS[p.form as usize] } else if p.form == F_DIRECT { "set" } else { FMTS[(p.form - F_SER) as usize] };
        if p.form >= F_SER {
            let Sut::Ser(m) = &mut self.m else { return Violation::new("harness", "no serde here") };
            let mut src = &p.bytes[..];
            if let Err(e) = m.de(0, p.form - F_SER, r, 99, &mut src) {
                return Violation::new(format!("decode:{name}"), format!("{:?} as {name} was rejected: {e}", p.holds));
            }
        } else if p.form == F_DIRECT {
            let d = &self.model.meta.declared;
            let mut a = vec![r as u64];
            a.extend((0..d.len()).filter(|i| p.holds.contains(&d[*i])).map(|i| i as u64));
            self.step(Op::Fill, &a)?;
        } else {
            let words = bits::from_bytes(&p.bytes, p.bytes.len() / 8);
            // Valid data is read alike by every mode, and words by every word form.
            let mode = [M_PANIC, M_TRY, M_TRUNC, M_UNCHECKED][(salt % 4) as usize];
            let form = if p.form >= F_ARRAY && salt % 3 == 0 { F_SLICE } else { p.form };
            let end = self.m.num().load(r, form, mode, p.len, &words);
            if end != End::Ok {
                return Violation::new(format!("decode:{name}"), format!("{:?} as {name} was rejected: {end:?}", p.holds));
            }
        }
        self.model.regs[r] = p.holds.clone();
        if let Err(v) = self.check(r, true) {
            return Violation::new(format!("decode:{name}:{}", v.class), format!("{:?} arrived through {name}, but {}", p.holds, v.detail));
        }
        Ok(())
    }
    fn laws(&mut self, salt: u64, st: &mut Stats) -> Result<(), Violation> {
        // (a|b)|b = a|b = b|a, and (a|b)|c = a|(b|c), each side by another way of writing it.
        let mut x = salt;
        let mut how = || splitmix(&mut x);
        let (a, b, c) = (self.model.regs[STATE].clone(), self.model.regs[INC].clone(), self.model.regs[OTHER].clone());
        if a != b && b != c && a != c {
            st.probe(6);
        }
        self.step(Op::Copy, &[TMP as u64, 0, STATE as u64])?;
        self.merge(TMP, INC, how(), st)?;
        let once = read_set(self.m.machine(), TMP);
        self.merge(TMP, INC, how(), st)?;
        let twice = read_set(self.m.machine(), TMP);
        self.merge(TMP, OTHER, how(), st)?;
        let left = read_set(self.m.machine(), TMP);
        self.step(Op::Copy, &[TMP as u64, 1, INC as u64])?;
        self.merge(TMP, STATE, how(), st)?;
        let other = read_set(self.m.machine(), TMP);
        self.step(Op::Copy, &[TMP as u64, 0, INC as u64])?;
        self.merge(TMP, OTHER, how(), st)?;
        self.merge(TMP, STATE, how(), st)?;
        let right = read_set(self.m.machine(), TMP);
        if once != twice || once != other || left != right {
            return Violation::new("laws", format!("a={a:?} b={b:?} c={c:?}: {once:?} {twice:?} {other:?} {left:?} {right:?}"));
        }
        self.step(Op::Rel, &[TMP as u64, STATE as u64])
    }
}

struct C08;
const GRID: u64 = 4096;

impl Engine for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            60_000
        } else {
            4_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded schedule of two to five nodes adding members, gossiping, snapshotting, crashing and being partitioned, for \
         one of 219 enums, followed by healing and gossip rounds on a ring; non-trivial: distinct script with at least \
         three deliveries and one fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["enumset union forms and exchange forms", "enumset_derive (generated code)", "serde, serde_json, bincode (serde enums)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["network", "disk (snapshots carry a checksum: a torn one is discarded)", "nodes (seeded scheduler)", "per-node reference sets"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["messages arrive unaltered or not at all (altered ones are C04 and C05)", "after healing every round delivers one message from every node to its successor"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, sets of all nodes)"
    }

    fn generate(&self, rng: &mut Rng, run: u64, tier: Tier) -> Script {
        let mut shapes = zoo::shapes(Group::Core);
        shapes.extend(zoo::shapes(Group::Ser));
        let m = shapes[if run < shapes.len() as u64 * 4 { run as usize % shapes.len() } else { rng.below(shapes.len() as u64) as usize }];
        let nodes = rng.range(2, 5);
        let w = callers::swarm(rng, &[10, 5, 4, 40, 8, 5, 0, 0, 0, 0, 4]);
        let (loss, dup, slow) = (rng.below(4) * 15, rng.below(4) * 12, rng.below(4) * 10);
        let sys = rng.below(4);
        let steps = if tier == Tier::Thorough { rng.range(20, 120) } else { rng.range(12, 60) };
        // Some runs stick to one or two exchange forms.
        let forms: Vec<u64> = if rng.pct(40) { vec![rng.below(17), rng.below(17)] } else { (0..17).collect() };
        let tasks = nodes + (sys > 0) as u64;
        let mut down = vec![false; nodes as usize];
        let ev = callers::interleave(rng, tasks, steps, 0, None, |rng, task| {
            if task == nodes {
                let n = rng.below(nodes);
                return match rng.below(6) {
                    0 => (PART, vec![rng.range(1, (1 << nodes) - 2)]),
                    1 => (HEAL, vec![]),
                    2 => (SYNC, vec![n]),
                    3 if !down[n as usize] => (SNAP, vec![n, *rng.pick(&forms), rng.next() % GRID, 1]),
                    4 if !down[n as usize] => (MANY, vec![n, rng.below(10), rng.next(), rng.next() % GRID]),
                    _ if down[n as usize] => {
                        down[n as usize] = false;
                        (RESTART, vec![n, rng.next() % GRID])
                    }
                    _ => {
                        down[n as usize] = true;
                        (CRASH, vec![n, rng.next()])
                    }
                };
            }
            let n = task;
            let op = rng.weighted(&w);
            let a = match op {
                ADD => vec![n, callers::variant(rng, m)],
                MANY => vec![n, rng.below(10), rng.next(), rng.next() % GRID],
                FROM => {
                    let kind = rng.below(2);
                    let mut a = vec![n, kind, if rng.pct(50) { rng.below(6) } else { u64::MAX }, if rng.pct(20) { rng.below(6) } else { u64::MAX }, rng.below(6)];
                    for _ in 0..rng.below(8) {
                        a.push(if kind == 0 { callers::variant(rng, m) } else { rng.below(4) });
                    }
                    a
                }
                SEND => {
                    let to = (n + 1 + rng.below(nodes - 1)) % nodes;
                    let scale = if rng.pct(slow) { 20_000 } else { 200 };
                    let (d, d2) = (rng.delay(scale), rng.delay(scale));
                    let fate = if rng.pct(loss) { 1 } else if rng.pct(dup) { 2 } else { 0 };
                    vec![n, to, *rng.pick(&forms), rng.next() % GRID, fate, d, d2]
                }
                SNAP => vec![n, *rng.pick(&forms), rng.next() % GRID, rng.below(2)],
                SYNC => vec![n],
                _ => vec![n, rng.next() % GRID, rng.below(10), rng.next(), rng.below(10), rng.next()],
            };
            (op, a)
        });
        let mut ev = ev;
        if rng.pct(60) {
            for n in (0..nodes).rev() {
                ev.insert(0, Ev { t: 0, task: n, op: MANY, a: vec![n, rng.below(10), rng.next(), rng.next() % GRID] });
            }
        }
        let ev = ev.into_iter().map(|e| if e.task == nodes { Ev { task: SYSTEM, ..e } } else { e }).collect();
        Script { shape: m.name.to_string(), cfg: vec![nodes, rng.next() % GRID], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        if meta.group == Group::Ver {
            return Ok(());
        }
        let n = (s.cfg.first().copied().unwrap_or(2) as usize).clamp(2, 5);
        let salt0 = s.cfg.get(1).copied().unwrap_or(0);
        let mut nodes: Vec<Node> = (0..n).map(|_| Node::new(meta)).collect();
        let mut ever: BTreeSet<u32> = BTreeSet::new();
        // Messages by arrival time and sequence number.
        let mut wire: BTreeMap<(u64, u64), (usize, usize, u64, u64, Packet)> = BTreeMap::new();
        let mut seq = 0;
        let mut newest: BTreeMap<(usize, usize), u64> = BTreeMap::new();
        let mut cut: u64 = 0;
        let (mut deliveries, mut faults) = (0u64, 0u64);
        let shape_h = mix_str(5, meta.name);
        let side = |cut: u64, i: usize| cut >> i & 1;

        let mut deliver = |nodes: &mut Vec<Node>, cut: u64, k: (u64, u64), x: (usize, usize, u64, u64, Packet), st: &mut Stats, faults: &mut u64| -> Result<(), Violation> {
            let (from, to, sent, salt, p) = x;
            if side(cut, from) != side(cut, to) {
                st.fault(3);
                *faults += 1;
                return Ok(());
            }
            if !nodes[to].up {
                st.fault(4);
                *faults += 1;
                return Ok(());
            }
            let last = newest.entry((from, to)).or_insert(0);
            if sent < *last {
                st.fault(2);
                *faults += 1;
            }
            *last = sent.max(*last);
            let what = format!("at {} node {to} received {:?} from node {from}", k.0, p.holds);
            let annotate = |v: Violation| Violation { class: v.class, detail: format!("{what}: {}", v.detail) };
            let node = &mut nodes[to];
            // The previous message stays around as a third set for the laws.
            node.step(Op::Copy, &[OTHER as u64, 0, INC as u64]).map_err(annotate)?;
            node.decode(INC, &p, salt).map_err(annotate)?;
            let before = node.model.regs[STATE].clone();
            node.merge(STATE, INC, salt / 7, st).map_err(annotate)?;
            node.check(INC, false).map_err(annotate)?;
            if !before.is_subset(&node.model.regs[STATE]) {
                return Violation::new("shrunk", what);
            }
            st.observe(mix(to as u64, node.model.regs[STATE].len() as u64));
            Ok(())
        };

        for (i, e) in s.ev.iter().enumerate() {
            while let Some((k, _)) = wire.first_key_value() {
                if k.0 > e.t {
                    break;
                }
                let (k, x) = wire.pop_first().unwrap();
                deliveries += 1;
                deliver(&mut nodes, cut, k, x, st, &mut faults)?;
            }
            st.ops[e.op] += 1;
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            let id = g(0) as usize % n;
            let what = format!("event {i} {} {:?} on {}", OPS[e.op], e.a, meta.name);
            let annotate = |v: Violation| Violation { class: v.class, detail: format!("{what}: {}", v.detail) };
            let node = &mut nodes[id];
            if !node.up && !matches!(e.op, RESTART | PART | HEAL) {
                continue;
            }
            match e.op {
                ADD => {
                    node.step(Op::Insert, &[STATE as u64, g(1)]).map_err(annotate)?;
                    ever.extend(&node.model.regs[STATE]);
                }
                MANY => {
                    let mut a = vec![TMP as u64];
                    a.extend(callers::pattern(meta, g(1), g(2)).into_iter().map(|x| x as u64));
                    node.step(Op::Fill, &a).map_err(annotate)?;
                    node.merge(STATE, TMP, g(3), st).map_err(annotate)?;
                    ever.extend(&node.model.regs[STATE]);
                }
                FROM => {
                    let mut a = e.a.clone();
                    a[0] = STATE as u64;
                    a[1] %= 2;
                    if a.len() > 5 && a[2] <= a.len() as u64 - 5 {
                        st.fault(10);
                        faults += 1;
                    }
                    node.step(Op::Feed, &a).map_err(annotate)?;
                    ever.extend(&node.model.regs[STATE]);
                }
                SEND => {
                    let to = g(1) as usize % n;
                    if to == id {
                        continue;
                    }
                    let p = node.encode(STATE, g(2), g(3), st).map_err(annotate)?;
                    node.check(STATE, false).map_err(annotate)?;
                    if g(4) % 3 == 1 {
                        st.fault(0);
                        faults += 1;
                        continue;
                    }
                    if g(5) > 4000 {
                        st.fault(11);
                    }
                    seq += 1;
                    wire.insert((e.t + g(5), seq), (id, to, e.t, g(3), p.clone()));
                    if g(4) % 3 == 2 {
                        st.fault(1);
                        faults += 1;
                        seq += 1;
                        wire.insert((e.t + g(6), seq), (id, to, e.t, g(3) / 3, p));
                    }
                }
                SNAP => {
                    let p = node.encode(STATE, g(1), g(2), st).map_err(annotate)?;
                    node.file.write(p.bytes.clone(), Some(p));
                    if g(3) == 1 {
                        node.file.sync();
                    }
                }
                SYNC => node.file.sync(),
                CRASH => {
                    node.up = false;
                    st.fault(6);
                    faults += 1;
                    match node.file.crash(g(1)) {
                        Fate::Lost => st.fault(7),
                        Fate::Torn => st.fault(8),
                        _ => {}
                    }
                }
                RESTART => {
                    if node.up {
                        continue;
                    }
                    let held = node.model.regs[STATE].clone();
                    let file = std::mem::take(&mut node.file);
                    *node = Node::new(meta);
                    match file.seen().and_then(|x| x.intact.clone()) {
                        Some(p) => {
                            node.decode(STATE, &p, g(1)).map_err(annotate)?;
                            st.probe(2);
                        }
                        None => st.fault(9),
                    }
                    node.file = file;
                    if node.model.regs[STATE] != held {
                        st.probe(3);
                    }
                }
                PART => {
                    cut = g(0) & ((1 << n) - 1);
                    if cut != 0 && cut != (1 << n) - 1 {
                        st.fault(5);
                        faults += 1;
                    }
                }
                HEAL => cut = 0,
                _ => {
                    for (r, k) in [(INC, 2), (OTHER, 4)] {
                        if node.model.regs[r].is_empty() || g(k) >= 5 {
                            let mut a = vec![r as u64];
                            a.extend(callers::pattern(meta, g(k), g(k + 1)).into_iter().map(|x| x as u64));
                            node.step(Op::Fill, &a).map_err(annotate)?;
                        }
                    }
                    node.laws(g(1), st).map_err(annotate)?
                }
            }
            let node = &nodes[id];
            if node.up {
                node.check(STATE, true).map_err(annotate)?;
                st.checks += 1;
                if !node.model.regs[STATE].is_subset(&ever) {
                    return Violation::new("invented", what);
                }
            }
            let mut h = shape_h;
            for x in &nodes {
                h = x.model.regs[STATE].iter().fold(mix(h, x.up as u64 | 2), |h, d| mix(h, *d as u64 + 5));
            }
            st.state(h);
        }

        // Faults stop: everyone is up, the network works, what is under way arrives.
        for node in nodes.iter_mut().filter(|x| !x.up) {
            let file = std::mem::take(&mut node.file);
            *node = Node::new(meta);
            if let Some(p) = file.seen().and_then(|x| x.intact.clone()) {
                node.decode(STATE, &p, salt0)?;
                st.probe(2);
            } else {
                st.fault(9);
            }
            node.file = file;
        }
        while let Some((k, x)) = wire.pop_first() {
            deliveries += 1;
            deliver(&mut nodes, 0, k, x, st, &mut faults)?;
        }
        let goal: BTreeSet<u32> = nodes.iter().flat_map(|x| x.model.regs[STATE].iter().copied()).collect();
        for x in &nodes {
            if x.model.regs[STATE].is_empty() && !goal.is_empty() {
                st.probe(12);
                break;
            }
        }
        let mut x = salt0;
        let mut rounds = 0;
        for round in 1..n {
            let mut sent = Vec::new();
            for node in nodes.iter_mut() {
                sent.push(node.encode(STATE, splitmix(&mut x) % 17, splitmix(&mut x) % GRID, st)?);
            }
            for (i, p) in sent.into_iter().enumerate() {
                let to = (i + 1) % n;
                let before = nodes[to].model.regs[STATE].len();
                nodes[to].decode(INC, &p, splitmix(&mut x) % GRID)?;
                nodes[to].merge(STATE, INC, splitmix(&mut x) % GRID, st)?;
                if nodes[to].model.regs[STATE].len() != before {
                    rounds = round;
                    st.probe(4);
                }
                deliveries += 1;
            }
        }
        for (i, node) in nodes.iter().enumerate() {
            let got = read_set(node.m.machine(), STATE);
            if got != goal {
                return Violation::new("converge", format!("node {i} holds {got:?} after {} rounds, the survivors' union is {goal:?}", n - 1));
            }
            node.check(STATE, true)?;
            st.checks += 1;
        }
        if rounds == n - 1 {
            st.probe(5);
        }
        st.nontrivial = deliveries >= 3 && faults >= 1;
        Ok(())
    }
}

fn main() {
    kernel::main(&C08)
}
