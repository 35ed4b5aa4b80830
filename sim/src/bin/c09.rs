//! C09: sets published through shared words behave as one atomic set under every interleaving of accesses.
use enumset_sim::bits;
use enumset_sim::callers;
use enumset_sim::kernel::{self, *};
use enumset_sim::numm::*;
use enumset_sim::rng::{mix, mix_str, Rng};
use enumset_sim::setm::{check_reg, Expect, Model, Op, Sets};
use enumset_sim::zoo::{self, Group, ShapeMeta};
use std::collections::BTreeSet;

fn make(name: &str) -> Box<dyn NumMachine> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Box::new(Sets::<$t>::new()) as Box<dyn NumMachine>,)*
                _ => panic!("no shape {name}"),
            }
        };
    }
    enumset_sim::for_core_shapes!(pick)
}

const OPS: &[&str] = &["step", "die"];
const STEP: usize = 0;
const DIE: usize = 1;

const FAULTS: &[&str] = &[
    "spurious compare-and-swap failure", "compare-and-swap lost to another caller", "death between operations",
    "death inside a compare-and-swap loop", "death of a lock holder before its first write", "death of a lock holder between writes",
    "death of a lock holder before the release", "death during recovery", "stall inside an operation",
];
const PROBES: &[&str] = &[
    "update took effect", "read took effect", "fetch-or, fetch-and or fetch-xor", "read retried: version had moved",
    "torn words seen and rejected", "lock of a dead caller recovered", "undo image restored", "waited for a live lock holder",
    "compare-and-swap against the re-encoded set", "operation completed after faults stopped", "word changed and changed back (ABA)",
    "read-only operation by compare-and-swap form", "seqlock read accepted",
];

/// What a caller may invoke.
const KINDS: &[&str] = &[
    "insert", "remove", "contains", "insert_all", "remove_all", "union", "intersection", "difference", "symmetric", "clear",
    "complement", "relations", "len", "fetch_or", "fetch_and", "fetch_xor", "assign-variant", "replace", "equals-variant", "operator-variant",
];
const FETCH_OR: u64 = 13;
const FETCH_XOR: u64 = 15;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Phase {
    Idle,
    // one atomic word
    Load,
    Cas,
    Fetch,
    // several words under a version counter
    Version,
    Lock,
    Fetch1(usize),
    Undo(usize),
    Flag,
    Store(usize),
    Release,
    Read(usize),
    Again,
    // taking over from a dead caller
    Take,
    Flagged,
    Restore(usize),
    Unlock,
}

struct Caller {
    m: Box<dyn NumMachine>,
    life: u64,
    phase: Phase,
    kind: u64,
    args: Vec<u64>,
    op: Op,
    operand: BTreeSet<u32>,
    out: Vec<u64>,
    /// What the shared word or words held when they were loaded, and what they are to hold.
    seen: Vec<u64>,
    next: Vec<u64>,
    version: u64,
    last: u64,
}
/// The simulated shared memory.
struct Shared {
    word: u128,
    version: u64,
    owner: (usize, u64),
    data: Vec<u64>,
    undo: Vec<u64>,
    flag: u64,
}
struct World {
    meta: &'static ShapeMeta,
    mem: Shared,
    /// The sequential set: register 0; register 1 stands for the operand of the operation taking effect.
    model: Model,
    callers: Vec<Caller>,
    seq: bool,
    form: u64,
    len: usize,
    past: BTreeSet<u128>,
}

const READ_ONLY: [Op; 4] = [Op::Contains, Op::Rel, Op::Len, Op::EqV];

impl World {
    fn new(meta: &'static ShapeMeta, cfg: &[u64]) -> World {
        let g = |i: usize| cfg.get(i).copied().unwrap_or(0);
        let words = meta.max() as usize / 64 + 1;
        let mut forms: Vec<u64> = (0..6).filter(|f| meta.declared.is_empty() || meta.max() < int_bits(*f)).collect();
        if meta.repr_bits > 0 {
            forms.push(F_REPR);
        }
        let seq = g(0) % 3 == 0 || forms.is_empty();
        let form = if seq { 0 } else { forms[g(1) as usize % forms.len()] };
        let len = if seq { words + (g(1) % 3) as usize / 2 } else { 2 };
        let callers = (0..g(2).clamp(1, 6)).map(|_| Caller {
            m: make(meta.name),
            life: 0,
            phase: Phase::Idle,
            kind: 0,
            args: vec![],
            op: Op::Die,
            operand: BTreeSet::new(),
            out: vec![],
            seen: vec![],
            next: vec![],
            version: 0,
            last: 0,
        });
        World {
            meta,
            mem: Shared { word: 0, version: 0, owner: (0, 0), data: vec![0; len], undo: vec![0; len], flag: u64::MAX },
            model: Model::new(meta),
            callers: callers.collect(),
            seq,
            form,
            len,
            past: BTreeSet::new(),
        }
    }
    fn what(&self, t: usize) -> String {
        let c = &self.callers[t];
        let place = if self.seq { format!("{} versioned words", self.len) } else { format!("one {}", FORMS[self.form as usize]) };
        format!("caller {t} {} {:?} with {:?} on {} in {place}", KINDS[c.kind as usize], c.args, c.operand, self.meta.name)
    }
    fn fail<T>(&self, t: usize, class: &str, detail: String) -> Result<T, Violation> {
        let c = &self.callers[t];
        Violation::new(format!("{class}:{}", KINDS[c.kind as usize]), format!("{}: {detail}", self.what(t)))
    }
    /// Sets up an operation: register 0 will hold the shared set, register 1 the operand.
    fn invoke(&mut self, t: usize, kind: u64, a: u64, b: u64) {
        let mut kind = kind % KINDS.len() as u64;
        if self.seq && (FETCH_OR..=FETCH_XOR).contains(&kind) {
            kind = [3, 6, 8][(kind - FETCH_OR) as usize];
        }
        if self.meta.declared.is_empty() && matches!(kind, 0 | 1 | 2 | 16 | 18 | 19) {
            kind = 12;
        }
        let (op, args) = match kind {
            0 => (Op::Insert, vec![0, a]),
            1 => (Op::Remove, vec![0, a]),
            2 => (Op::Contains, vec![0, a]),
            3 => (Op::Bulk, vec![0, 0, 1]),
            4 => (Op::Bulk, vec![0, 1, 1]),
            5..=8 => (Op::Assign, vec![0, kind - 5, 1]),
            9 => (Op::Clear, vec![0]),
            10 => (Op::Compl, vec![0, b, 0]),
            11 => (Op::Rel, vec![0, 1]),
            12 => (Op::Len, vec![0]),
            13 => (Op::Assign, vec![0, 0, 1]),
            14 => (Op::Assign, vec![0, 1, 1]),
            15 => (Op::Assign, vec![0, 3, 1]),
            16 => (Op::AssignV, vec![0, b, a]),
            17 => (Op::Copy, vec![0, b, 1]),
            18 => (Op::EqV, vec![0, a]),
            _ => (Op::BinV, vec![0, b, 0, a]),
        };
        let Some(args) = self.model.normalise(op, &args) else { return };
        let items = callers::pattern(self.meta, b / 8, a);
        let mut fill = vec![1];
        fill.extend(items.iter().map(|x| *x as u64));
        let c = &mut self.callers[t];
        c.m.exec(Op::Fill, &fill, &mut c.out);
        (c.kind, c.op, c.args) = (kind, op, args);
        c.operand = items.iter().map(|i| self.meta.declared[*i]).collect();
        c.phase = match (self.seq, kind) {
            (true, _) => Phase::Version,
            (_, FETCH_OR..=FETCH_XOR) => Phase::Fetch,
            _ => Phase::Load,
        };
    }
    /// Takes register `r` of a caller into numeric form.
    fn encode(&mut self, t: usize, r: usize, how: u64) -> Result<Vec<u64>, Violation> {
        let c = &mut self.callers[t];
        let mode = how % 3;
        let (end, buf) = if self.seq {
            let mut buf = vec![how | 1; self.len];
            match ARRAYS.iter().position(|n| *n == self.len) {
                Some(i) if how % 2 == 0 => (c.m.save(r, F_ARRAY, mode, i, &mut buf), buf),
                _ => (c.m.save(r, F_SLICE, mode, 0, &mut buf), buf),
            }
        } else {
            let mut buf = Vec::new();
            (c.m.save(r, self.form, mode, 0, &mut buf), buf)
        };
        if end != End::Ok {
            return self.fail(t, "encode", format!("the export ended as {end:?}"));
        }
        Ok(buf)
    }
    /// Reads words into register 0 of a caller.
    fn decode(&mut self, t: usize, words: &[u64], how: u64) -> Result<(), Violation> {
        let mode = how % 4;
        let form = match ARRAYS.iter().position(|n| *n == self.len) {
            _ if !self.seq => (self.form, 0),
            Some(i) if how % 2 == 0 => (F_ARRAY, i),
            _ => (F_SLICE, 0),
        };
        let end = self.callers[t].m.load(0, form.0, mode, form.1, words);
        if end != End::Ok {
            return self.fail(t, "decode", format!("the shared words {words:x?} were rejected: {end:?}"));
        }
        Ok(())
    }
    /// Runs the operation of a caller on its private copy.
    fn compute(&mut self, t: usize) {
        let c = &mut self.callers[t];
        c.out.clear();
        let (op, args) = (c.op, c.args.clone());
        c.m.exec(op, &args, &mut c.out);
    }
    fn words(&self) -> Vec<u64> {
        bits::to_words(&self.model.regs[0], self.len)
    }
    /// The operation of a caller takes effect now.
    fn effect(&mut self, t: usize, st: &mut Stats) -> Result<(), Violation> {
        let before = self.model.regs[0].clone();
        self.model.regs[1] = self.callers[t].operand.clone();
        let (op, args, out) = (self.callers[t].op, self.callers[t].args.clone(), self.callers[t].out.clone());
        let c = &self.callers[t];
        st.checks += 1;
        if c.phase == Phase::Fetch {
            // The old set is in register 0 of the caller.
            let mut m = Vec::new();
            c.m.contents(0, &mut m);
            if !m.iter().map(|x| *x as u32).eq(before.iter().copied()) {
                return self.fail(t, "fetched", format!("saw {m:?} while the set was {before:?}"));
            }
            self.model.apply(op, &args, &[], &|_| BTreeSet::new());
        } else {
            if let Expect::Out(want) = self.model.apply(op, &args, &out, &|_| BTreeSet::new()) {
                if want != out {
                    return self.fail(t, "returned", format!("returned {out:?} where the set was {before:?}: expected {want:?}"));
                }
            }
            if let Err(v) = check_reg(&*self.callers[t].m, &self.model, 0, true) {
                return self.fail(t, "private", v.detail);
            }
        }
        let held = if self.seq { self.mem.data.clone() } else { vec![self.mem.word as u64, (self.mem.word >> 64) as u64] };
        if held != self.words() {
            return self.fail(t, "published", format!("left {held:x?} in shared memory for {:?} (before: {before:?})", self.model.regs[0]));
        }
        if READ_ONLY.contains(&op) {
            st.probe(1);
        } else {
            st.probe(0);
        }
        self.callers[t].phase = Phase::Idle;
        st.state(self.model.regs[0].iter().fold(mix_str(self.form, self.meta.name), |h, d| mix(h, *d as u64 + 9)));
        Ok(())
    }
    fn owner_dead(&self) -> bool {
        let (t, life) = self.mem.owner;
        self.callers[t].life != life
    }

    /// One access of caller `t` to shared memory. `how` picks between equivalent ways of going on.
    fn access(&mut self, t: usize, spurious: bool, how: u64, st: &mut Stats) -> Result<(), Violation> {
        let phase = self.callers[t].phase;
        match phase {
            Phase::Idle => {}
            Phase::Load => {
                let word = self.mem.word;
                self.observed(t, word, how, st)?
            }
            Phase::Cas => {
                let c = &self.callers[t];
                let word = |w: &[u64]| w[0] as u128 | (w[1] as u128) << 64;
                let (seen, next) = (word(&c.seen), word(&c.next));
                if self.mem.word == seen && !spurious {
                    if self.past.contains(&next) && next != seen {
                        st.probe(10);
                    }
                    self.mem.word = next;
                    self.past.insert(next);
                    self.effect(t, st)?;
                } else {
                    st.fault(if self.mem.word == seen { 0 } else { 1 });
                    if how % 2 == 0 {
                        let word = self.mem.word;
                        self.observed(t, word, how / 2, st)?;
                    } else {
                        self.callers[t].phase = Phase::Load;
                    }
                }
            }
            Phase::Fetch => {
                // The operand in numeric form is combined with the word in one access.
                let w = self.encode(t, 1, how)?;
                let x = w[0] as u128 | (w[1] as u128) << 64;
                let old = self.mem.word;
                self.mem.word = match self.callers[t].kind - FETCH_OR {
                    0 => old | x,
                    1 => old & x,
                    _ => old ^ x,
                };
                self.past.insert(self.mem.word);
                self.decode(t, &[old as u64, (old >> 64) as u64], how)?;
                st.probe(2);
                self.effect(t, st)?;
            }
            Phase::Version => {
                let v = self.mem.version;
                let c = &mut self.callers[t];
                c.version = v;
                if v % 2 == 1 {
                    if self.owner_dead() {
                        self.callers[t].phase = Phase::Take;
                    } else {
                        st.probe(7);
                    }
                } else {
                    c.seen = vec![0; self.len];
                    c.phase = if READ_ONLY.contains(&c.op) { Phase::Read(0) } else { Phase::Lock };
                }
            }
            Phase::Lock => {
                if self.mem.version == self.callers[t].version && !spurious {
                    self.mem.version += 1;
                    self.mem.owner = (t, self.callers[t].life);
                    self.callers[t].phase = Phase::Fetch1(0);
                } else {
                    st.fault(if self.mem.version == self.callers[t].version { 0 } else { 1 });
                    self.callers[t].phase = Phase::Version;
                }
            }
            Phase::Fetch1(i) => {
                self.callers[t].seen[i] = self.mem.data[i];
                self.callers[t].phase = if i + 1 < self.len { Phase::Fetch1(i + 1) } else { Phase::Undo(0) };
            }
            Phase::Undo(i) => {
                self.mem.undo[i] = self.callers[t].seen[i];
                self.callers[t].phase = if i + 1 < self.len { Phase::Undo(i + 1) } else { Phase::Flag };
            }
            Phase::Flag => {
                self.mem.flag = self.mem.version;
                let seen = self.callers[t].seen.clone();
                self.decode(t, &seen, how)?;
                self.compute(t);
                self.callers[t].next = self.encode(t, 0, how / 12)?;
                self.callers[t].phase = Phase::Store(0);
            }
            Phase::Store(i) => {
                self.mem.data[i] = self.callers[t].next[i];
                self.callers[t].phase = if i + 1 < self.len { Phase::Store(i + 1) } else { Phase::Release };
            }
            Phase::Release => {
                self.mem.version += 1;
                self.effect(t, st)?;
            }
            Phase::Read(i) => {
                self.callers[t].seen[i] = self.mem.data[i];
                self.callers[t].phase = if i + 1 < self.len { Phase::Read(i + 1) } else { Phase::Again };
            }
            Phase::Again => {
                let seen = self.callers[t].seen.clone();
                if self.mem.version != self.callers[t].version {
                    st.probe(3);
                    // Even torn words hold valid bits only: they read as exactly the mixture, never as anything else.
                    let mix = bits::of_words(&seen);
                    if seen != self.words() {
                        st.probe(4);
                    }
                    self.decode(t, &seen, how)?;
                    let mut m = Vec::new();
                    self.callers[t].m.contents(0, &mut m);
                    if !m.iter().map(|x| *x as u32).eq(mix.iter().copied()) {
                        return self.fail(t, "torn", format!("the words {seen:x?} read as {m:?}"));
                    }
                    self.callers[t].phase = Phase::Version;
                } else {
                    self.decode(t, &seen, how)?;
                    self.compute(t);
                    st.probe(12);
                    self.effect(t, st)?;
                }
            }
            Phase::Take => {
                // Only one caller becomes the new owner.
                if self.mem.version == self.callers[t].version && self.owner_dead() {
                    self.mem.owner = (t, self.callers[t].life);
                    self.callers[t].phase = Phase::Flagged;
                } else {
                    self.callers[t].phase = Phase::Version;
                }
            }
            Phase::Flagged => {
                st.probe(5);
                self.callers[t].phase = if self.mem.flag == self.mem.version { Phase::Restore(0) } else { Phase::Unlock };
            }
            Phase::Restore(i) => {
                self.mem.data[i] = self.mem.undo[i];
                self.callers[t].phase = if i + 1 < self.len { Phase::Restore(i + 1) } else { Phase::Unlock };
                if i == 0 {
                    st.probe(6);
                }
            }
            Phase::Unlock => {
                self.mem.version += 1;
                if self.mem.data != self.words() {
                    return self.fail(t, "recovered", format!("recovery left {:x?} for {:?}", self.mem.data, self.model.regs[0]));
                }
                self.callers[t].phase = Phase::Version;
            }
        }
        Ok(())
    }
    /// A caller of the atomic word has seen `word`: it computes what to put in its place.
    fn observed(&mut self, t: usize, word: u128, how: u64, st: &mut Stats) -> Result<(), Violation> {
        let w = vec![word as u64, (word >> 64) as u64];
        self.decode(t, &w, how)?;
        if how % 5 == 0 {
            st.probe(8);
            let again = self.encode(t, 0, how / 5)?;
            if again != w {
                return self.fail(t, "not-canonical", format!("the word {w:x?} is written back as {again:x?}"));
            }
        }
        self.callers[t].seen = w;
        self.compute(t);
        if READ_ONLY.contains(&self.callers[t].op) && how % 3 != 0 {
            return self.effect(t, st);
        }
        if READ_ONLY.contains(&self.callers[t].op) {
            st.probe(11);
        }
        self.callers[t].next = self.encode(t, 0, how / 7)?;
        self.callers[t].phase = Phase::Cas;
        Ok(())
    }
}

struct C09;

impl Engine for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            60_000
        } else {
            3_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded schedule of single accesses of one to six callers to simulated shared words holding a set of one of 109 enums; \
         non-trivial: distinct script in which at least two callers had operations take effect and one fault or conflict occurred"
    }
    fn real(&self) -> &'static [&'static str] {
        &["enumset numeric forms and set operations", "enumset_derive (generated code)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["shared memory and its atomic accesses (sequentially consistent)", "callers and scheduler", "sequential reference set"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["accesses to shared words are sequentially consistent", "a dead lock holder is recognised (its undo image is in shared memory)"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, form, contents of the shared set) after an operation took effect"
    }

    fn generate(&self, rng: &mut Rng, run: u64, tier: Tier) -> Script {
        let shapes = zoo::shapes(Group::Core);
        let m = shapes[if run < shapes.len() as u64 * 6 { run as usize % shapes.len() } else { rng.below(shapes.len() as u64) as usize }];
        let tasks = rng.range(1, 10).clamp(2, 6);
        let steps = if tier == Tier::Thorough { rng.range(40, 400) } else { rng.range(20, 160) };
        let mode = rng.below(3);
        let steps = if mode == 0 { steps * (3 + m.max() as u64 / 64) / 3 } else { steps };
        let w = callers::swarm(rng, &[20, 20, 5, 4, 4, 3, 3, 3, 5, 1, 4, 4, 3, 4, 4, 4, 5, 4, 4, 4]);
        let spurious = rng.below(4) * 10;
        let die = if rng.pct(50) { 3 } else { 0 };
        // Few distinct elements make conflicts and returns to old values likely.
        let few = rng.pct(40).then(|| [callers::variant(rng, m), callers::variant(rng, m)]);
        let ev = callers::interleave(rng, tasks, steps, 0, None, |rng, task| {
            if rng.pct(die) {
                return (DIE, vec![task]);
            }
            let a = match few {
                Some(f) => *rng.pick(&f),
                None => callers::variant(rng, m),
            };
            (STEP, vec![rng.weighted(&w) as u64, a, rng.below(80), rng.pct(spurious) as u64, rng.below(840)])
        });
        let cfg = vec![mode, rng.below(16), tasks];
        Script { shape: m.name.to_string(), cfg, ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        if meta.group != Group::Core {
            return Ok(());
        }
        let mut w = World::new(meta, &s.cfg);
        let n = w.callers.len();
        let mut done: BTreeSet<usize> = BTreeSet::new();
        let mut trouble = 0u64;
        for e in &s.ev {
            st.ops[e.op] += 1;
            let t = e.task as usize % n;
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            let before = st.faults.iter().sum::<u64>();
            if e.op == DIE {
                use Phase::*;
                let k = match w.callers[t].phase {
                    Idle | Load | Fetch | Version | Lock | Read(_) | Again => 2,
                    Cas => 3,
                    Fetch1(_) | Undo(_) | Flag | Store(0) => 4,
                    Store(_) => 5,
                    Release => 6,
                    Take | Flagged | Restore(_) | Unlock => 7,
                };
                st.fault(k);
                let c = &mut w.callers[t];
                c.life += 1;
                c.phase = Idle;
                c.m = make(meta.name);
            } else {
                if w.callers[t].phase == Phase::Idle {
                    w.invoke(t, g(0), g(1), g(2));
                } else {
                    if e.t - w.callers[t].last.min(e.t) > 400 {
                        st.fault(8);
                    }
                    w.access(t, g(3) == 1, g(4), st)?;
                    if w.callers[t].phase == Phase::Idle {
                        done.insert(t);
                    }
                }
                w.callers[t].last = e.t;
                let c = &w.callers[t];
                st.observe(c.seen.iter().chain(&c.out).fold(mix(t as u64, w.mem.word as u64), |h, x| mix(h, *x)));
            }
            trouble += st.faults.iter().sum::<u64>() - before;
        }
        // Faults stop. Whoever is in the middle of something finishes within a bounded number of accesses.
        let bound = (n + 2) * (4 * w.len + 12) * n;
        let mut spent = 0;
        while let Some(t) = (0..n).map(|k| (spent + k) % n).find(|t| w.callers[*t].phase != Phase::Idle) {
            if spent > bound {
                return w.fail(t, "stuck", format!("still running {spent} accesses after the last fault"));
            }
            w.access(t, false, spent as u64 * 37 % 840, st)?;
            if w.callers[t].phase == Phase::Idle {
                st.probe(9);
                done.insert(t);
            }
            spent += 1;
        }
        // A newcomer reads what everyone left behind.
        w.invoke(0, 12, 0, 0);
        let mut left = bound;
        while w.callers[0].phase != Phase::Idle {
            if left == 0 {
                return w.fail(0, "stuck", "the final read never completes".into());
            }
            left -= 1;
            w.access(0, false, 1, st)?;
        }
        st.nontrivial = done.len() >= 2 && trouble >= 1;
        Ok(())
    }
}

fn main() {
    kernel::main(&C09)
}
