//! C05: serialized sets survive faulty storage; corruption is never misread.
use enumset_sim::callers::{self, SYSTEM};
use enumset_sim::disk::{Fate, File};
use enumset_sim::kernel::{self, *};
use enumset_sim::rng::{mix, mix_str, splitmix, Rng};
use enumset_sim::serm::*;
use enumset_sim::setm::{check_reg, Expect, Model, Op, Sets, REGS};
use enumset_sim::zoo::{self, Group};
use std::collections::BTreeSet;

fn make(name: &str) -> Box<dyn SerMachine> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Box::new(Sets::<$t>::new()) as Box<dyn SerMachine>,)*
                _ => panic!("no shape {name}"),
            }
        };
    }
    enumset_sim::for_ser_shapes!(pick)
}

const FILES: usize = 4;
const OPS: &[&str] = &[
    "fill", "insert", "remove", "complement", "make", "save", "sync", "crash", "flip", "cut", "block", "stale", "load",
];
const FILL: usize = 0;
const INSERT: usize = 1;
const REMOVE: usize = 2;
const COMPL: usize = 3;
const MAKE: usize = 4;
const SAVE: usize = 5;
const SYNC: usize = 6;
const CRASH: usize = 7;
const FLIP: usize = 8;
const CUT: usize = 9;
const BLOCK: usize = 10;
const STALE: usize = 11;
const LOAD: usize = 12;

const FAULTS: &[&str] = &[
    "write error", "device full (nothing more accepted)", "panic inside a write", "short write", "interrupted write",
    "read error", "premature end of file", "panic inside a read", "short read", "interrupted read",
    "crash of a node", "unsynced write lost", "unsynced write torn", "bits flipped", "file cut", "block lost or repeated",
    "stale version served", "failed write left in place over old data", "read as another format or document",
];
const PROBES: &[&str] = &[
    "intact document loaded", "corrupt document rejected", "corrupt document accepted, with exactly the members its bytes denote",
    "corrupt document accepted after unknown bits were dropped", "map with a repeated key", "empty set saved", "full set saved",
    "load of an intact document under short or interrupted reads", "old set survived a failed load",
];

#[derive(Clone)]
struct Intact {
    doc: u64,
    fmt: u64,
    plain: Vec<u64>,
    sets: Vec<BTreeSet<u32>>,
}

struct C05;

fn plan(rng: &mut Rng, fault_pct: u64) -> [u64; 3] {
    let kind = if rng.pct(fault_pct) { 1 + rng.below(3) } else { 0 };
    let at = if rng.pct(70) { rng.below(48) } else { rng.below(1200) };
    let salt = if rng.pct(60) { rng.next() | 1 } else { 0 };
    [kind, at, salt]
}

impl Engine for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            120_000
        } else {
            20_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded schedule of two nodes saving and loading documents with sets of one of the 110 serde enums on a simulated \
         disk through byte streams that misbehave; non-trivial: distinct script with at least three loads of which one \
         followed a fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["enumset serde impls", "enumset_derive (generated serde code for 110 enums)", "serde", "serde_json", "bincode"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["byte streams (Write and Read)", "disk", "nodes (seeded scheduler)", "reference reading: same bytes read as integers, vectors, lists of variants, maps"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "serde_json and bincode deliver what their bytes say; both sides of every comparison go through them",
            "of a map document naming a variant several times either the last or any positive entry may count",
        ]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, format, document, contents) loaded or rejected"
    }

    fn generate(&self, rng: &mut Rng, run: u64, _tier: Tier) -> Script {
        let shapes = zoo::shapes(Group::Ser);
        let m = shapes[(run % shapes.len() as u64) as usize];
        let mut w = callers::swarm(rng, &[3, 4, 3, 3, 2, 24, 8, 4, 8, 4, 4, 2, 34]);
        w[SAVE] = w[SAVE].max(20);
        w[LOAD] = w[LOAD].max(20);
        let used = rng.range(1, FILES as u64);
        let steps = rng.range(8, 50);
        // Few formats per run, so that loads usually find what they expect.
        let fmts: Vec<u64> = (0..rng.range(1, 2)).map(|_| rng.below(FMTS.len() as u64)).collect();
        let docs: Vec<u64> = (0..rng.range(1, 2)).map(|_| rng.below(DOCS.len() as u64)).collect();
        let fault_pct = *rng.pick(&[0, 15, 50]);
        let mut ev = Vec::new();
        let fill = |rng: &mut Rng, r: u64| {
            let mut a = vec![r];
            let (k, s) = (rng.below(10), rng.next());
            a.extend(callers::pattern(m, k, s).into_iter().map(|i| i as u64));
            a
        };
        for r in 0..REGS as u64 {
            let a = fill(rng, r);
            ev.push(Ev { t: 0, task: SYSTEM, op: FILL, a });
        }
        ev.extend(callers::interleave(rng, 2, steps, 0, None, |rng, task| {
            let r = task * 2 + rng.below(2);
            let f = rng.below(used);
            let op = rng.weighted(&w);
            let a = match op {
                FILL => fill(rng, r),
                INSERT | REMOVE => vec![r, callers::variant(rng, m)],
                COMPL => vec![r, 0, r],
                MAKE => vec![r, rng.below(10), callers::variant(rng, m)],
                SAVE => {
                    let p = plan(rng, fault_pct);
                    vec![f, r, *rng.pick(&docs), *rng.pick(&fmts), rng.below(6), rng.below(70_000), p[0], p[1], p[2], rng.below(2)]
                }
                LOAD => {
                    let p = plan(rng, fault_pct);
                    let foreign = rng.pct(12) as u64;
                    vec![f, r, rng.below(3), rng.below(6), rng.below(6), foreign, p[0], p[1], p[2]]
                }
                SYNC | STALE => vec![f],
                CRASH => vec![task, rng.next()],
                FLIP => {
                    let mut a = vec![f];
                    for _ in 0..rng.range(1, 3) {
                        a.push(rng.below(1 << 14));
                    }
                    a
                }
                CUT => vec![f, rng.below(1 << 12)],
                _ => vec![f, rng.below(3), rng.below(1 << 12), rng.range(1, 9)],
            };
            (op, a)
        }));
        Script { shape: m.name.to_string(), cfg: vec![], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        let mut m = make(meta.name);
        let mut model = Model::new(meta);
        let mut files: Vec<File<Intact>> = (0..FILES).map(|_| File::default()).collect();
        let mut out = Vec::new();
        let shape_h = mix_str(5, meta.name);
        let (mut loads, mut faulted) = (0, 0);
        for (i, e) in s.ev.iter().enumerate() {
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            let f = g(0) as usize % FILES;
            st.ops[e.op] += 1;
            match e.op {
                FILL | INSERT | REMOVE | COMPL | MAKE => {
                    let op = [Op::Fill, Op::Insert, Op::Remove, Op::Compl, Op::Make][e.op];
                    let Some(a) = model.normalise(op, &e.a) else { continue };
                    out.clear();
                    m.exec(op, &a, &mut out);
                    if let Expect::Out(want) = model.apply(op, &a, &out, &|_| BTreeSet::new()) {
                        if want != out {
                            return Violation::new("result", format!("event {i} {} {a:?} returned {out:?}, expected {want:?}", OPS[e.op]));
                        }
                    }
                }
                SAVE => {
                    let (r, doc, fmt) = (g(1) as usize % REGS, g(2) % 3, g(3) % 6);
                    let (r2, id) = (g(4) as usize, g(5));
                    let p = Plan { kind: g(6) % 4, at: g(7), salt: g(8) };
                    let what = format!("event {i}: saving {} {} of {}", FMTS[fmt as usize], DOCS[doc as usize], meta.name);
                    let tag = format!("{:?}:{}", meta.ser, FMTS[fmt as usize]);
                    let want: Vec<BTreeSet<u32>> = match doc {
                        0 => vec![model.regs[r].clone()],
                        1 => [Some(r), Some(r2)].into_iter().flatten().filter(|r| *r < REGS).map(|r| model.regs[r].clone()).collect(),
                        _ => model.regs.clone(),
                    };
                    let mut full = Vec::new();
                    if let Err(x) = m.ser(doc, fmt, r, r2, id, &mut full) {
                        return Violation::new(format!("save-failed:{tag}"), format!("{what} failed without a fault: {x}"));
                    }
                    st.checks += 1;
                    let read = m.reference(doc, fmt, &full);
                    let good = read.as_ref().is_ok_and(|l| {
                        l.plain == plain(doc, id) && l.sets.iter().map(|x| &x.bits).eq(want.iter())
                    });
                    if !good {
                        return Violation::new(
                            format!("saved:{tag}"),
                            format!("{what}: {want:?} was written as {:?}, which reads as {read:?}", String::from_utf8_lossy(&full)),
                        );
                    }
                    if want[0].is_empty() {
                        st.probe(5);
                    } else if want[0] == model.all {
                        st.probe(6);
                    }
                    let mut w = Stream::new(p, &[]);
                    let res = guard(|| m.ser(doc, fmt, r, r2, id, &mut w));
                    st.faults[3] += w.shorts;
                    st.faults[4] += w.eintr;
                    if w.fired {
                        st.fault(p.kind as usize - 1);
                        faulted += 1;
                    }
                    let ok = match &res {
                        Caught::Done(Ok(())) => !w.fired && w.sink == full,
                        Caught::Done(Err(_)) => w.fired && p.kind != 3 && full.starts_with(&w.sink),
                        Caught::Injected => w.fired && p.kind == 3 && full.starts_with(&w.sink),
                        Caught::Panicked(_) => false,
                    };
                    if !ok {
                        return Violation::new(
                            format!("write:{}:{tag}", p.kind),
                            format!("{what} to a stream with {p:?} (fired: {}) ended as {res:?} after {:?} of {:?}", w.fired, String::from_utf8_lossy(&w.sink), String::from_utf8_lossy(&full)),
                        );
                    }
                    st.observe(full.iter().fold(w.fired as u64, |h, b| mix(h, *b as u64)));
                    if w.fired && g(9) == 1 {
                        files[f].overwrite(&w.sink);
                        st.fault(17);
                    } else {
                        let intact = (!w.fired).then(|| Intact { doc, fmt, plain: plain(doc, id), sets: want });
                        files[f].write(w.sink, intact);
                    }
                }
                SYNC => files[f].sync(),
                CRASH => {
                    let node = g(0) as usize % 2;
                    let mut x = g(1);
                    st.fault(10);
                    faulted += 1;
                    for f in files.iter_mut().skip(node * 2).take(2) {
                        match f.crash(splitmix(&mut x)) {
                            Fate::Lost => st.fault(11),
                            Fate::Torn => st.fault(12),
                            _ => {}
                        }
                    }
                    for r in [node * 2, node * 2 + 1] {
                        m.exec(Op::Make, &[r as u64, 1], &mut out);
                        model.regs[r].clear();
                    }
                }
                STALE => {
                    if files[f].stale() {
                        st.fault(16);
                    }
                }
                FLIP | CUT | BLOCK => {
                    let Some(img) = files[f].seen_mut() else { continue };
                    let n = img.bytes.len() as u64;
                    if n == 0 {
                        continue;
                    }
                    img.intact = None;
                    faulted += 1;
                    match e.op {
                        FLIP => {
                            for b in e.a.iter().skip(1) {
                                img.bytes[(b / 8 % n) as usize] ^= 1 << (b % 8);
                            }
                            st.fault(13);
                        }
                        CUT => {
                            img.bytes.truncate((g(1) % n) as usize);
                            st.fault(14);
                        }
                        _ => {
                            let at = (g(2) % n) as usize;
                            let end = (at + g(3) as usize).min(n as usize);
                            match g(1) % 3 {
                                0 => img.bytes[at..end].fill(0),
                                1 => {
                                    img.bytes.drain(at..end);
                                }
                                _ => {
                                    let b = img.bytes[at..end].to_vec();
                                    img.bytes.splice(at..at, b);
                                }
                            }
                            st.fault(15);
                        }
                    }
                }
                _ => {
                    let Some(img) = files[f].seen().cloned() else { continue };
                    let (r, r2) = (g(1) as usize % REGS, g(4) as usize);
                    // What a corrupt file is read as follows from the arguments alone.
                    let (mut doc, mut fmt) = (g(2) % 3, g(3) % 6);
                    let mut intact = img.intact.as_ref();
                    match intact {
                        Some(x) if g(5) == 0 => (doc, fmt) = (x.doc, if fmt % 2 == 0 && x.fmt == 0 { 5 } else { x.fmt }),
                        _ => {
                            if intact.take().is_some() {
                                st.fault(18);
                            }
                        }
                    }
                    let p = Plan { kind: g(6) % 4, at: g(7), salt: g(8) };
                    let what = format!("event {i}: loading {} {} of {}", FMTS[fmt as usize], DOCS[doc as usize], meta.name);
                    let tag = format!("{:?}:{}", meta.ser, FMTS[fmt as usize]);
                    let mut src = Stream::new(p, &img.bytes);
                    let res = guard(|| m.de(doc, fmt, r, r2, &mut src));
                    loads += 1;
                    st.checks += 1;
                    st.faults[8] += src.shorts;
                    st.faults[9] += src.eintr;
                    if src.fired {
                        st.fault(4 + p.kind as usize);
                        faulted += 1;
                    }
                    let delivered = if src.fired { &img.bytes[..src.done] } else { &img.bytes[..] };
                    let shown = String::from_utf8_lossy(delivered).into_owned();
                    match res {
                        Caught::Panicked(x) => {
                            return Violation::new(format!("panic:{tag}"), format!("{what} from {shown:?} panicked: {x}"))
                        }
                        Caught::Injected if src.fired && p.kind == 3 => st.probe(8),
                        Caught::Injected => return Violation::new("stray-panic", what),
                        Caught::Done(Err(x)) => {
                            if let (Some(_), false) = (intact, src.fired) {
                                return Violation::new(
                                    format!("intact-rejected:{tag}"),
                                    format!("{what} from the intact {shown:?} failed: {x}"),
                                );
                            }
                            st.probe(1);
                            st.probe(8);
                            st.observe(1);
                        }
                        Caught::Done(Ok(l)) => {
                            if src.fired && p.kind == 3 {
                                return Violation::new("panic-swallowed", what);
                            }
                            if let (Some(x), false) = (intact, src.fired) {
                                if l.plain != x.plain || l.sets != x.sets {
                                    return Violation::new(
                                        format!("intact-changed:{tag}"),
                                        format!("{what} from the intact {shown:?} gave {l:?}, expected {:?} {:?}", x.plain, x.sets),
                                    );
                                }
                                st.probe(0);
                                if src.shorts + src.eintr > 0 {
                                    st.probe(7);
                                }
                            }
                            let read = m.reference(doc, fmt, delivered);
                            let same = |l: &Loaded<BTreeSet<u32>>, x: &Loaded<Reading>| {
                                l.plain == x.plain
                                    && l.sets.len() == x.sets.len()
                                    && l.sets.iter().zip(&x.sets).all(|(a, b)| {
                                        let known = |b: &BTreeSet<u32>| b.intersection(&model.all).copied().collect::<BTreeSet<u32>>();
                                        let drop_ok = !meta.deny || b.bits.is_subset(&model.all);
                                        drop_ok && (*a == known(&b.bits) || *a == known(&b.last))
                                    })
                            };
                            match &read {
                                Ok(x) if same(&l, x) => {
                                    if intact.is_none() || src.fired {
                                        st.probe(2);
                                        if x.sets.iter().any(|x| !x.bits.is_subset(&model.all)) {
                                            st.probe(3);
                                        }
                                        if x.sets.iter().any(|x| x.repeated) {
                                            st.probe(4);
                                        }
                                    }
                                }
                                _ => {
                                    return Violation::new(
                                        format!("misread:{tag}"),
                                        format!("{what} from {shown:?} gave {l:?}, but the bytes read as {read:?}"),
                                    )
                                }
                            }
                            let mut h = mix(mix(shape_h, fmt), doc);
                            for (r, s) in targets(doc, r, r2, l.sets.len()).into_iter().zip(&l.sets) {
                                if r < REGS {
                                    model.regs[r] = s.clone();
                                }
                                h = s.iter().fold(mix(h, 1 << 40), |h, d| mix(h, *d as u64));
                            }
                            st.state(h);
                        }
                    }
                }
            }
            for r in 0..REGS {
                let full = e.op == LOAD || g(0) == r as u64;
                if let Err(v) = check_reg(&*m, &model, r, full) {
                    return Violation::new(
                        format!("{}:{}", v.class, OPS[e.op]),
                        format!("after event {i} {} on {}: {}", OPS[e.op], meta.name, v.detail),
                    );
                }
                st.checks += 1;
            }
        }
        st.nontrivial = loads >= 3 && faulted >= 1;
        Ok(())
    }
}

fn main() {
    kernel::main(&C05)
}
