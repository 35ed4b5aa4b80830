//! C07: mixed-version peers: unknown data is dropped or rejected, as declared.
use enumset_sim::callers::{self, SYSTEM};
use enumset_sim::disk::{Fate, File};
use enumset_sim::kernel::{self, *};
use enumset_sim::rng::{mix, mix_str, splitmix, Rng};
use enumset_sim::serm::*;
use enumset_sim::setm::{check_reg, Expect, Model, Op, Sets, REGS};
use enumset_sim::zoo::{self, Group, SerKind, ShapeMeta};
use std::collections::BTreeSet;

fn make(name: &str) -> Box<dyn SerMachine> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => return Box::new(Sets::<$t>::new()) as Box<dyn SerMachine>,)*
                _ => {}
            }
        };
    }
    enumset_sim::for_ver_shapes!(pick);
    enumset_sim::for_ser_shapes!(pick);
    panic!("no shape {name}")
}

const OPS: &[&str] = &[
    "fill", "insert", "remove", "complement", "union", "send", "foreign", "deliver", "lose", "snapshot", "sync", "crash",
    "restart",
];
const FILL: usize = 0;
const INSERT: usize = 1;
const REMOVE: usize = 2;
const COMPL: usize = 3;
const UNION: usize = 4;
const SEND: usize = 5;
const FOREIGN: usize = 6;
const DELIVER: usize = 7;
const LOSE: usize = 8;
const SNAP: usize = 9;
const SYNC: usize = 10;
const CRASH: usize = 11;
const RESTART: usize = 12;

const FAULTS: &[&str] = &[
    "message lost", "message duplicated", "message delivered out of order", "message delayed past a version change",
    "node crash", "unsynced snapshot lost", "unsynced snapshot torn", "upgrade", "rollback", "switch of the deny option",
    "document of a foreign peer",
];
const PROBES: &[&str] = &[
    "message without unknown data accepted", "unknown bits dropped", "unknown bits rejected by a deny peer",
    "unknown name rejected", "word array longer than the receiver's", "word array shorter than the receiver's",
    "number too large for the receiver's integer rejected", "own snapshot of another version reloaded",
    "own snapshot rejected after a rollback", "unknown bits inside the receiver's own words",
    "deny peer accepted a foreign document",
];

#[derive(Clone)]
struct Payload {
    bytes: Vec<u8>,
    doc: u64,
    fmt: u64,
    /// Known truth: sender's kind, plain fields and sets; `None` for foreign documents.
    sent: Option<(SerKind, Vec<u64>, Vec<BTreeSet<u32>>)>,
    seq: u64,
    epoch: u64,
}
struct Node {
    meta: &'static ShapeMeta,
    m: Box<dyn SerMachine>,
    model: Model,
    file: File<Payload>,
    up: bool,
    last_seq: u64,
}
impl Node {
    fn boot(&mut self, meta: &'static ShapeMeta) {
        self.meta = meta;
        self.m = make(meta.name);
        self.model = Model::new(meta);
        self.up = true;
    }
}

struct C07;

/// Versions a node of this family can run.
fn family(m: &ShapeMeta) -> Vec<&'static ShapeMeta> {
    if m.group == Group::Ver {
        zoo::shapes(Group::Ver).into_iter().filter(|x| x.fam == m.fam).collect()
    } else {
        zoo::shapes(Group::Ser).into_iter().filter(|x| x.name == m.name || format!("{}X", m.name) == x.name || m.name == format!("{}X", x.name)).collect()
    }
}

/// The strict rule: what a receiver makes of a payload.
enum Want {
    Sets(Vec<Vec<BTreeSet<u32>>>, Vec<u64>),
    Error(&'static str),
}
fn rule(meta: &ShapeMeta, all: &BTreeSet<u32>, read: &Result<Loaded<Reading>, String>) -> Want {
    match read {
        Err(_) => Want::Error("unreadable"),
        Ok(l) => {
            if meta.deny && l.sets.iter().any(|s| !s.bits.is_subset(all)) {
                return Want::Error("unknown bits");
            }
            let known = |s: &BTreeSet<u32>| s.intersection(all).copied().collect::<BTreeSet<u32>>();
            Want::Sets(l.sets.iter().map(|s| vec![known(&s.bits), known(&s.last)]).collect(), l.plain.clone())
        }
    }
}

impl C07 {
    /// Hands a payload to a node and judges what it makes of it. Returns whether it was accepted.
    fn receive(&self, n: &mut Node, p: &Payload, r: usize, r2: usize, what: &str, st: &mut Stats) -> Result<bool, Violation> {
        let meta = n.meta;
        let tag = format!("{:?}:{}", meta.ser, FMTS[p.fmt as usize]);
        let read = n.m.reference(p.doc, p.fmt, &p.bytes);
        let want = rule(meta, &n.model.all, &read);
        // Where both ends use the same bits or names, what was sent is known without reading any bytes.
        if let Some((kind, plain, sets)) = &p.sent {
            let named = matches!(kind, SerKind::List | SerKind::Map);
            let json = matches!(p.fmt, 0 | 1 | 5);
            if *kind == meta.ser && (!named || json) {
                let foreign = sets.iter().any(|s| !s.is_subset(&n.model.all));
                let error = foreign && (named || meta.deny);
                let agrees = match &want {
                    Want::Error(_) => error,
                    Want::Sets(x, q) => {
                        !error && q == plain && x.len() == sets.len()
                            && x.iter().zip(sets).all(|(a, b)| a.iter().all(|a| a.iter().eq(b.intersection(&n.model.all))))
                    }
                };
                if !agrees {
                    return Violation::new(
                        format!("sent-reads-differently:{tag}"),
                        format!("{what}: {sets:?} was sent, but {:?} reads as {read:?}", String::from_utf8_lossy(&p.bytes)),
                    );
                }
            }
        }
        let mut src: &[u8] = &p.bytes;
        let got = guard(|| n.m.de(p.doc, p.fmt, r, r2, &mut src));
        st.checks += 1;
        let shown = String::from_utf8_lossy(&p.bytes).into_owned();
        let got = match got {
            Caught::Done(x) => x,
            Caught::Injected => return Violation::new("stray-panic", what),
            Caught::Panicked(x) => {
                return Violation::new(format!("panic:{tag}"), format!("{what}: {shown:?} made {} panic: {x}", meta.name))
            }
        };
        match (&want, &got) {
            (Want::Error(why), Err(_)) => {
                match *why {
                    "unknown bits" => st.probe(2),
                    _ if matches!(meta.ser, SerKind::List | SerKind::Map) => st.probe(3),
                    _ => st.probe(6),
                }
                st.observe(2);
                Ok(false)
            }
            (Want::Sets(x, q), Ok(l)) if *q == l.plain && x.len() == l.sets.len() && x.iter().zip(&l.sets).all(|(a, b)| a.contains(b)) => {
                let l0 = read.unwrap();
                let dropped = l0.sets.iter().any(|s| !s.bits.is_subset(&n.model.all));
                st.probe(if dropped { 1 } else { 0 });
                if meta.ser == SerKind::Array {
                    let own = meta.max() / 64;
                    let top = l0.sets.iter().filter_map(|s| s.bits.last()).max().copied().unwrap_or(0);
                    if top / 64 > own {
                        st.probe(4);
                    } else if top / 64 < own {
                        st.probe(5);
                    }
                }
                if dropped && l0.sets.iter().any(|s| s.bits.iter().any(|b| *b < meta.max() && !n.model.all.contains(b))) {
                    st.probe(9);
                }
                if meta.deny && p.sent.is_none() {
                    st.probe(10);
                }
                let mut h = mix_str(7, meta.name);
                for (r, s) in targets(p.doc, r, r2, l.sets.len()).into_iter().zip(&l.sets) {
                    h = s.iter().fold(mix(h, 1 << 40), |h, d| mix(h, *d as u64));
                    if r < REGS {
                        n.model.regs[r] = s.clone();
                    }
                }
                st.state(h);
                Ok(true)
            }
            (Want::Error(why), Ok(l)) => Violation::new(
                format!("accepted:{why}:{tag}"),
                format!("{what}: {} accepted {shown:?} as {:?}, expected an error ({why}); the bytes read as {read:?}", meta.name, l.sets),
            ),
            (Want::Sets(x, _), Err(err)) => Violation::new(
                format!("rejected:{tag}"),
                format!("{what}: {} rejected {shown:?} ({err}), expected {:?}", meta.name, x.iter().map(|a| &a[0]).collect::<Vec<_>>()),
            ),
            (Want::Sets(x, _), Ok(l)) => Violation::new(
                format!("misread:{tag}"),
                format!("{what}: {} read {shown:?} as {l:?}, expected {:?}", meta.name, x.iter().map(|a| &a[0]).collect::<Vec<_>>()),
            ),
        }
    }
}

/// Bits and names a foreign peer might use.
fn foreign(m: &ShapeMeta, a: &[u64]) -> (Vec<u64>, Vec<(String, bool)>) {
    let g = |k: usize| a.get(k).copied().unwrap_or(0);
    let mut x = g(1);
    let own = m.max() as usize / 64 + 1;
    let len = match g(0) % 5 {
        0 => own,
        1 => own + 1 + (splitmix(&mut x) % 3) as usize,
        2 => splitmix(&mut x) as usize % (own + 1),
        3 => own + 1,
        _ => (splitmix(&mut x) % 40) as usize,
    };
    let mut w = vec![0u64; len];
    let mut names = Vec::new();
    for i in callers::pattern(m, g(2), g(3)) {
        let d = m.declared[i] as usize;
        if d / 64 < len {
            w[d / 64] |= 1 << (d % 64);
        }
        names.push((format!("V{d}"), splitmix(&mut x) % 4 != 0));
    }
    // Strangers: in the words of the receiver, in the words above, at their edges; or none at all.
    for b in a.iter().skip(4) {
        let bits = 64 * len.max(1) as u64;
        let d = match b % 5 {
            0 => (b >> 8) % bits,
            1 => m.max() as u64 + 1 + (b >> 8) % 2,
            2 => own as u64 * 64 + (b >> 8) % 64,
            3 => bits - 1 - (b >> 8) % 2,
            _ => (b >> 8) % (m.max() as u64 + 1),
        } as usize;
        if d / 64 < len {
            w[d / 64] |= 1 << (d % 64);
        }
        names.push((format!("V{d}"), b >> 20 & 1 == 1));
    }
    // In no particular order.
    for i in (1..names.len()).rev() {
        names.swap(i, (splitmix(&mut x) % (i as u64 + 1)) as usize);
    }
    (w, names)
}

impl Engine for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            150_000
        } else {
            20_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded schedule of two to four nodes running different versions of an enum family (62 versions in nine families, \
         and 110 further enums with foreign peers), exchanging serialized sets over a faulty network and reloading their \
         snapshots across upgrades and rollbacks; non-trivial: distinct script with at least three documents judged, one \
         of them with unknown data or after a version change"
    }
    fn real(&self) -> &'static [&'static str] {
        &["enumset serde impls", "enumset_derive (generated serde code, both unknown-data policies)", "serde", "serde_json", "bincode"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["network (loss, duplication, reordering, delay)", "disk", "nodes (seeded scheduler)", "foreign peers", "reference reading with the receiver's declared kind"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "a number too large for the receiver's declared integer type is refused by serde itself and is an error under both policies",
            "of a map document naming a variant several times either the last or any positive entry may count",
        ]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (receiving enum version, contents accepted)"
    }

    fn generate(&self, rng: &mut Rng, run: u64, _tier: Tier) -> Script {
        let ver = run % 2 == 0;
        let pool = zoo::shapes(if ver { Group::Ver } else { Group::Ser });
        let lead = pool[(run / 2 % pool.len() as u64) as usize];
        let fam = family(lead);
        let nodes = rng.range(2, 4);
        let mut names = vec![lead.name];
        for _ in 1..nodes {
            names.push(rng.pick(&fam).name);
        }
        let metas: Vec<&ShapeMeta> = names.iter().map(|n| zoo::meta(n).unwrap()).collect();
        let mut w = callers::swarm(rng, &[6, 4, 3, 4, 4, 20, 8, 26, 4, 8, 4, 4, 8]);
        w[SEND] = w[SEND].max(12);
        w[DELIVER] = w[DELIVER].max(16);
        w[FOREIGN] = if ver { w[FOREIGN] } else { w[FOREIGN].max(20) };
        w[RESTART] = w[RESTART].max(3);
        let fmts: Vec<u64> = (0..rng.range(1, 2)).map(|_| rng.below(FMTS.len() as u64)).collect();
        let docs: Vec<u64> = (0..rng.range(1, 2)).map(|_| rng.below(DOCS.len() as u64)).collect();
        let steps = rng.range(8, 50);
        let mut ev = Vec::new();
        let fill = |rng: &mut Rng, n: u64, r: u64| {
            let mut a = vec![n, r];
            let (k, s) = (rng.below(10), rng.next());
            a.extend(callers::pattern(metas[n as usize], k, s).into_iter().map(|i| i as u64));
            a
        };
        for n in 0..nodes {
            for r in 0..2 {
                let a = fill(rng, n, r);
                ev.push(Ev { t: 0, task: SYSTEM, op: FILL, a });
            }
        }
        ev.extend(callers::interleave(rng, nodes, steps, 0, None, |rng, n| {
            let r = rng.below(REGS as u64);
            let op = rng.weighted(&w);
            let a = match op {
                FILL => fill(rng, n, r),
                INSERT | REMOVE => vec![n, r, callers::variant(rng, metas[n as usize])],
                COMPL => vec![n, r, 0, rng.below(4)],
                UNION => vec![n, r, rng.below(8) / 4 * 4, rng.below(4), rng.below(4)],
                SEND => vec![n, r, *rng.pick(&docs), *rng.pick(&fmts), rng.below(6), rng.below(70_000)],
                FOREIGN => {
                    let mut a = vec![n, *rng.pick(&docs), *rng.pick(&fmts), rng.below(70_000), rng.pct(15) as u64];
                    a.extend([rng.below(5), rng.next(), rng.below(10), rng.next()]);
                    for _ in 0..rng.below(4) {
                        a.push(rng.next());
                    }
                    a
                }
                // Which message in flight, and whether it stays in flight as a duplicate.
                DELIVER => {
                    let k = if rng.pct(40) { 0 } else { rng.below(16) };
                    vec![n, k, r, rng.below(6), rng.pct(15) as u64]
                }
                LOSE => vec![n, rng.below(16)],
                SNAP => vec![n, rng.below(REGS as u64), *rng.pick(&docs), *rng.pick(&fmts), rng.below(6), rng.below(70_000)],
                SYNC => vec![n],
                CRASH => vec![n, rng.next()],
                // Restart with any version of the family and reload the own snapshot.
                _ => vec![n, rng.below(fam.len() as u64), r, rng.below(6), rng.next()],
            };
            (op, a)
        }));
        Script { shape: names.join(","), cfg: vec![], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(metas) = s.shape.split(',').map(zoo::meta).collect::<Option<Vec<_>>>() else { return Ok(()) };
        let fam = family(metas[0]);
        let mut nodes: Vec<Node> = metas
            .iter()
            .map(|m| Node {
                meta: m, m: make(m.name), model: Model::new(m), file: File::default(), up: true, last_seq: 0,
            })
            .collect();
        let mut net: Vec<Payload> = Vec::new();
        let (mut seq, mut epoch) = (0, 0);
        let (mut judged, mut interesting) = (0, 0);
        let mut out = Vec::new();
        for (i, e) in s.ev.iter().enumerate() {
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            let count = nodes.len();
            let n = &mut nodes[g(0) as usize % count];
            let who = g(0) as usize % count;
            st.ops[e.op] += 1;
            if !n.up && !matches!(e.op, RESTART | LOSE) {
                continue;
            }
            match e.op {
                FILL | INSERT | REMOVE | COMPL | UNION => {
                    let op = [Op::Fill, Op::Insert, Op::Remove, Op::Compl, Op::Bin][e.op];
                    let Some(a) = n.model.normalise(op, e.a.get(1..).unwrap_or(&[])) else { continue };
                    out.clear();
                    n.m.exec(op, &a, &mut out);
                    if let Expect::Out(want) = n.model.apply(op, &a, &out, &|_| BTreeSet::new()) {
                        if want != out {
                            return Violation::new("result", format!("event {i} {} {a:?} returned {out:?}, expected {want:?}", OPS[e.op]));
                        }
                    }
                }
                SEND | SNAP => {
                    let (r, doc, fmt, r2, id) = (g(1) as usize % REGS, g(2) % 3, g(3) % 6, g(4) as usize, g(5));
                    let mut bytes = Vec::new();
                    if let Err(x) = n.m.ser(doc, fmt, r, r2, id, &mut bytes) {
                        return Violation::new(
                            format!("send-failed:{:?}:{}", n.meta.ser, FMTS[fmt as usize]),
                            format!("event {i}: {} cannot be serialized: {x}", n.meta.name),
                        );
                    }
                    let sets = match doc {
                        0 => vec![n.model.regs[r].clone()],
                        1 => [r, r2].into_iter().filter(|r| *r < REGS).map(|r| n.model.regs[r].clone()).collect(),
                        _ => n.model.regs.clone(),
                    };
                    seq += 1;
                    let p = Payload { bytes, doc, fmt, sent: Some((n.meta.ser, plain(doc, id), sets)), seq, epoch };
                    if e.op == SEND {
                        net.push(p);
                    } else {
                        n.file.write(p.bytes.clone(), Some(p));
                    }
                }
                FOREIGN => {
                    let (doc, fmt, id) = (g(1) % 3, g(2) % 6, g(3));
                    let (words, names) = foreign(n.meta, e.a.get(5..).unwrap_or(&[]));
                    // Names only mean something to a self-describing format.
                    let fmt = if matches!(n.meta.ser, SerKind::List | SerKind::Map) { [0, 1, 5][fmt as usize % 3] } else { fmt };
                    let bytes = raw_doc(n.meta.ser, g(4) == 1, doc, fmt, id, &words, &names);
                    st.fault(10);
                    seq += 1;
                    net.push(Payload { bytes, doc, fmt, sent: None, seq, epoch });
                }
                DELIVER => {
                    if net.is_empty() {
                        continue;
                    }
                    let k = g(1) as usize % net.len();
                    let p = if g(4) == 1 {
                        st.fault(1);
                        net[k].clone()
                    } else {
                        net.remove(k)
                    };
                    if p.seq < n.last_seq {
                        st.fault(2);
                    }
                    n.last_seq = n.last_seq.max(p.seq);
                    if p.epoch < epoch {
                        st.fault(3);
                        interesting += 1;
                    }
                    let unknown = st.probes[1] + st.probes[2] + st.probes[3];
                    let what = format!("event {i}: node {who} receives message {}", p.seq);
                    self.receive(n, &p, g(2) as usize % REGS, g(3) as usize, &what, st)?;
                    judged += 1;
                    if st.probes[1] + st.probes[2] + st.probes[3] > unknown {
                        interesting += 1;
                    }
                }
                LOSE => {
                    if !net.is_empty() {
                        let k = g(1) as usize % net.len();
                        net.remove(k);
                        st.fault(0);
                    }
                }
                SYNC => n.file.sync(),
                CRASH | RESTART => {
                    if e.op == CRASH || n.up {
                        // Stopping without a sync is a crash as well, as far as the disk is concerned.
                        st.fault(4);
                        match n.file.crash(g(if e.op == CRASH { 1 } else { 4 })) {
                            Fate::Lost => st.fault(5),
                            Fate::Torn => st.fault(6),
                            _ => {}
                        }
                        n.up = false;
                    }
                    if e.op == RESTART {
                        let old = n.meta;
                        let new = fam[g(1) as usize % fam.len()];
                        n.boot(new);
                        if new.name != old.name {
                            epoch += 1;
                            st.fault(if new.ver > old.ver { 7 } else if new.ver < old.ver { 8 } else { 9 });
                        }
                        // A torn snapshot is read as well as it can be: C05 judges those.
                        if let Some(p) = n.file.seen().and_then(|x| x.intact.clone()) {
                            let what = format!("event {i}: node {who} reloads its snapshot as {}", new.name);
                            let ok = self.receive(n, &p, g(2) as usize % REGS, g(3) as usize, &what, st)?;
                            judged += 1;
                            if new.name != old.name {
                                st.probe(if ok { 7 } else { 8 });
                                interesting += 1;
                            }
                        }
                    }
                }
                _ => {}
            }
            if n.up {
                for r in 0..REGS {
                    if let Err(v) = check_reg(&*n.m, &n.model, r, true) {
                        return Violation::new(
                            format!("{}:{}", v.class, OPS[e.op]),
                            format!("after event {i} {} on node {who} ({}): {}", OPS[e.op], n.meta.name, v.detail),
                        );
                    }
                    st.checks += 1;
                }
            }
        }
        st.nontrivial = judged >= 3 && interesting >= 1;
        Ok(())
    }
}

fn main() {
    kernel::main(&C07)
}
