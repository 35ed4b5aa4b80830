//! C06: stream errors during (de)serialization are always reported.
use enumset_sim::bits;
use enumset_sim::callers::{self, SYSTEM};
use enumset_sim::kernel::{self, *};
use enumset_sim::rng::{mix, mix_str, splitmix, Rng};
use enumset_sim::setm::{check_reg, Expect, Model, Op, Sets, REGS};
use enumset_sim::tokens::*;
use enumset_sim::zoo::{self, Group, SerKind, ShapeMeta};
use std::collections::{BTreeMap, BTreeSet};

fn make(name: &str) -> Box<dyn TokMachine> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Box::new(Sets::<$t>::new()) as Box<dyn TokMachine>,)*
                _ => panic!("no shape {name}"),
            }
        };
    }
    enumset_sim::for_ser_shapes!(pick)
}

const WIRES: usize = 3;
const OPS: &[&str] = &["fill", "insert", "remove", "complement", "union", "write", "foreign", "cut", "read"];
const FILL: usize = 0;
const INSERT: usize = 1;
const REMOVE: usize = 2;
const COMPL: usize = 3;
const UNION: usize = 4;
const WRITE: usize = 5;
const FOREIGN: usize = 6;
const CUT: usize = 7;
const READ: usize = 8;

const FAULTS: &[&str] = &[
    "writer call failed", "writer call panicked", "reader call failed", "reader call panicked", "size hint missing or wrong",
    "integers delivered in another width or sign", "poll after the end is an error or reads on", "stream cut inside the set",
    "elements lost from the middle of a stream", "variants named by index or bytes", "document of a foreign peer",
];
const PROBES: &[&str] = &[
    "write completed", "write failed with the injected error", "read completed", "read failed with the injected error",
    "read refused: unknown bits", "read refused: unknown variant or number too large", "array shorter than the set",
    "array longer than the set", "repeated variant", "map entry that is false", "injected panic passed through a write",
    "injected panic passed through a read", "empty sequence", "read in place of another set",
];

struct C06;

fn fits(x: u128, bits: u32) -> bool {
    128 - x.leading_zeros() <= bits
}

/// What the tokens denote for this enum: its members, or why it must be refused.
fn denote(m: &ShapeMeta, all: &BTreeSet<u32>, names: &BTreeMap<&str, u32>, t: &[Tok]) -> Result<Vec<BTreeSet<u32>>, &'static str> {
    let masked = |b: BTreeSet<u32>| {
        if b.is_subset(all) {
            Ok(vec![b])
        } else if m.deny {
            Err("unknown bits")
        } else {
            Ok(vec![b.intersection(all).copied().collect()])
        }
    };
    let body = |open: fn(&Tok) -> bool| match t {
        [first, mid @ .., Tok::End] if open(first) && !mid.contains(&Tok::End) => Ok(mid),
        _ => Err("broken stream"),
    };
    match m.ser {
        SerKind::Array => {
            let mut w = Vec::new();
            for x in body(|t| matches!(t, Tok::Seq(_)))? {
                match x {
                    Tok::Int(_, x) if fits(*x, 64) => w.push(*x as u64),
                    _ => return Err("bad element"),
                }
            }
            masked(bits::of_words(&w))
        }
        SerKind::List => {
            let mut s = BTreeSet::new();
            for x in body(|t| matches!(t, Tok::Seq(_)))? {
                match x {
                    Tok::Variant(_, n) if names.contains_key(n) => s.insert(names[n]),
                    _ => return Err("bad element"),
                };
            }
            Ok(vec![s])
        }
        SerKind::Map => {
            let (mut any, mut last) = (BTreeSet::new(), BTreeSet::new());
            for x in body(|t| matches!(t, Tok::Map(_)))?.chunks(2) {
                match x {
                    [Tok::Variant(_, n), Tok::Bool(b)] if names.contains_key(n) => {
                        if *b {
                            any.insert(names[n]);
                            last.insert(names[n]);
                        } else {
                            last.remove(&names[n]);
                        }
                    }
                    _ => return Err("bad entry"),
                }
            }
            Ok(vec![any, last])
        }
        k => match t {
            [Tok::Int(_, x)] if fits(*x, k.int_bits().unwrap()) => masked((0..128).filter(|b| x >> b & 1 == 1).collect()),
            _ => Err("bad number"),
        },
    }
}

impl Engine for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            180_000
        } else {
            30_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded schedule of two callers writing and reading sets of one of the 110 serde enums through a token format that \
         fails or panics at any call and varies everything a format may vary; non-trivial: distinct script in which an \
         injected failure was hit and a read completed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["enumset serde impls", "enumset_derive (generated serde code for 110 enums)", "serde"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["the format (token serializer and deserializer)", "callers (seeded scheduler)", "reading of tokens by the documented representation"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a format may do anything after it has reported the end of a sequence or map", "an implementation may write array words beyond the last non-zero one"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, contents written or read, format manner)"
    }

    fn generate(&self, rng: &mut Rng, run: u64, _tier: Tier) -> Script {
        let shapes = zoo::shapes(Group::Ser);
        let m = shapes[(run % shapes.len() as u64) as usize];
        let mut w = callers::swarm(rng, &[3, 4, 3, 3, 3, 20, 12, 4, 34]);
        w[WRITE] = w[WRITE].max(12);
        w[READ] = w[READ].max(20);
        let steps = rng.range(6, 40);
        let fault_pct = *rng.pick(&[0, 25, 60]);
        let mut ev = Vec::new();
        let fill = |rng: &mut Rng, r: u64| {
            let mut a = vec![r];
            let (k, s) = (rng.below(10), rng.next());
            a.extend(callers::pattern(m, k, s).into_iter().map(|i| i as u64));
            a
        };
        for r in 0..REGS as u64 {
            let a = fill(rng, r);
            ev.push(Ev { t: 0, task: SYSTEM, op: FILL, a });
        }
        ev.extend(callers::interleave(rng, 2, steps, 0, None, |rng, _| {
            let r = rng.below(REGS as u64);
            let wire = rng.below(WIRES as u64);
            let op = rng.weighted(&w);
            let fail = |rng: &mut Rng| {
                let kind = if rng.pct(fault_pct) { if rng.pct(80) { 1 } else { 2 } } else { 0 };
                // Early calls, the last ones, anywhere.
                [kind, rng.below(3), rng.next(), rng.next() >> 20]
            };
            let a = match op {
                FILL => fill(rng, r),
                INSERT | REMOVE => vec![r, callers::variant(rng, m)],
                COMPL => vec![r, 0, rng.below(REGS as u64)],
                UNION => vec![r, rng.below(4), rng.below(REGS as u64), rng.below(REGS as u64)],
                WRITE => {
                    let f = fail(rng);
                    vec![wire, r, f[0], f[1], f[2], f[3], rng.below(2), rng.next()]
                }
                FOREIGN => {
                    let mut a = vec![wire, rng.below(5), rng.next(), rng.below(10), rng.next()];
                    for _ in 0..rng.below(4) {
                        a.push(rng.next());
                    }
                    a
                }
                CUT => vec![wire, rng.below(2), rng.next(), rng.range(1, 4)],
                _ => {
                    let f = fail(rng);
                    let strict = rng.pct(40) as u64;
                    vec![
                        wire, r, f[0], f[1], f[2], f[3], rng.below(6), rng.below(5), rng.below(3), rng.below(4), strict, rng.below(2),
                        rng.pct(20) as u64,
                    ]
                }
            };
            (op, a)
        }));
        Script { shape: m.name.to_string(), cfg: vec![], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        let mut m = make(meta.name);
        let mut model = Model::new(meta);
        let n = meta.declared.len();
        let cap = 2 * n + meta.max() as usize / 64 + 40;
        let vars = names(&mut *m, meta, cap);
        let discs: BTreeMap<&str, u32> =
            vars.iter().filter_map(|t| if let Tok::Variant(_, n) = t { Some((*n, n[1..].parse().ok()?)) } else { None }).collect();
        let known: BTreeSet<u32> = discs.values().copied().collect();
        if matches!(meta.ser, SerKind::List | SerKind::Map) && known != model.all {
            return Violation::new("written:variants", format!("the full set of {} was written with the variants {known:?}", meta.name));
        }
        let mut wires: Vec<Option<Vec<Tok>>> = vec![None; WIRES];
        let mut out = Vec::new();
        let (mut fired, mut completed) = (0, 0);
        let at = |kind: u64, salt: u64, calls: u64| match kind {
            0 => salt % 4,
            1 => calls.saturating_sub(1 + salt % 4),
            _ => salt % calls.max(1),
        };
        for (i, e) in s.ev.iter().enumerate() {
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            let wire = g(0) as usize % WIRES;
            st.ops[e.op] += 1;
            match e.op {
                FILL | INSERT | REMOVE | COMPL | UNION => {
                    let op = [Op::Fill, Op::Insert, Op::Remove, Op::Compl, Op::Bin][e.op];
                    let Some(a) = model.normalise(op, &e.a) else { continue };
                    out.clear();
                    m.exec(op, &a, &mut out);
                    if let Expect::Out(want) = model.apply(op, &a, &out, &|_| BTreeSet::new()) {
                        if want != out {
                            return Violation::new("result", format!("event {i} {} {a:?} returned {out:?}, expected {want:?}", OPS[e.op]));
                        }
                    }
                }
                WRITE => {
                    let r = g(1) as usize % REGS;
                    let nonce = g(7);
                    let what = format!("event {i}: writing {:?} of {}", model.regs[r], meta.name);
                    let tag = format!("{:?}", meta.ser);
                    // First without a fault: what is written, and in how many calls.
                    let mut full = Vec::with_capacity(cap);
                    let mut o = TokOut { buf: &mut full, calls: Calls::default(), readable: g(6) == 1, nonce };
                    let res = m.tok_ser(r, &mut o);
                    let calls = o.calls.n;
                    st.checks += 1;
                    let shown = format!("{full:?}");
                    if res != Ok(nonce) {
                        return Violation::new(
                            format!("write-result:{tag}"),
                            format!("{what} returned {res:?}, the format had returned {nonce}"),
                        );
                    }
                    let announced = match full.first() {
                        Some(Tok::Seq(Some(k))) => *k == full.len() - 2,
                        Some(Tok::Map(Some(k))) => 2 * *k == full.len() - 2,
                        Some(Tok::Int(w, _)) => meta.ser.int_bits() == Some(*w),
                        Some(Tok::Seq(None) | Tok::Map(None)) => true,
                        _ => false,
                    };
                    let words = full.iter().all(|t| meta.ser != SerKind::Array || !matches!(t, Tok::Int(w, _) if *w != 64));
                    let d = denote(meta, &model.all, &discs, &full);
                    let exact = matches!(&d, Ok(x) if x.iter().all(|x| *x == model.regs[r]));
                    let mut seen = BTreeSet::new();
                    let once = full.iter().all(|t| !matches!(t, Tok::Variant(..)) || seen.insert(format!("{t:?}")));
                    if !(announced && words && exact && once) {
                        return Violation::new(
                            format!("written:{tag}"),
                            format!("{what} produced {shown} (length exact: {announced}, denotes {d:?})"),
                        );
                    }
                    let fail = Fail { kind: g(2) % 3, at: at(g(3), g(4), calls), id: g(5) };
                    let mut part = Vec::with_capacity(cap);
                    let mut o = TokOut {
                        buf: &mut part, calls: Calls { fail, ..Calls::default() }, readable: g(6) == 1, nonce,
                    };
                    let res = guard(|| m.tok_ser(r, &mut o));
                    let hit = o.calls.fired;
                    if hit {
                        st.fault(fail.kind as usize - 1);
                        st.probe(if fail.kind == 1 { 1 } else { 10 });
                        fired += 1;
                    } else {
                        st.probe(0);
                    }
                    let ok = match &res {
                        Caught::Done(Ok(x)) => !hit && *x == nonce && part == full,
                        Caught::Done(Err(TokErr::Injected(id))) => hit && fail.kind == 1 && *id == fail.id,
                        Caught::Injected => hit && fail.kind == 2,
                        _ => false,
                    };
                    if !ok || !full.starts_with(&part) {
                        return Violation::new(
                            format!("write-fault:{}:{tag}", fail.kind),
                            format!("{what}: call {} of {calls} was to fail ({fail:?}, reached: {hit}), the result is {res:?} after {part:?}", fail.at),
                        );
                    }
                    st.state(model.regs[r].iter().fold(mix_str(6, meta.name), |h, d| mix(h, *d as u64)));
                    st.observe(calls);
                    wires[wire] = Some(full);
                }
                FOREIGN => {
                    let mut t = Vec::new();
                    foreign(meta, &vars, e.a.get(1..).unwrap_or(&[]), &mut t);
                    st.fault(10);
                    wires[wire] = Some(t);
                }
                CUT => {
                    let Some(t) = &mut wires[wire] else { continue };
                    if g(1) == 0 && t.len() > 1 {
                        // The stream ends inside the set.
                        t.truncate((g(2) % t.len() as u64) as usize);
                        st.fault(7);
                    } else if t.len() > 2 && t.last() == Some(&Tok::End) {
                        // Whole elements are missing.
                        let unit = if matches!(t[0], Tok::Map(_)) { 2 } else { 1 };
                        let count = (t.len() - 2) / unit;
                        if count == 0 {
                            continue;
                        }
                        let from = (g(2) % count as u64) as usize;
                        let to = (from + g(3) as usize).min(count);
                        t.drain(1 + from * unit..1 + to * unit);
                        st.fault(8);
                    }
                }
                _ => {
                    let Some(t) = &wires[wire] else { continue };
                    let r = g(1) as usize % REGS;
                    let manner = Manner {
                        hint: g(6) % 6, width: g(7) % 5, end: g(8) % 3, ident: g(9) % 4, strict: g(10) == 1, readable: g(11) == 1,
                    };
                    // Roughly how many calls reading it takes.
                    let k = t.len().saturating_sub(2) as u64;
                    let calls = match meta.ser {
                        SerKind::Array => 2 + 2 * k,
                        SerKind::List => 2 + 4 * k,
                        SerKind::Map => 2 + 3 * k,
                        _ => 1,
                    };
                    let fail = Fail { kind: g(2) % 3, at: at(g(3), g(4), calls), id: g(5) };
                    // Strict formats hold exactly what their writer put there.
                    let odd = t.iter().any(|t| match (meta.ser, t) {
                        (SerKind::Array, Tok::Int(w, _)) => *w != 64,
                        _ => false,
                    });
                    let manner = Manner { strict: manner.strict && !odd, ..manner };
                    // What follows the set in the stream.
                    let mut stream = t.clone();
                    let rest: &[Tok] = match meta.ser {
                        SerKind::Array => &[Tok::Int(64, u64::MAX as u128), Tok::Int(64, 1), Tok::End],
                        _ if !vars.is_empty() => &[vars[0], Tok::Bool(true), Tok::End],
                        _ => &[Tok::Bool(true)],
                    };
                    let whole = t.last() == Some(&Tok::End) || meta.ser.int_bits().is_some() && !t.is_empty();
                    if whole {
                        stream.extend_from_slice(rest);
                    }
                    let want = denote(meta, &model.all, &discs, t);
                    let mut src = TokIn::new(&stream, fail, manner);
                    let in_place = g(12) == 1;
                    let res = guard(|| if in_place { m.tok_de_in(r, &mut src) } else { m.tok_de(r, &mut src) });
                    st.checks += 1;
                    if in_place && !matches!(res, Caught::Done(Ok(()))) {
                        // What an interrupted reading leaves in place is open, as long as it is a set.
                        let left = enumset_sim::setm::read_set(&*m, r);
                        if left.is_subset(&model.all) {
                            model.regs[r] = left;
                        }
                    }
                    let hit = src.calls.fired;
                    let what = format!("event {i}: reading {t:?} as {} ({manner:?}, in place: {in_place})", meta.name);
                    let tag = format!("{:?}", meta.ser);
                    if manner.hint != 0 && meta.ser.int_bits().is_none() {
                        st.fault(4);
                    }
                    if manner.width != 0 && vars.is_empty() {
                        st.fault(5);
                    }
                    if manner.end != 0 && meta.ser.int_bits().is_none() {
                        st.fault(6);
                    }
                    if manner.ident > 1 && !vars.is_empty() {
                        st.fault(9);
                    }
                    if hit {
                        st.fault(1 + fail.kind as usize);
                        fired += 1;
                    }
                    match res {
                        Caught::Injected if hit && fail.kind == 2 => st.probe(11),
                        Caught::Injected => return Violation::new("stray-panic", what),
                        Caught::Panicked(x) => return Violation::new(format!("panic:{tag}"), format!("{what} panicked: {x}")),
                        Caught::Done(res) => {
                            if let Some(x) = src.raised {
                                if res != Err(x) {
                                    return Violation::new(
                                        format!("read-fault:{tag}"),
                                        format!("{what}: the format raised {x:?}, the result is {res:?}"),
                                    );
                                }
                                let expected = hit || !whole;
                                if !expected {
                                    return Violation::new(
                                        format!("{}:{tag}", if src.polled_after_end > 0 { "polled-after-end" } else { "asked-wrong" }),
                                        format!(
                                            "{what} failed: the reader asked for something other than what is there ({x:?}; {} polls after the end was reported)",
                                            src.polled_after_end
                                        ),
                                    );
                                }
                                st.probe(3);
                            } else if hit {
                                return Violation::new(format!("panic-swallowed:{tag}"), what);
                            } else {
                                match (&res, &want) {
                                    (Ok(()), Ok(w)) => {
                                        let now = enumset_sim::setm::read_set(&*m, r);
                                        if !w.contains(&now) || src.unread || src.pos != t.len() {
                                            return Violation::new(
                                                format!("misread:{tag}"),
                                                format!("{what} gave {now:?}, expected {w:?}; {} of {} tokens were consumed", src.pos, t.len()),
                                            );
                                        }
                                        let h = now.iter().fold(mix_str(6, meta.name), |h, d| mix(h, *d as u64));
                                        st.state(mix(h, manner.hint * 100 + manner.width * 10 + manner.end));
                                        if in_place && !model.regs[r].is_empty() && now != model.regs[r] {
                                            st.probe(13);
                                        }
                                        model.regs[r] = now;
                                        completed += 1;
                                        st.probe(2);
                                        match meta.ser {
                                            SerKind::Array => {
                                                let own = meta.max() as usize / 64 + 1;
                                                if t.len() - 2 < own {
                                                    st.probe(6);
                                                } else if t.len() - 2 > own {
                                                    st.probe(7);
                                                }
                                            }
                                            SerKind::Map if t.contains(&Tok::Bool(false)) => st.probe(9),
                                            SerKind::List if t.len() - 2 > w[0].len() => st.probe(8),
                                            _ => {}
                                        }
                                        if t.len() == 2 && t[1] == Tok::End {
                                            st.probe(12);
                                        }
                                    }
                                    (Err(_), Err(why)) => st.probe(if *why == "unknown bits" { 4 } else { 5 }),
                                    (Ok(()), Err(why)) => {
                                        return Violation::new(
                                            format!("accepted:{tag}"),
                                            format!("{what} gave {:?}, expected an error ({why})", enumset_sim::setm::read_set(&*m, r)),
                                        )
                                    }
                                    (Err(x), Ok(w)) => {
                                        return Violation::new(
                                            format!("rejected:{tag}"),
                                            format!("{what} failed with {x:?}, expected {:?}", w[0]),
                                        )
                                    }
                                }
                            }
                        }
                    }
                    st.observe(src.calls.n);
                }
            }
            for r in 0..REGS {
                if let Err(v) = check_reg(&*m, &model, r, e.op == READ || g(0) == r as u64) {
                    return Violation::new(
                        format!("{}:{}", v.class, OPS[e.op]),
                        format!("after event {i} {} on {}: {}", OPS[e.op], meta.name, v.detail),
                    );
                }
                st.checks += 1;
            }
        }
        st.nontrivial = fired >= 1 && completed >= 1;
        Ok(())
    }
}

fn main() {
    kernel::main(&C06)
}
