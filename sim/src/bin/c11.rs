//! C11: formatting reports every failure of its sink or of an element, and otherwise prints all members.
use enumset_sim::callers;
use enumset_sim::kernel::{self, *};
use enumset_sim::rng::{mix, mix_str, Rng};
use enumset_sim::serm::{Plan, Stream};
use enumset_sim::setm::{Machine, Model, Op, Sets, REGS};
use enumset_sim::zoo::{self, element_fmt, fmt_fault, Group, Variant};
use std::collections::BTreeSet;
use std::fmt::{self, Debug, Display, Write};

//---------------------------------------------------------------------------------- formatting in every way

/// What surrounds the set, and how it is to be formatted.
#[derive(Clone, Copy, Debug)]
struct Spec {
    doc: u64,
    spec: u64,
    width: usize,
    prec: usize,
    r: usize,
}
const SPECS: [&str; 30] = [
    "{:?}", "{:#?}", "{:+?}", "{:-?}", "{:w$?}", "{:<w$?}", "{:^w$?}", "{:*>w$?}", "{:0w$?}", "{:.p$?}", "{:#w$.p$?}",
    "{:é^+w$.p$?}", "{:x?}", "{:X?}", "{:#x?}", "{:-<#0w$.p$?}", "{}", "{:#}", "{:+}", "{:-}", "{:w$}", "{:<w$}", "{:^w$}",
    "{:*>w$}", "{:0w$}", "{:.p$}", "{:#w$.p$}", "{:é^+w$.p$}", "{:->#0w$.p$}", "{:^-w$}",
];
const DEBUG_SPECS: u64 = 16;
const DOCS: [&str; 7] = ["bare", "option", "slice", "record", "tuple", "in a sentence", "twice"];

fn put<X: Debug + Display + ?Sized>(s: Spec, x: &X, f: &mut dyn Write) -> fmt::Result {
    let (w, p) = (s.width, s.prec);
    match s.spec {
        16 => write!(f, "{x}"),
        17 => write!(f, "{x:#}"),
        18 => write!(f, "{x:+}"),
        19 => write!(f, "{x:-}"),
        20 => write!(f, "{x:w$}"),
        21 => write!(f, "{x:<w$}"),
        22 => write!(f, "{x:^w$}"),
        23 => write!(f, "{x:*>w$}"),
        24 => write!(f, "{x:0w$}"),
        25 => write!(f, "{x:.p$}"),
        26 => write!(f, "{x:#w$.p$}"),
        27 => write!(f, "{x:é^+w$.p$}"),
        28 => write!(f, "{x:->#0w$.p$}"),
        29 => write!(f, "{x:^-w$}"),
        _ => put_debug(s, x, f),
    }
}
fn put_debug<X: Debug + ?Sized>(s: Spec, x: &X, f: &mut dyn Write) -> fmt::Result {
    let (w, p) = (s.width, s.prec);
    match s.spec {
        0 => write!(f, "{x:?}"),
        1 => write!(f, "{x:#?}"),
        2 => write!(f, "{x:+?}"),
        3 => write!(f, "{x:-?}"),
        4 => write!(f, "{x:w$?}"),
        5 => write!(f, "{x:<w$?}"),
        6 => write!(f, "{x:^w$?}"),
        7 => write!(f, "{x:*>w$?}"),
        8 => write!(f, "{x:0w$?}"),
        9 => write!(f, "{x:.p$?}"),
        10 => write!(f, "{x:#w$.p$?}"),
        11 => write!(f, "{x:é^+w$.p$?}"),
        12 => write!(f, "{x:x?}"),
        13 => write!(f, "{x:X?}"),
        14 => write!(f, "{x:#x?}"),
        _ => write!(f, "{x:-<#0w$.p$?}"),
    }
}
#[derive(Debug)]
#[allow(dead_code)]
struct Record<'a, X> {
    id: u8,
    set: &'a X,
    more: Option<&'a X>,
    tail: u8,
}
fn put_doc<X: Debug + Display>(s: Spec, xs: &[X], f: &mut dyn Write) -> fmt::Result {
    let x = &xs[s.r];
    match s.doc {
        1 => put_debug(s, &Some(x), f),
        2 => put_debug(s, xs, f),
        3 => put_debug(s, &Record { id: 3, set: x, more: xs.first(), tail: 9 }, f),
        4 => put_debug(s, &(1u8, x, 2u8), f),
        5 => {
            f.write_str("<set ")?;
            put(s, x, f)?;
            f.write_str(" end>")
        }
        6 => {
            put(s, x, f)?;
            f.write_char(';')?;
            put(s, x, f)
        }
        _ => put(s, x, f),
    }
}
trait FmtMachine: Machine {
    fn put(&self, s: Spec, f: &mut dyn Write) -> fmt::Result;
    /// One declared variant by itself.
    fn put_variant(&self, s: Spec, i: usize, f: &mut dyn Write) -> fmt::Result;
}
impl<T: Variant> FmtMachine for Sets<T> {
    fn put(&self, s: Spec, f: &mut dyn Write) -> fmt::Result {
        put_doc(s, &self.regs, f)
    }
    fn put_variant(&self, s: Spec, i: usize, f: &mut dyn Write) -> fmt::Result {
        put(s, &T::variants()[i], f)
    }
}
/// The reference: members in ascending order, as documented.
struct Ref(Vec<u32>);
impl Ref {
    fn list(&self, f: &mut fmt::Formatter<'_>, display: bool) -> fmt::Result {
        for (i, d) in self.0.iter().enumerate() {
            if i > 0 {
                f.write_str(" | ")?;
            }
            element_fmt(f, *d, display)?;
        }
        Ok(())
    }
}
impl Debug for Ref {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("EnumSet(")?;
        self.list(f, false)?;
        f.write_str(")")
    }
}
impl Display for Ref {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.list(f, true)
    }
}

/// A machine and a spec as something the standard library can print.
struct Call<'a>(&'a dyn FmtMachine, Spec);
impl Display for Call<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.put(self.1, f)
    }
}

fn make(name: &str) -> Box<dyn FmtMachine> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Box::new(Sets::<$t>::new()) as Box<dyn FmtMachine>,)*
                _ => panic!("no shape {name}"),
            }
        };
    }
    enumset_sim::for_core_shapes!(pick)
}

//---------------------------------------------------------------------------------- sinks

const S_PLAIN: u64 = 0;
const S_CALL: u64 = 1;
const S_BYTES: u64 = 2;
const S_ROOM: u64 = 3;
const S_PANIC: u64 = 4;
const S_ONCE: u64 = 5;
const S_IO: u64 = 6;
/// A sink that fails in a given way at `at`. `accepted` is what it took before its first failure.
struct Sink<'a> {
    kind: u64,
    at: u64,
    calls: u64,
    failed: bool,
    accepted: String,
        /// Formats something else while it is being written to.
    nested: Option<(&'a dyn FmtMachine, Spec, &'a str)>,
    nested_bad: Option<String>,
}
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if let Some((m, spec, want)) = self.nested.take() {
            let mut t = String::new();
            let r = m.put(spec, &mut t);
            if r.is_err() || t != want {
                self.nested_bad = Some(t);
            }
            self.nested = Some((m, spec, want));
        }
        let n = self.calls;
        self.calls += 1;
        let fails = match self.kind {
            S_CALL | S_PANIC | S_ONCE => n == self.at || self.kind == S_CALL && self.failed,
            S_BYTES => self.accepted.len() + s.len() > self.at as usize || self.failed,
            S_ROOM => self.accepted.len() + s.len() > self.at as usize,
            _ => false,
        };
        if fails {
            let first = !self.failed;
            self.failed = true;
            if self.kind == S_PANIC {
                std::panic::panic_any(Injected);
            }
            if self.kind == S_BYTES && first {
                // Takes what fits, up to a whole character.
                let mut k = self.at as usize - self.accepted.len();
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                self.accepted.push_str(&s[..k]);
            }
            return Err(fmt::Error);
        }
        if !self.failed {
            self.accepted.push_str(s);
        }
        Ok(())
    }
}
use enumset_sim::Injected;

//---------------------------------------------------------------------------------- engine

const OPS: &[&str] = &["operate", "format"];
const FORMAT: usize = 1;
const HISTORY: &[Op] = &[Op::Make, Op::Insert, Op::Remove, Op::Clear, Op::Bin, Op::Assign, Op::Bulk, Op::Compl, Op::Fill, Op::Copy];

const FAULTS: &[&str] = &[
    "sink fails from some call on", "sink fills up in the middle of a write", "sink refuses what does not fit (smaller writes still fit)",
    "sink panics", "sink fails once, then works again", "io stream error", "io stream accepts nothing more", "io stream panics",
    "io stream with short or interrupted writes", "element fails", "element panics", "element fails half-way", "sink formats another set while written to",
];
const PROBES: &[&str] = &[
    "complete text of the empty set", "complete text of one member", "complete text of all members", "failure before the first element",
    "failure in a separator or later", "failure at the very end",
    "fault placed behind the end: complete text", "text padded or cut per element", "set inside another structure", "io stream complete",
    "last member's element failed",
];

struct C11;

impl Engine for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            200_000
        } else {
            20_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded schedule of one to three callers changing sets of one of 109 enums and formatting them to sinks that misbehave; \
         non-trivial: distinct script with at least three formatting calls of which one met a fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["enumset Debug and Display", "core::fmt, std::io::Write::write_fmt"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["sinks and byte streams", "Debug and Display of the elements", "callers (seeded scheduler)", "reference text"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the members are those contains() reports (C01 decides whether it is right)", "core::fmt passes options and failures on"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, formatting option, surroundings, contents, accepted text)"
    }

    fn generate(&self, rng: &mut Rng, run: u64, tier: Tier) -> Script {
        let shapes = zoo::shapes(Group::Core);
        let m = shapes[if run < shapes.len() as u64 * 6 { run as usize % shapes.len() } else { rng.below(shapes.len() as u64) as usize }];
        let tasks = rng.range(1, 3);
        let steps = if tier == Tier::Thorough { rng.range(10, 60) } else { rng.range(8, 30) };
        let fault_pct = rng.range(30, 90);
        let small = rng.pct(60);
        let kinds: Vec<u64> = if rng.pct(40) { vec![rng.below(7), rng.below(7)] } else { (0..7).collect() };
        let ev = callers::interleave(rng, tasks, steps, 0, None, |rng, _| {
            let r = rng.below(REGS as u64);
            if rng.pct(40) {
                let h = if small { *rng.pick(&[Op::Insert, Op::Insert, Op::Insert, Op::Remove, Op::Clear, Op::Make, Op::Bin]) } else { HISTORY[rng.below(HISTORY.len() as u64) as usize] };
                let v = callers::variant(rng, m);
                let mut a = vec![h as u64, r];
                match h {
                    Op::Fill => a.extend(callers::pattern(m, rng.below(10), rng.next()).into_iter().map(|x| x as u64)),
                    Op::Insert | Op::Remove => a.push(v),
                    Op::Make => a.extend([if small { rng.below(8) | 4 } else { rng.below(8) }, v]),
                    _ => a.extend([rng.below(8), rng.below(4), rng.below(4)]),
                }
                return (0, a);
            }
            let fault = rng.pct(fault_pct);
            let kind = if fault { *rng.pick(&kinds) } else { 0 };
            // Positions in calls or in bytes, mostly within the text of a small set.
            let at = match rng.below(4) {
                0 => rng.below(4),
                1 => rng.below(16),
                2 => rng.below(64),
                _ => rng.below(600),
            };
            let elem = if rng.pct(fault_pct / 2) && kind != S_IO { [rng.below(if small { 4 } else { 70 }), rng.below(3)] } else { [u64::MAX, 0] };
            let io = [rng.below(4), if rng.pct(60) { rng.next() | 1 } else { 0 }];
            let r = if rng.pct(70) { 0 } else { r };
            (FORMAT, vec![r, rng.below(30), if rng.pct(50) { 0 } else { rng.below(7) }, rng.below(12), rng.below(6), kind, at, elem[0], elem[1], io[0], io[1], rng.pct(8) as u64])
        });
        let mut ev = ev;
        for r in 0..REGS as u64 {
            if r == 0 || rng.pct(40) {
                let mut a = vec![Op::Fill as u64, r];
                if small {
                    for _ in 0..rng.below(5) {
                        a.push(callers::variant(rng, m));
                    }
                } else {
                    a.extend(callers::pattern(m, rng.below(10), rng.next()).into_iter().map(|x| x as u64));
                }
                ev.insert(0, Ev { t: 0, task: r, op: 0, a });
            }
        }
        Script { shape: m.name.to_string(), cfg: vec![], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        if meta.group != Group::Core {
            return Ok(());
        }
        let mut m = make(meta.name);
        let model = Model::new(meta);
        let mut regs: [BTreeSet<u32>; REGS] = Default::default();
        let (mut calls, mut faulted) = (0u64, 0u64);
        let mut out = Vec::new();
        for (i, e) in s.ev.iter().enumerate() {
            st.ops[e.op] += 1;
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            fmt_fault(u64::MAX, 0);
            if e.op != FORMAT {
                let op = HISTORY[HISTORY.iter().position(|h| *h as u64 == g(0)).unwrap_or(0)];
                let Some(a) = model.normalise(op, e.a.get(1..).unwrap_or(&[])) else { continue };
                out.clear();
                m.exec(op, &a, &mut out);
                out.clear();
                let r = a[0] as usize;
                m.members(r, &mut out);
                out.truncate(out.len() - 2);
                regs[r] = out.iter().map(|x| *x as u32).collect();
                continue;
            }
            let mut spec = Spec { doc: g(2) % 7, spec: g(1) % 30, width: g(3) as usize % 16, prec: g(4) as usize % 8, r: g(0) as usize % REGS };
            if (1..=4).contains(&spec.doc) {
                spec.spec %= DEBUG_SPECS;
                st.probe(8);
            }
            calls += 1;
            let refs: Vec<Ref> = regs.iter().map(|r| Ref(r.iter().copied().collect())).collect();
            let mut full = String::new();
            put_doc(spec, &refs, &mut full).expect("the reference cannot fail");
            let what = format!("event {i}: formatting {:?} with {} {} (w={} p={}) of {}", regs[spec.r], SPECS[spec.spec as usize], DOCS[spec.doc as usize], spec.width, spec.prec, meta.name);
            let tag = if spec.spec < DEBUG_SPECS { "debug" } else { "display" };
            if spec.doc == 0 {
                // The text of every member by itself, put together.
                let mut parts = Vec::new();
                for (k, _) in meta.declared.iter().enumerate().filter(|x| regs[spec.r].contains(x.1)) {
                    let mut t = String::new();
                    m.put_variant(spec, k, &mut t).expect("elements can be formatted");
                    parts.push((meta.declared[k], t));
                }
                parts.sort();
                let joined = parts.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(" | ");
                let joined = if spec.spec < DEBUG_SPECS { format!("EnumSet({joined})") } else { joined };
                if joined != full {
                    return Violation::new("harness", format!("{what}: two references: {joined:?} {full:?}"));
                }
                if spec.width > 4 || spec.prec < 2 {
                    st.probe(7);
                }
            }
            let sets = match spec.doc {
                2 => (0..REGS).collect(),
                3 => vec![spec.r, 0],
                6 => vec![spec.r, spec.r],
                _ => vec![spec.r],
            };
            let elements: u64 = sets.iter().map(|r| regs[*r].len() as u64).sum();
            let kind = g(5) % 7;
            let (at, elem) = (g(6), (g(7), g(8) % 3));
            st.checks += 1;
            if kind == S_IO {
                let p = Plan { kind: g(9) % 4, at, salt: g(10) };
                let mut w = Stream::new(p, &[]);
                let r = guard(|| {
                    use std::io::Write;
                    write!(w, "{}", Call(&*m, spec))
                });
                if w.shorts + w.eintr > 0 {
                    st.fault(8);
                }
                if w.fired {
                    st.fault(4 + p.kind as usize);
                    faulted += 1;
                }
                let ok = match &r {
                    Caught::Done(Ok(())) => !w.fired && w.sink == full.as_bytes(),
                    Caught::Done(Err(_)) => w.fired && p.kind != 3 && full.as_bytes().starts_with(&w.sink),
                    Caught::Injected => w.fired && p.kind == 3 && full.as_bytes().starts_with(&w.sink),
                    _ => false,
                };
                if !ok {
                    return Violation::new(format!("io:{tag}"), format!("{what} to a stream with {p:?} (fired: {}) ended as {r:?} after {:?} of {full:?}", w.fired, String::from_utf8_lossy(&w.sink)));
                }
                if !w.fired {
                    st.probe(9);
                }
                st.observe(mix_str(w.done as u64, &full));
                continue;
            }
            let inner = Spec { doc: 0, spec: g(10) % 30, width: 3, prec: 4, r: (spec.r + 1) % REGS };
            let mut inner_text = String::new();
            put_doc(inner, &refs, &mut inner_text).expect("the reference cannot fail");
            // Element faults count every element formatted, so they are not combined with nested formatting.
            let nested = g(11) == 1 && elem.0 >= elements;
            let mut sink = Sink {
                kind,
                at,
                calls: 0,
                failed: false,
                accepted: String::new(),
                nested: nested.then_some((&*m, inner, inner_text.as_str())),
                nested_bad: None,
            };
            if nested {
                st.fault(12);
            }
            // Where the failing element begins.
            let (mut limit, mut elem_on) = (full.clone(), false);
            if elem.0 < elements {
                elem_on = true;
                fmt_fault(elem.0, elem.1);
                limit.clear();
                let _ = guard(|| put_doc(spec, &refs, &mut limit));
                fmt_fault(elem.0, elem.1);
            } else {
                fmt_fault(u64::MAX, 0);
            }
            let r = guard(|| m.put(spec, &mut sink));
            let elem_fired = elem_on && zoo::fmt_elements() > elem.0;
            fmt_fault(u64::MAX, 0);
            if let Some(t) = sink.nested_bad {
                return Violation::new(format!("nested:{tag}"), format!("{what}: formatting {inner:?} in between gave {t:?}, expected {inner_text:?}"));
            }
            if sink.failed {
                st.fault(kind as usize - 1);
                faulted += 1;
            }
            if elem_fired {
                st.fault(9 + elem.1 as usize);
                faulted += 1;
                if elem.0 + 1 == elements {
                    st.probe(10);
                }
            }
            let panics = sink.failed && kind == S_PANIC || elem_fired && elem.1 == 1;
            let errs = sink.failed && kind != S_PANIC || elem_fired && elem.1 != 1;
            let prefix = limit.starts_with(&sink.accepted);
            let ok = match &r {
                Caught::Done(Ok(())) => !panics && !errs && !elem_on && sink.accepted == full,
                Caught::Done(Err(_)) => errs && prefix,
                Caught::Injected => panics && prefix,
                Caught::Panicked(_) => false,
            };
            if !ok {
                return Violation::new(
                    format!("format:{tag}"),
                    format!(
                        "{what} to a sink of kind {kind} at {at} (failed: {}), element fault {:?} (fired: {elem_fired}), ended as {r:?} with {:?} accepted of {full:?}",
                        sink.failed, elem, sink.accepted
                    ),
                );
            }
            if sink.failed || elem_fired {
                if sink.accepted.len() <= 8 {
                    st.probe(3);
                } else {
                    st.probe(4);
                }
                if sink.accepted.len() + 1 >= full.len() {
                    st.probe(5);
                }
            } else {
                match regs[spec.r].len() {
                    0 => st.probe(0),
                    1 => st.probe(1),
                    n if n == meta.declared.len() => st.probe(2),
                    _ => {}
                }
                if kind != S_PLAIN {
                    st.probe(6);
                }
            }
            st.state(mix_str(mix(mix_str(spec.spec * 8 + spec.doc, meta.name), full.len() as u64), &sink.accepted));
        }
        st.nontrivial = calls >= 3 && faulted >= 1;
        Ok(())
    }
}

fn main() {
    kernel::main(&C11)
}
