//! Engine shared by the checks whose workload is a history of set operations (C01, C02, C03).
use crate::callers;
use crate::kernel::*;
use crate::rng::{mix, mix_str, Rng};
use crate::setm::*;
use crate::zoo::{self, Group, ShapeMeta};

pub struct SetEngine {
    pub id: &'static str,
    pub make: fn(&str) -> Box<dyn Machine>,
    /// Base weight of every kind of step, in the order of `setm::ALL`.
    pub weights: fn(Op) -> u64,
    /// Whether caller code handed to the sets panics, ends early and lies.
    pub faults: bool,
    pub runs: (u64, u64),
    pub steps: (u64, u64),
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub const FAULTS: &[&str] = &[
    "caller stalls (more than 1.5 simulated ms between two steps)",
    "caller deaths",
    "caller iterator panics inside an update",
    "caller iterator ends early and yields afterwards",
    "caller iterator lies about its size",
    "operand conversion panics",
];
pub const PROBES: &[&str] = &[
    "a set became complete",
    "a set became empty again",
    "iterator stepped from both ends",
    "iterator alive while its source changed",
    "two clones of one iterator diverged",
    "iterator asked again after exhaustion",
    "set spans several words",
    "update interrupted after at least one element",
    "update interrupted on a non-empty target",
    "bare-variant operator",
];

impl SetEngine {
    fn shapes(&self) -> Vec<&'static ShapeMeta> {
        zoo::shapes(Group::Core)
    }
}

pub fn feed_args(rng: &mut Rng, m: &ShapeMeta, faults: bool) -> Vec<u64> {
    let kind = rng.below(8);
    let n = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => rng.below(40),
        _ => rng.below(7),
    };
    let panic_at = if faults && rng.pct(45) { rng.below(n + 1) } else { 1 << 20 };
    let none_at = if faults && rng.pct(25) { rng.below(n + 1) } else { 1 << 20 };
    let hint = if faults { rng.below(6) } else { rng.below(2) };
    let mut a = vec![rng.below(4), kind, panic_at, none_at, hint];
    for _ in 0..n {
        a.push(if matches!(kind, 0 | 2 | 6 | 7) { callers::variant(rng, m) } else { rng.below(4) });
    }
    a
}

pub fn step_args(rng: &mut Rng, m: &ShapeMeta, op: Op, faults: bool) -> Vec<u64> {
    let r = |rng: &mut Rng| rng.below(REGS as u64);
    let v = |rng: &mut Rng| callers::variant(rng, m);
    match op {
        Op::Make => vec![r(rng), rng.below(10), v(rng)],
        Op::Insert | Op::Remove | Op::Contains | Op::EqV | Op::BareNot => vec![r(rng), v(rng)],
        Op::Clear | Op::Len | Op::DropIt => vec![r(rng)],
        Op::Bin => vec![r(rng), rng.below(8), r(rng), r(rng)],
        Op::BinV => vec![r(rng), rng.below(4), r(rng), v(rng)],
        Op::Assign | Op::Bulk | Op::Compl | Op::Copy => vec![r(rng), rng.below(4), r(rng)],
        Op::AssignV => vec![r(rng), rng.below(4), v(rng)],
        Op::Bare => vec![r(rng), rng.below(4), v(rng), v(rng)],
        Op::BareS => vec![r(rng), rng.below(4), v(rng), r(rng)],
        Op::Rel | Op::CloneIt => vec![r(rng), r(rng)],
        Op::Macro => vec![r(rng), rng.below(zoo::MACROS), v(rng), v(rng), r(rng), r(rng)],
        Op::Fill => {
            let mut a = vec![r(rng)];
            let (k, s) = (rng.below(10), rng.next());
            a.extend(callers::pattern(m, k, s).into_iter().map(|i| i as u64));
            a
        }
        Op::Feed => feed_args(rng, m, faults),
        Op::Operand => {
            let form = rng.below(3);
            let left = if form == 2 { v(rng) } else { r(rng) };
            vec![r(rng), form, rng.below(4), left, r(rng), (faults && rng.pct(60)) as u64]
        }
        Op::Iter => vec![r(rng), r(rng), rng.below(2)],
        Op::Step => {
            let kind = if rng.pct(70) { rng.below(2) } else { rng.below(STEPS) };
            let arg = if (5..15).contains(&kind) {
                if m.declared.is_empty() {
                    0
                } else {
                    m.declared[v(rng) as usize] as u64 + rng.below(2)
                }
            } else {
                match rng.below(9) {
                    0 | 1 => rng.below(70),
                    2 | 3 => 0,
                    4 => NONE,
                    _ => rng.below(4),
                }
            };
            vec![r(rng), kind, arg]
        }
        Op::Drain => vec![r(rng), rng.below(DRAINS), rng.below(5)],
        Op::Die => vec![],
    }
}

impl Engine for SetEngine {
    fn id(&self) -> &'static str {
        self.id
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        if self.faults {
            FAULTS
        } else {
            &FAULTS[..2]
        }
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            self.runs.0
        } else {
            self.runs.1
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real(&self) -> &'static [&'static str] {
        self.real
    }
    fn stub(&self) -> &'static [&'static str] {
        self.stub
    }
    fn assumptions(&self) -> &'static [&'static str] {
        self.assumptions
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, contents of a set) pairs reached"
    }

    fn generate(&self, rng: &mut Rng, run: u64, _tier: Tier) -> Script {
        let shapes = self.shapes();
        let m = shapes[(run % shapes.len() as u64) as usize];
        let base: Vec<u64> = ALL.iter().map(|o| (self.weights)(*o)).collect();
        let w = callers::swarm(rng, &base);
        let tasks = 1 + rng.below(5);
        let steps = rng.range(self.steps.0, self.steps.1);
        // Start from filled sets in most runs: sparse sets exercise little.
        let mut ev = Vec::new();
        if rng.pct(75) {
            for r in 0..REGS as u64 {
                let mut a = step_args(rng, m, Op::Fill, false);
                a[0] = r;
                ev.push(Ev { t: 0, task: callers::SYSTEM, op: Op::Fill as usize, a });
            }
        }
        let faults = self.faults;
        ev.extend(callers::interleave(rng, tasks, steps, 15, Some(Op::Die as usize), |rng, _| {
            let op = ALL[rng.weighted(&w)];
            (op as usize, step_args(rng, m, op, faults))
        }));
        Script { shape: m.name.to_string(), cfg: vec![tasks], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        let mut m = (self.make)(meta.name);
        let mut model = Model::new(meta);
        let shape_h = mix_str(0, meta.name);
        let mut out: Vec<u64> = Vec::with_capacity(2 * meta.declared.len() + 64);
        let mut changes = 0;
        let mut tasks = [false; 8];
        let mut ends = [0u8; ITS];
        let mut last_t = [0u64; 8];
        let mut clones: [Option<usize>; ITS] = [None; ITS];
        for (i, e) in s.ev.iter().enumerate() {
            let op = ALL[e.op];
            let ti = (e.task % 8) as usize;
            if e.t > last_t[ti] + 1500 {
                st.fault(0);
            }
            last_t[ti] = e.t;
            if op == Op::Die {
                st.fault(1);
                continue;
            }
            let Some(a) = model.normalise(op, &e.a) else { continue };
            st.ops[e.op] += 1;
            out.clear();
            let kind = a.get(1).copied().unwrap_or(0);
            let tag = match op {
                Op::Insert | Op::Remove | Op::Contains | Op::EqV | Op::Rel | Op::CloneIt | Op::Fill | Op::Iter
                | Op::BareNot => OPS[e.op].to_string(),
                _ => format!("{}:{kind}", OPS[e.op]),
            };
            if let Caught::Panicked(p) = guard(|| m.exec(op, &a, &mut out)) {
                return Violation::new(format!("panic:{tag}"), format!("event {i} {tag} {a:?} panicked: {p}"));
            }
            let before = a.first().filter(|r| **r < REGS as u64).map(|r| model.regs[*r as usize].clone());
            let now = |r: usize| read_set(&*m, r);
            match model.apply(op, &a, &out, &now) {
                Expect::Skip => continue,
                Expect::Judged(r) => r?,
                Expect::Out(want) => {
                    st.checks += 1;
                    if want != out {
                        return Violation::new(
                            format!("result:{tag}"),
                            format!("event {i} {tag} {a:?} on {} returned {out:?}, expected {want:?}", meta.name),
                        );
                    }
                }
            }
            for o in &out {
                st.observe(*o);
            }
            // The touched set in full, every other one by iteration: nothing else may have moved.
            let on_set = !matches!(op, Op::Iter | Op::Step | Op::CloneIt | Op::Drain | Op::DropIt);
            let touched = if on_set { a.first().copied() } else { None };
            for r in 0..REGS {
                let full = touched == Some(r as u64);
                if full || i % 4 == 0 || meta.declared.len() <= 64 {
                    if let Err(v) = check_reg(&*m, &model, r, full) {
                        return Violation::new(
                            format!("{}:{tag}{}", v.class, if full { "" } else { ":bystander" }),
                            format!("after event {i} {tag} {a:?} on {}: {}", meta.name, v.detail),
                        );
                    }
                    st.checks += 1;
                }
            }
            if let (Some(r), Some(b)) = (touched, before) {
                let r = r as usize;
                if b != model.regs[r] {
                    changes += 1;
                    tasks[ti] = true;
                    if model.its.iter().flatten().any(|q| !q.is_empty()) {
                        st.probe(3);
                    }
                    if !model.all.is_empty() && model.regs[r].len() == model.all.len() {
                        st.probe(0);
                    }
                    if model.regs[r].is_empty() {
                        st.probe(1);
                    }
                }
                if model.regs[r].last().copied().unwrap_or(0) / 64 != model.regs[r].first().copied().unwrap_or(0) / 64 {
                    st.probe(6);
                }
                let h = model.regs[r].iter().fold(shape_h, |h, d| mix(h, *d as u64));
                st.state(h);
            }
            match op {
                Op::Feed if self.faults => {
                    let n = a.len() as u64 - 5;
                    if out[1] == 1 {
                        st.fault(2);
                        if out[0] > 0 {
                            st.probe(7);
                            if a[1] < 2 && !model.regs[a[0] as usize].is_empty() {
                                st.probe(8);
                            }
                        }
                    }
                    if a[3] < n && out[1] == 0 {
                        st.fault(3);
                    }
                    if a[4] > 1 {
                        st.fault(4);
                    }
                }
                Op::Operand if self.faults && a[5] == 1 => st.fault(5),
                Op::Bare | Op::BareS | Op::BareNot if meta.ops => st.probe(9),
                Op::Iter => ends[a[0] as usize] = 0,
                Op::CloneIt => {
                    ends[a[0] as usize] = ends[a[1] as usize];
                    clones[a[0] as usize] = Some(a[1] as usize);
                }
                Op::Step => {
                    let it = a[0] as usize;
                    if a[1] < 2 {
                        if ends[it] | 1 << a[1] == 3 && ends[it] != 3 {
                            st.probe(2);
                        }
                        ends[it] |= 1 << a[1];
                        if out[0] == NONE {
                            st.probe(5);
                        }
                    }
                    if let Some(o) = clones[it] {
                        if model.its[o] != model.its[it] {
                            st.probe(4);
                            clones[it] = None;
                        }
                    }
                }
                _ => {}
            }
        }
        // Whatever is still alive yields exactly the rest of its snapshot, from either end.
        for it in 0..ITS {
            let Some(rest) = model.its[it].clone() else { continue };
            let mut want: Vec<u64> = rest.iter().map(|x| *x as u64).collect();
            let spare = (it + 1) % ITS;
            for dir in 0..2u64 {
                m.exec(Op::CloneIt, &[spare as u64, it as u64], &mut out);
                out.clear();
                m.exec(Op::Drain, &[spare as u64, dir, 0], &mut out);
                st.checks += 1;
                if out != want {
                    return Violation::new(
                        "snapshot",
                        format!("at the end iterator {it} on {} yields {out:?} (direction {dir}), expected {want:?}", meta.name),
                    );
                }
                want.reverse();
            }
            // The spare slot was overwritten: it is only checked through its own clone when its turn comes first.
            if spare > it {
                model.its[spare] = None;
            }
        }
        st.nontrivial = changes >= 5 && tasks.iter().filter(|x| **x).count() >= 1;
        Ok(())
    }
}
