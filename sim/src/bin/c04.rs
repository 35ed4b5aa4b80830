//! C04: numeric snapshots survive crashes; corrupt ones are never accepted.
use enumset_sim::bits;
use enumset_sim::callers::{self, SYSTEM};
use enumset_sim::kernel::{self, *};
use enumset_sim::numm::*;
use enumset_sim::rng::{mix, mix_str, splitmix, Rng};
use enumset_sim::setm::{self, check_reg, Expect, Model, Op, Sets, REGS};
use enumset_sim::zoo::{self, Group, ShapeMeta};
use std::collections::BTreeSet;

fn make(name: &str) -> Box<dyn NumMachine> {
    use enumset_sim::zoo::*;
    macro_rules! pick {
        ($($t:ident)*) => {
            match name {
                $(stringify!($t) => Box::new(Sets::<$t>::new()) as Box<dyn NumMachine>,)*
                _ => panic!("no shape {name}"),
            }
        };
    }
    enumset_sim::for_core_shapes!(pick)
}

const FILES: usize = 4;
const OPS: &[&str] = &[
    "fill", "insert", "remove", "complement", "make", "save", "sync", "crash", "bit-rot", "stale", "load", "full-device",
    "noise", "union",
];
const FILL: usize = 0;
const INSERT: usize = 1;
const REMOVE: usize = 2;
const COMPL: usize = 3;
const MAKE: usize = 4;
const SAVE: usize = 5;
const SYNC: usize = 6;
const CRASH: usize = 7;
const ROT: usize = 8;
const STALE: usize = 9;
const LOAD: usize = 10;
const FULL: usize = 11;
const NOISE: usize = 12;
const UNION: usize = 13;

const FAULTS: &[&str] = &[
    "crash of a node", "unsynced write lost", "unsynced write torn", "stale version served", "bits flipped",
    "device full in the middle of a write", "image read in another form (widened or narrowed)", "uninitialised words read",
    "dirty destination buffer",
];
const PROBES: &[&str] = &[
    "save refused: a member does not fit", "truncated save dropped a member", "checked load refused", "checked load of a corrupt image accepted (all its bits valid)",
    "truncating load dropped bits", "intact image loaded", "refused because of a bit in a word the set does not have",
    "panicking form panicked", "unchecked load of valid bits", "slice longer than the set", "slice shorter than the set",
];

#[derive(Clone, Default)]
struct Image {
    bytes: Vec<u8>,
    /// What an intact image holds, and the form and length it was written in.
    intact: Option<(BTreeSet<u32>, u64, usize)>,
}
#[derive(Default)]
struct File {
    durable: Vec<Image>,
    pending: Option<Image>,
}
impl File {
    fn seen(&self) -> Image {
        self.pending.clone().or_else(|| self.durable.last().cloned()).unwrap_or_default()
    }
}

struct C04;

fn form_args(rng: &mut Rng) -> Vec<u64> {
    let form = rng.below(10);
    let len = if form == F_SLICE && rng.pct(20) { rng.below(70) } else { rng.below(12) };
    vec![form, rng.below(4), len]
}

/// Words that look like an image of the enum: mostly valid bits, with a few strangers.
fn noise(m: &ShapeMeta, kind: u64, salt: u64, len: usize) -> Vec<u64> {
    let mut x = salt;
    let mut w = vec![0u64; len];
    let set = |w: &mut Vec<u64>, d: u64| {
        if len > 0 {
            let d = d % (64 * len as u64);
            w[d as usize / 64] |= 1 << (d % 64);
        }
    };
    match kind % 6 {
        0 => w.iter_mut().for_each(|w| *w = splitmix(&mut x)),
        1 => w.iter_mut().for_each(|w| *w = u64::MAX),
        k => {
            for i in callers::pattern(m, salt % 10, salt >> 8) {
                if (m.declared[i] as usize) < 64 * len {
                    set(&mut w, m.declared[i] as u64);
                }
            }
            for _ in 0..(k - 2) {
                let d = match splitmix(&mut x) % 4 {
                    0 => splitmix(&mut x),
                    1 => m.max() as u64 + 1 + splitmix(&mut x) % 3,
                    2 => (splitmix(&mut x) % 4) * 64 + 63 * (splitmix(&mut x) % 2),
                    _ => splitmix(&mut x) % (m.max() as u64 + 2),
                };
                set(&mut w, d);
            }
        }
    }
    w
}

impl Engine for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn ops(&self) -> &'static [&'static str] {
        OPS
    }
    fn faults(&self) -> &'static [&'static str] {
        FAULTS
    }
    fn probes(&self) -> &'static [&'static str] {
        PROBES
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            120_000
        } else {
            20_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "seeded schedule of two nodes saving and loading sets of one of the 109 core enums in every numeric form on a \
         simulated disk; non-trivial: distinct script with at least three saves or loads after a fault or refusal"
    }
    fn real(&self) -> &'static [&'static str] {
        &["enumset (every as_/try_as_/from_/try_from_/copy_into conversion)", "enumset_derive (mask of valid bits for 109 enums)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["disk (byte images with pending, durable and older versions)", "nodes (seeded scheduler)", "big-integer reference reading"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["unchecked conversions are only given bits that belong to variants, as their contract demands", "usize has 64 bits"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (enum, contents of a loaded or saved set, form) triples"
    }

    fn generate(&self, rng: &mut Rng, run: u64, _tier: Tier) -> Script {
        let shapes = zoo::shapes(Group::Core);
        let m = shapes[(run % shapes.len() as u64) as usize];
        let w = callers::swarm(rng, &[4, 4, 4, 3, 2, 30, 10, 4, 4, 2, 30, 4, 12, 2]);
        let steps = rng.range(8, 60);
        let mut ev = Vec::new();
        for r in 0..REGS as u64 {
            let mut a = vec![r];
            let (k, s) = (rng.below(10), rng.next());
            a.extend(callers::pattern(m, k, s).into_iter().map(|i| i as u64));
            ev.push(Ev { t: 0, task: SYSTEM, op: FILL, a });
        }
        ev.extend(callers::interleave(rng, 2, steps, 0, None, |rng, task| {
            let r = task * 2 + rng.below(2);
            let f = rng.below(FILES as u64);
            let op = rng.weighted(&w);
            let a = match op {
                FILL => {
                    let mut a = vec![r];
                    let (k, s) = (rng.below(10), rng.next());
                    a.extend(callers::pattern(m, k, s).into_iter().map(|i| i as u64));
                    a
                }
                INSERT | REMOVE => vec![r, callers::variant(rng, m)],
                COMPL => vec![r, rng.below(2), r],
                MAKE => vec![r, rng.below(10), callers::variant(rng, m)],
                UNION => vec![r, rng.below(8), rng.below(4), rng.below(4)],
                SAVE | FULL => {
                    let mut a = vec![f, r];
                    a.extend(form_args(rng));
                    a.push(rng.next());
                    a.push(rng.below(80));
                    a
                }
                LOAD => {
                    let mut a = vec![f, r];
                    a.extend(form_args(rng));
                    a.push(rng.below(3));
                    a
                }
                SYNC | STALE => vec![f],
                CRASH => vec![task, rng.next(), rng.next()],
                ROT => {
                    let mut a = vec![f];
                    for _ in 0..rng.range(1, 3) {
                        a.push(if rng.pct(50) { rng.below(1024) } else { m.max() as u64 + rng.below(4) });
                    }
                    a
                }
                _ => {
                    let mut a = vec![r];
                    a.extend(form_args(rng));
                    a.extend([rng.below(6), rng.next()]);
                    a
                }
            };
            (op, a)
        }));
        Script { shape: m.name.to_string(), cfg: vec![], ev }
    }

    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation> {
        let Some(meta) = zoo::meta(&s.shape) else { return Ok(()) };
        let mut m = make(meta.name);
        let mut model = Model::new(meta);
        let mut files: Vec<File> = (0..FILES).map(|_| File::default()).collect();
        let mut scratch: Vec<u64> = Vec::new();
        let mut out = Vec::new();
        let shape_h = mix_str(4, meta.name);
        let mut eventful = 0;
        for (i, e) in s.ev.iter().enumerate() {
            let g = |k: usize| e.a.get(k).copied().unwrap_or(0);
            st.ops[e.op] += 1;
            let mut touched = None;
            match e.op {
                FILL | INSERT | REMOVE | COMPL | MAKE | UNION => {
                    let op = [Op::Fill, Op::Insert, Op::Remove, Op::Compl, Op::Make]
                        .get(e.op)
                        .copied()
                        .unwrap_or(Op::Bin);
                    let Some(a) = model.normalise(op, &e.a) else { continue };
                    out.clear();
                    m.exec(op, &a, &mut out);
                    if let Expect::Out(want) = model.apply(op, &a, &out, &|_| BTreeSet::new()) {
                        if want != out {
                            return Violation::new(
                                format!("result:{}", OPS[e.op]),
                                format!("event {i} {} {a:?} returned {out:?}, expected {want:?}", OPS[e.op]),
                            );
                        }
                    }
                    touched = Some(a[0] as usize);
                }
                SAVE | FULL => {
                    let (f, r) = (g(0) as usize % FILES, g(1) as usize % REGS);
                    let (form, mode, len, salt) = (g(2) % 10, g(3) % 3, g(4) as usize, g(5));
                    let set = model.regs[r].clone();
                    let top = set.last().map_or(0, |x| x + 1);
                    // The destination: a reused buffer full of old data.
                    let len = match form {
                        F_ARRAY => len % ARRAYS.len(),
                        F_SLICE => len % 70,
                        _ => 0,
                    };
                    if form == F_SLICE {
                        let mut x = salt;
                        scratch.resize_with(len, || splitmix(&mut x));
                        for w in scratch.iter_mut() {
                            if splitmix(&mut x) % 3 > 0 {
                                *w = splitmix(&mut x);
                            }
                        }
                        st.fault(8);
                    }
                    let mut buf = scratch.clone();
                    let words = match form {
                        F_ARRAY => ARRAYS[len],
                        F_SLICE => len,
                        F_VEC => usize::MAX / 128,
                        _ => 0,
                    };
                    let width: u64 = match form {
                        0..=5 => int_bits(form) as u64,
                        F_REPR => meta.repr_bits as u64,
                        _ => words as u64 * 64,
                    };
                    let end = m.save(r, form, mode, len, &mut buf);
                    st.checks += 1;
                    let fits = top as u64 <= width;
                    let can_refuse = !matches!(form, F_REPR | F_VEC);
                    let want = if form == F_REPR && meta.repr_bits == 0 {
                        End::Absent
                    } else if fits || mode == M_TRUNC || !can_refuse {
                        End::Ok
                    } else if mode == M_TRY {
                        End::Refused
                    } else {
                        End::Panicked
                    };
                    let what = format!(
                        "event {i}: saving {set:?} of {} as {} (mode {mode}, length {})",
                        meta.name, FORMS[form as usize], if form == F_ARRAY { ARRAYS[len] } else { len }
                    );
                    if end != want {
                        return Violation::new(
                            format!("save-end:{}:{mode}", FORMS[form as usize]),
                            format!("{what} ended as {end:?}, expected {want:?}"),
                        );
                    }
                    if end == End::Absent {
                        continue;
                    }
                    if end != End::Ok {
                        st.probe(if end == End::Panicked { 7 } else { 0 });
                        eventful += 1;
                        if form == F_SLICE && buf != scratch {
                            return Violation::new(
                                "refused-save-wrote",
                                format!("{what} was refused but changed the destination from {scratch:x?} to {buf:x?}"),
                            );
                        }
                        continue;
                    }
                    let kept: BTreeSet<u32> = set.iter().copied().filter(|d| (*d as u64) < width).collect();
                    if kept != set {
                        st.probe(1);
                        eventful += 1;
                    }
                    let good = match form {
                        0..=6 => buf == bits::to_words(&kept, 2),
                        F_VEC => bits::of_words(&buf) == kept,
                        _ => buf == bits::to_words(&kept, words),
                    };
                    if !good {
                        return Violation::new(
                            format!("saved-bits:{}:{mode}", FORMS[form as usize]),
                            format!("{what} wrote {buf:x?}, expected the bits {kept:?}"),
                        );
                    }
                    if form == F_SLICE {
                        scratch = buf.clone();
                        st.probe(if width > meta.max() as u64 + 64 { 9 } else { 10 });
                    }
                    for w in &buf {
                        st.observe(*w);
                    }
                    let mut bytes = bits::to_bytes(&buf);
                    if form <= F_REPR {
                        bytes.truncate(width as usize / 8);
                    }
                    st.state(mix(kept.iter().fold(shape_h, |h, d| mix(h, *d as u64)), form));
                    let n = bytes.len();
                    if e.op == FULL && n > 0 {
                        // Only a prefix reaches the file, over whatever was there.
                        let room = g(6) as usize % n;
                        let mut old = files[f].seen().bytes;
                        if old.len() < room {
                            old.resize(room, 0);
                        }
                        old[..room].copy_from_slice(&bytes[..room]);
                        files[f].pending = Some(Image { bytes: old, intact: None });
                        st.fault(5);
                        eventful += 1;
                    } else {
                        files[f].pending = Some(Image { bytes, intact: Some((kept, form, len)) });
                    }
                }
                SYNC => {
                    let f = &mut files[g(0) as usize % FILES];
                    if let Some(p) = f.pending.take() {
                        f.durable.push(p);
                    }
                }
                STALE => {
                    let f = &mut files[g(0) as usize % FILES];
                    if f.durable.len() > 1 {
                        f.durable.pop();
                        st.fault(3);
                    }
                }
                ROT => {
                    let f = &mut files[g(0) as usize % FILES];
                    let mut img = f.seen();
                    if !img.bytes.is_empty() {
                        for b in e.a.iter().skip(1) {
                            let b = *b as usize % (img.bytes.len() * 8);
                            img.bytes[b / 8] ^= 1 << (b % 8);
                        }
                        img.intact = None;
                        if f.pending.is_some() {
                            f.pending = Some(img);
                        } else {
                            f.durable.push(img);
                        }
                        st.fault(4);
                        eventful += 1;
                    }
                }
                CRASH => {
                    st.fault(0);
                    let node = g(0) as usize % 2;
                    let mut x = g(1);
                    for f in &mut files {
                        let Some(p) = f.pending.take() else { continue };
                        match splitmix(&mut x) % 3 {
                            0 => st.fault(1),
                            1 => f.durable.push(p),
                            _ => {
                                let mut img = f.durable.last().cloned().unwrap_or_default();
                                let cut = (splitmix(&mut x) % (p.bytes.len() as u64 + 1)) as usize;
                                if img.bytes.len() < p.bytes.len() {
                                    img.bytes.resize(p.bytes.len(), 0);
                                }
                                img.bytes[..cut].copy_from_slice(&p.bytes[..cut]);
                                img.intact = if img.bytes == p.bytes { p.intact } else { None };
                                f.durable.push(img);
                                st.fault(2);
                                eventful += 1;
                            }
                        }
                    }
                    for r in [node * 2, node * 2 + 1] {
                        m.exec(Op::Make, &[r as u64, 1], &mut out);
                        model.regs[r].clear();
                    }
                }
                _ => {
                    let noisy = e.op == NOISE;
                    let (r, form, mode, len) = if noisy {
                        (g(0) as usize % REGS, g(1) % 10, g(2) % 4, g(3) as usize)
                    } else {
                        (g(1) as usize % REGS, g(2) % 10, g(3) % 4, g(4) as usize)
                    };
                    let img = if noisy { Image::default() } else { files[g(0) as usize % FILES].seen() };
                    if !noisy && img.bytes.is_empty() && img.intact.is_none() {
                        continue;
                    }
                    // Read it in the form it was written in, or in any other.
                    let (form, len, same) = match (&img.intact, g(5) % 3) {
                        (Some((_, f, l)), 0 | 1) if !noisy => (*f, *l, true),
                        _ => (form, len, false),
                    };
                    let natural = img.bytes.len().div_ceil(8);
                    let (len, words) = match form {
                        0..=6 => (0, 2),
                        F_ARRAY => (len % ARRAYS.len(), ARRAYS[len % ARRAYS.len()]),
                        _ if same => (0, natural),
                        _ => (0, len % 70),
                    };
                    let width: u32 = match form {
                        0..=5 => int_bits(form),
                        F_REPR => meta.repr_bits,
                        _ => words as u32 * 64,
                    };
                    let mut data = if noisy {
                        st.fault(7);
                        noise(meta, g(4), g(5), words)
                    } else {
                        if !same {
                            st.fault(6);
                        }
                        bits::from_bytes(&img.bytes, words)
                    };
                    if form <= F_REPR && width < 128 {
                        // The form reads no more than its own width.
                        let mask = (1u128 << width) - 1;
                        data[0] &= mask as u64;
                        data[1] &= (mask >> 64) as u64;
                    }
                    let present = bits::of_words(&data);
                    let members: BTreeSet<u32> = present.intersection(&model.all).copied().collect();
                    let bad = members != present;
                    let mode = if mode == M_UNCHECKED && bad { M_TRUNC } else { mode };
                    let want = if form == F_REPR && meta.repr_bits == 0 {
                        End::Absent
                    } else if mode >= M_TRUNC || !bad {
                        End::Ok
                    } else if mode == M_TRY {
                        End::Refused
                    } else {
                        End::Panicked
                    };
                    let end = m.load(r, form, mode, len, &data);
                    st.checks += 1;
                    let what = format!(
                        "event {i}: loading {data:x?} into {} as {} (mode {mode})",
                        meta.name, FORMS[form as usize]
                    );
                    if end != want {
                        return Violation::new(
                            format!("load-end:{}:{mode}", FORMS[form as usize]),
                            format!("{what} ended as {end:?}, expected {want:?}"),
                        );
                    }
                    if end == End::Absent {
                        continue;
                    }
                    if bad {
                        eventful += 1;
                        st.probe(match end {
                            End::Refused => 2,
                            End::Panicked => 7,
                            _ => 4,
                        });
                        let own = (meta.max() / 64 + 1) * 64;
                        if end != End::Ok && present.iter().all(|d| model.all.contains(d) || *d >= own) {
                            st.probe(6);
                        }
                    } else if img.intact.is_none() && mode < M_TRUNC {
                        st.probe(3);
                    }
                    if end == End::Ok {
                        if mode == M_UNCHECKED {
                            st.probe(8);
                        }
                        model.regs[r] = members.clone();
                        st.state(mix(members.iter().fold(shape_h, |h, d| mix(h, *d as u64)), form + 100));
                        if let (true, Some((saved, ..))) = (same, &img.intact) {
                            st.probe(5);
                            if *saved != setm::read_set(&*m, r) {
                                return Violation::new(
                                    format!("round-trip:{}", FORMS[form as usize]),
                                    format!("{what}: {saved:?} was saved, {:?} came back", setm::read_set(&*m, r)),
                                );
                            }
                        }
                    } else {
                        st.checks += 1;
                    }
                    touched = Some(r);
                    if let Err(v) = check_reg(&*m, &model, r, true) {
                        return Violation::new(format!("loaded:{}:{mode}", FORMS[form as usize]), format!("{what}: {}", v.detail));
                    }
                }
            }
            for r in 0..REGS {
                if touched == Some(r) || i % 4 == 0 {
                    if let Err(v) = check_reg(&*m, &model, r, touched == Some(r)) {
                        return Violation::new(
                            format!("{}:{}", v.class, OPS[e.op]),
                            format!("after event {i} {} on {}: {}", OPS[e.op], meta.name, v.detail),
                        );
                    }
                    st.checks += 1;
                }
            }
        }
        st.nontrivial = eventful >= 3;
        Ok(())
    }
}

fn main() {
    kernel::main(&C04)
}
