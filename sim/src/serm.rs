//! Serialized forms of a set: writing to and reading from byte streams that the simulator controls, and an
//! independent reading of the same bytes.
use crate::rng::splitmix;
use crate::setm::{Machine, Sets, REGS};
use crate::zoo::{meta, SerKind, Variant};
use bincode::Options;
use enumset::EnumSet;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Read, Write};

/// Wire formats. The last one writes like the first but reads from a slice.
pub const FMTS: [&str; 6] = ["json", "json-pretty", "bincode", "bincode-varint", "bincode-be", "json-slice"];
/// What the set is part of.
pub const DOCS: [&str; 3] = ["bare", "record", "rows"];

/// A set in the middle of a larger record: what follows it must still be found where it is.
#[derive(Serialize, Deserialize)]
pub struct Doc<X> {
    id: u64,
    set: X,
    note: String,
    more: Option<X>,
    tail: u16,
}


fn text<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
pub fn write_as<S: Serialize>(fmt: u64, x: &S, w: &mut dyn Write) -> Result<(), String> {
    let o = || bincode::DefaultOptions::new().with_limit(1 << 17);
    match fmt {
        0 | 5 => serde_json::to_writer(w, x).map_err(text),
        1 => serde_json::to_writer_pretty(w, x).map_err(text),
        2 => o().with_fixint_encoding().serialize_into(w, x).map_err(text),
        3 => o().serialize_into(w, x).map_err(text),
        _ => o().with_fixint_encoding().with_big_endian().serialize_into(w, x).map_err(text),
    }
}
pub fn read_as<D: DeserializeOwned>(fmt: u64, r: &mut dyn Read) -> Result<D, String> {
    let o = || bincode::DefaultOptions::new().with_limit(1 << 17);
    match fmt {
        0 | 1 => {
            let mut d = serde_json::Deserializer::from_reader(r);
            let x = D::deserialize(&mut d).map_err(text)?;
            d.end().map_err(text)?;
            Ok(x)
        }
        5 => {
            let mut b = Vec::new();
            r.read_to_end(&mut b).map_err(text)?;
            serde_json::from_slice(&b).map_err(text)
        }
        2 => o().with_fixint_encoding().deserialize_from(r).map_err(text),
        3 => o().deserialize_from(r).map_err(text),
        _ => o().with_fixint_encoding().with_big_endian().deserialize_from(r).map_err(text),
    }
}

/// What a document holds: plain fields, and its sets in order.
#[derive(Clone, PartialEq, Debug)]
pub struct Loaded<X> {
    pub plain: Vec<u64>,
    pub sets: Vec<X>,
}
fn read_doc<X: DeserializeOwned>(doc: u64, fmt: u64, r: &mut dyn Read) -> Result<Loaded<X>, String> {
    Ok(match doc {
        0 => Loaded { plain: vec![], sets: vec![read_as::<X>(fmt, r)?] },
        1 => {
            let d = read_as::<Doc<X>>(fmt, r)?;
            let note = crate::rng::mix_str(1, &d.note);
            let mut sets = vec![d.set];
            sets.extend(d.more);
            Loaded { plain: vec![d.id, note, d.tail as u64], sets }
        }
        _ => {
            let d = read_as::<Vec<(X, u8)>>(fmt, r)?;
            let plain = d.iter().map(|x| x.1 as u64).collect();
            Loaded { plain, sets: d.into_iter().map(|x| x.0).collect() }
        }
    })
}

/// An independent reading of one serialized set.
#[derive(Clone, PartialEq, Debug)]
pub struct Reading {
    /// Bits or variants present.
    pub bits: BTreeSet<u32>,
    /// The same, if the last of several entries for one key counts instead of any.
    pub last: BTreeSet<u32>,
    /// Whether a variant was named more than once.
    pub repeated: bool,
}
impl Reading {
    fn of(bits: BTreeSet<u32>) -> Self {
        Reading { last: bits.clone(), bits, repeated: false }
    }
}
pub trait RefKind: DeserializeOwned {
    fn reading(self) -> Reading;
}
macro_rules! ref_int {
    ($($t:ty)*) => {$(
        impl RefKind for $t {
            fn reading(self) -> Reading {
                Reading::of((0..<$t>::BITS).filter(|b| self >> b & 1 == 1).collect())
            }
        }
    )*};
}
ref_int!(u8 u16 u32 u64 u128);
#[derive(Deserialize)]
#[serde(transparent)]
pub struct RefArray(Vec<u64>);
impl RefKind for RefArray {
    fn reading(self) -> Reading {
        Reading::of(crate::bits::of_words(&self.0))
    }
}
#[derive(Deserialize)]
#[serde(transparent)]
pub struct RefList<T>(Vec<T>);
impl<T: Variant + DeserializeOwned> RefKind for RefList<T> {
    fn reading(self) -> Reading {
        let bits: BTreeSet<u32> = self.0.iter().map(|v| v.disc()).collect();
        let repeated = bits.len() != self.0.len();
        Reading { last: bits.clone(), bits, repeated }
    }
}
pub struct RefMap<T>(Vec<(T, bool)>);
impl<'de, T: Deserialize<'de>> Deserialize<'de> for RefMap<T> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        crate::refmap::entries(d).map(RefMap)
    }
}
impl<T: Variant + DeserializeOwned> RefKind for RefMap<T> {
    fn reading(self) -> Reading {
        let last: BTreeMap<u32, bool> = self.0.iter().map(|(v, b)| (v.disc(), *b)).collect();
        Reading {
            bits: self.0.iter().filter(|x| x.1).map(|x| x.0.disc()).collect(),
            repeated: last.len() != self.0.len(),
            last: last.into_iter().filter(|x| x.1).map(|x| x.0).collect(),
        }
    }
}
pub fn reference_as<R: RefKind>(doc: u64, fmt: u64, mut bytes: &[u8]) -> Result<Loaded<Reading>, String> {
    let l = read_doc::<R>(doc, fmt, &mut bytes)?;
    Ok(Loaded { plain: l.plain, sets: l.sets.into_iter().map(R::reading).collect() })
}

pub trait SerMachine: Machine {
    /// Writes a document with the sets of registers `r`, `r2` (record, unless `r2` is out of range) or all (rows).
    fn ser(&self, doc: u64, fmt: u64, r: usize, r2: usize, id: u64, w: &mut dyn Write) -> Result<(), String>;
    /// Reads a document; on success the sets replace registers `r` and `r2` or all.
    fn de(&mut self, doc: u64, fmt: u64, r: usize, r2: usize, src: &mut dyn Read) -> Result<Loaded<BTreeSet<u32>>, String>;
    fn reference(&self, doc: u64, fmt: u64, bytes: &[u8]) -> Result<Loaded<Reading>, String>;
}

/// Registers that a document with `n` sets is loaded into.
pub fn targets(doc: u64, r: usize, r2: usize, n: usize) -> Vec<usize> {
    match doc {
        0 => vec![r],
        1 => [r, r2].into_iter().take(n).collect(),
        _ => (0..n.min(REGS)).collect(),
    }
}
pub fn plain(doc: u64, id: u64) -> Vec<u64> {
    match doc {
        0 => vec![],
        1 => vec![id, crate::rng::mix_str(1, &note(id)), id as u16 as u64],
        _ => (0..REGS as u64).map(|i| (id + i) as u8 as u64).collect(),
    }
}
fn note(id: u64) -> String {
    format!("note {}", id % 1000)
}

impl<T: Variant> SerMachine for Sets<T> {
    fn ser(&self, doc: u64, fmt: u64, r: usize, r2: usize, id: u64, w: &mut dyn Write) -> Result<(), String> {
        match doc {
            0 => write_as(fmt, &self.regs[r], w),
            1 => {
                let more = self.regs.get(r2).copied();
                write_as(fmt, &Doc { id, set: self.regs[r], note: note(id), more, tail: id as u16 }, w)
            }
            _ => {
                let v: Vec<(EnumSet<T>, u8)> =
                    self.regs.iter().enumerate().map(|(i, s)| (*s, (id + i as u64) as u8)).collect();
                write_as(fmt, &v, w)
            }
        }
    }
    fn de(&mut self, doc: u64, fmt: u64, r: usize, r2: usize, src: &mut dyn Read) -> Result<Loaded<BTreeSet<u32>>, String> {
        let l = read_doc::<EnumSet<T>>(doc, fmt, src)?;
        for (r, s) in targets(doc, r, r2, l.sets.len()).into_iter().zip(&l.sets) {
            if let Some(x) = self.regs.get_mut(r) {
                *x = *s;
            }
        }
        let cap = T::variants().len() + 2;
        Ok(Loaded {
            plain: l.plain,
            sets: l.sets.iter().map(|s| s.iter().take(cap).map(|v| v.disc()).collect()).collect(),
        })
    }
    fn reference(&self, doc: u64, fmt: u64, bytes: &[u8]) -> Result<Loaded<Reading>, String> {
        match meta(T::META).unwrap().ser {
            SerKind::U8 => reference_as::<u8>(doc, fmt, bytes),
            SerKind::U16 => reference_as::<u16>(doc, fmt, bytes),
            SerKind::U32 => reference_as::<u32>(doc, fmt, bytes),
            SerKind::U64 => reference_as::<u64>(doc, fmt, bytes),
            SerKind::U128 => reference_as::<u128>(doc, fmt, bytes),
            SerKind::Array => reference_as::<RefArray>(doc, fmt, bytes),
            _ => T::reference(doc, fmt, bytes).expect("list and map enums have a reference reading"),
        }
    }
}

//---------------------------------------------------------------------------------- byte streams under control

/// How a stream misbehaves. `at` counts bytes.
#[derive(Clone, Copy, Debug, Default)]
pub struct Plan {
    /// 0: never, 1: error, 2: nothing more accepted (write) or end of file (read), 3: panic.
    pub kind: u64,
    pub at: u64,
    /// Drives short transfers and interruptions; 0: neither.
    pub salt: u64,
}
const ERRS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
];
pub struct Stream<'a> {
    plan: Plan,
    rng: u64,
    pub done: usize,
    pub fired: bool,
    pub shorts: u64,
    pub eintr: u64,
    pub src: &'a [u8],
    pub sink: Vec<u8>,
}
impl<'a> Stream<'a> {
    pub fn new(plan: Plan, src: &'a [u8]) -> Self {
        Stream { plan, rng: plan.salt, done: 0, fired: false, shorts: 0, eintr: 0, src, sink: Vec::new() }
    }
    /// How many of `n` bytes to move now.
    fn quota(&mut self, n: usize) -> io::Result<usize> {
        let mut q = n;
        if self.plan.salt != 0 && n > 0 {
            let x = splitmix(&mut self.rng);
            if x % 7 == 0 {
                self.eintr += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            if x % 3 != 0 {
                q = 1 + (x >> 8) as usize % n;
                if q < n {
                    self.shorts += 1;
                }
            }
        }
        if self.plan.kind != 0 && n > 0 {
            let left = (self.plan.at as usize).saturating_sub(self.done);
            if left == 0 {
                self.fired = true;
                match self.plan.kind {
                    1 if self.plan.at % 7 == 6 => return Err(io::Error::from_raw_os_error(28)),
                    1 => return Err(ERRS[self.plan.at as usize % 7].into()),
                    2 => return Ok(0),
                    _ => std::panic::panic_any(crate::Injected),
                }
            }
            q = q.min(left);
        }
        Ok(q)
    }
}
impl Write for Stream<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.quota(b.len())?;
        self.sink.extend_from_slice(&b[..n]);
        self.done += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.quota(b.len().min(self.src.len() - self.done))?;
        b[..n].copy_from_slice(&self.src[self.done..self.done + n]);
        self.done += n;
        Ok(n)
    }
}

//---------------------------------------------------------------------------------- documents of foreign peers

struct RawMap<'a>(&'a [(String, bool)]);
impl Serialize for RawMap<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
/// What a peer that knows nothing of enumset puts into a document for an enum serialized as `kind`.
pub fn raw_doc(kind: SerKind, wide: bool, doc: u64, fmt: u64, id: u64, words: &[u64], names: &[(String, bool)]) -> Vec<u8> {
    fn put<X: Serialize>(doc: u64, fmt: u64, id: u64, x: impl Fn() -> X) -> Vec<u8> {
        let mut b = Vec::new();
        let r = match doc {
            0 => write_as(fmt, &x(), &mut b),
            1 => write_as(fmt, &Doc { id, set: x(), note: note(id), more: Some(x()), tail: id as u16 }, &mut b),
            _ => {
                let v: Vec<(X, u8)> = (0..REGS as u64).map(|i| (x(), (id + i) as u8)).collect();
                write_as(fmt, &v, &mut b)
            }
        };
        r.expect("raw documents can be written");
        b
    }
    let n = words.first().copied().unwrap_or(0) as u128 | (words.get(1).copied().unwrap_or(0) as u128) << 64;
    match kind {
        SerKind::U8 if !wide => put(doc, fmt, id, || n as u8),
        SerKind::U16 if !wide => put(doc, fmt, id, || n as u16),
        SerKind::U32 if !wide => put(doc, fmt, id, || n as u32),
        SerKind::U64 if !wide => put(doc, fmt, id, || n as u64),
        SerKind::Array => put(doc, fmt, id, || words),
        SerKind::List => put(doc, fmt, id, || names.iter().map(|x| x.0.as_str()).collect::<Vec<_>>()),
        SerKind::Map => put(doc, fmt, id, || RawMap(names)),
        _ => put(doc, fmt, id, || n),
    }
}
