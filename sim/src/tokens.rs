//! A serde format made of tokens that never allocates, fails or panics at any chosen call, and behaves in every way
//! a legal format may.
use crate::rng::splitmix;
use crate::setm::{Machine, Op, Sets};
use crate::zoo::{SerKind, ShapeMeta, Variant};
use crate::{bits, callers};
use enumset::EnumSet;
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use std::collections::BTreeSet;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok {
    Bool(bool),
    /// Width in bits and value.
    Int(u32, u128),
    Variant(u32, &'static str),
    Seq(Option<usize>),
    Map(Option<usize>),
    End,
    /// Something no set may contain.
    Other(&'static str),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TokErr {
    /// The failure the simulator decided on.
    Injected(u64),
    /// Raised by the reader or writer itself (unknown variant, unknown bits, wrong type).
    Custom,
    /// The reader asked for something other than what comes next.
    Mismatch(&'static str),
    /// A sequence or map was polled again after it had reported its end.
    AfterEnd,
    Full,
}
impl fmt::Display for TokErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for TokErr {}
impl ser::Error for TokErr {
    fn custom<T: fmt::Display>(_: T) -> Self {
        TokErr::Custom
    }
}
impl de::Error for TokErr {
    fn custom<T: fmt::Display>(_: T) -> Self {
        TokErr::Custom
    }
}

/// At which call the format fails (1) or panics (2).
#[derive(Clone, Copy, Debug, Default)]
pub struct Fail {
    pub kind: u64,
    pub at: u64,
    /// Identity of the error.
    pub id: u64,
}
#[derive(Default)]
pub struct Calls {
    pub fail: Fail,
    pub n: u64,
    pub fired: bool,
    /// Calls made although an earlier one had failed.
    pub after: u64,
}
impl Calls {
    fn call(&mut self) -> Result<(), TokErr> {
        let n = self.n;
        self.n += 1;
        if self.fired {
            self.after += 1;
        }
        if self.fail.kind != 0 && n == self.fail.at && !self.fired {
            self.fired = true;
            if self.fail.kind == 2 {
                std::panic::panic_any(crate::Injected);
            }
            return Err(TokErr::Injected(self.fail.id));
        }
        Ok(())
    }
}

//---------------------------------------------------------------------------------- writing

pub struct TokOut<'a> {
    /// Filled up to its capacity, never beyond.
    pub buf: &'a mut Vec<Tok>,
    pub calls: Calls,
    pub readable: bool,
    /// The success value every writer has to hand back.
    pub nonce: u64,
}
impl TokOut<'_> {
    fn put(&mut self, t: Tok) -> Result<(), TokErr> {
        self.calls.call()?;
        if self.buf.len() == self.buf.capacity() {
            return Err(TokErr::Full);
        }
        self.buf.push(t);
        Ok(())
    }
    fn leaf(&mut self, t: Tok) -> Result<u64, TokErr> {
        self.put(t)?;
        Ok(self.nonce)
    }
}
macro_rules! ser_leaf {
    ($($f:ident $t:ty => |$x:ident| $e:expr;)*) => {$(
        fn $f(self, $x: $t) -> Result<u64, TokErr> {
            self.leaf($e)
        }
    )*};
}
impl<'x> ser::Serializer for &mut TokOut<'x> {
    type Ok = u64;
    type Error = TokErr;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    ser_leaf! {
        serialize_bool bool => |x| Tok::Bool(x);
        serialize_u8 u8 => |x| Tok::Int(8, x as u128);
        serialize_u16 u16 => |x| Tok::Int(16, x as u128);
        serialize_u32 u32 => |x| Tok::Int(32, x as u128);
        serialize_u64 u64 => |x| Tok::Int(64, x as u128);
        serialize_u128 u128 => |x| Tok::Int(128, x);
        serialize_i8 i8 => |_x| Tok::Other("i8");
        serialize_i16 i16 => |_x| Tok::Other("i16");
        serialize_i32 i32 => |_x| Tok::Other("i32");
        serialize_i64 i64 => |_x| Tok::Other("i64");
        serialize_i128 i128 => |_x| Tok::Other("i128");
        serialize_f32 f32 => |_x| Tok::Other("f32");
        serialize_f64 f64 => |_x| Tok::Other("f64");
        serialize_char char => |_x| Tok::Other("char");
        serialize_str &str => |_x| Tok::Other("str");
        serialize_bytes &[u8] => |_x| Tok::Other("bytes");
    }
    fn serialize_none(self) -> Result<u64, TokErr> {
        self.leaf(Tok::Other("none"))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Result<u64, TokErr> {
        self.put(Tok::Other("some"))?;
        x.serialize(self)
    }
    fn serialize_unit(self) -> Result<u64, TokErr> {
        self.leaf(Tok::Other("unit"))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<u64, TokErr> {
        self.leaf(Tok::Other("unit struct"))
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<u64, TokErr> {
        self.leaf(Tok::Variant(i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, x: &T) -> Result<u64, TokErr> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self, _: &'static str, _: u32, _: &'static str, x: &T,
    ) -> Result<u64, TokErr> {
        self.put(Tok::Other("newtype variant"))?;
        x.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, TokErr> {
        self.put(Tok::Seq(n))?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, TokErr> {
        self.put(Tok::Other("tuple"))?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, TokErr> {
        self.put(Tok::Other("tuple struct"))?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, TokErr> {
        self.put(Tok::Other("tuple variant"))?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, TokErr> {
        self.put(Tok::Map(n))?;
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, TokErr> {
        self.put(Tok::Other("struct"))?;
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, TokErr> {
        self.put(Tok::Other("struct variant"))?;
        Ok(self)
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, _: &T) -> Result<u64, TokErr> {
        self.leaf(Tok::Other("str"))
    }
    fn is_human_readable(&self) -> bool {
        self.readable
    }
}
macro_rules! ser_seq {
    ($($t:ident $f:ident)*) => {$(
        impl ser::$t for &mut TokOut<'_> {
            type Ok = u64;
            type Error = TokErr;
            fn $f<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), TokErr> {
                self.calls.call()?;
                x.serialize(&mut **self)?;
                Ok(())
            }
            fn end(self) -> Result<u64, TokErr> {
                self.leaf(Tok::End)
            }
        }
    )*};
}
ser_seq!(SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field);
impl ser::SerializeMap for &mut TokOut<'_> {
    type Ok = u64;
    type Error = TokErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), TokErr> {
        self.calls.call()?;
        x.serialize(&mut **self)?;
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), TokErr> {
        self.calls.call()?;
        x.serialize(&mut **self)?;
        Ok(())
    }
    fn end(self) -> Result<u64, TokErr> {
        self.leaf(Tok::End)
    }
}
macro_rules! ser_struct {
    ($($t:ident)*) => {$(
        impl ser::$t for &mut TokOut<'_> {
            type Ok = u64;
            type Error = TokErr;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, x: &T) -> Result<(), TokErr> {
                self.calls.call()?;
                x.serialize(&mut **self)?;
                Ok(())
            }
            fn end(self) -> Result<u64, TokErr> {
                self.leaf(Tok::End)
            }
        }
    )*};
}
ser_struct!(SerializeStruct SerializeStructVariant);

//---------------------------------------------------------------------------------- reading

/// How the format behaves where it is free to choose.
#[derive(Clone, Copy, Debug, Default)]
pub struct Manner {
    /// Size hint: 0 exact, 1 none, 2 zero, 3 huge, 4 one too many, 5 one too few.
    pub hint: u64,
    /// Integers arrive as: 0 the type asked for, 1 the narrowest that fits, 2 u64 (u128 if needed), 3 signed, 4 as written.
    pub width: u64,
    /// A further poll after the end: 0 the end again, 1 an error, 2 whatever comes next in the stream.
    pub end: u64,
    /// Variants arrive as: 0 name, 1 borrowed name, 2 index, 3 bytes.
    pub ident: u64,
    /// Not self-describing: the types asked for must be those written.
    pub strict: bool,
    pub readable: bool,
}
pub struct TokIn<'a> {
    pub toks: &'a [Tok],
    pub pos: usize,
    pub calls: Calls,
    pub manner: Manner,
    /// Elements of a sequence or map were left unread although the read succeeded.
    pub unread: bool,
    pub polled_after_end: u64,
    /// The first error the format raised.
    pub raised: Option<TokErr>,
}
impl<'a> TokIn<'a> {
    fn raise<X>(&mut self, e: TokErr) -> Result<X, TokErr> {
        self.raised.get_or_insert(e);
        Err(e)
    }
    fn call(&mut self) -> Result<(), TokErr> {
        match self.calls.call() {
            Ok(()) => Ok(()),
            Err(e) => self.raise(e),
        }
    }
    pub fn new(toks: &'a [Tok], fail: Fail, manner: Manner) -> Self {
        TokIn { toks, pos: 0, calls: Calls { fail, ..Calls::default() }, manner, unread: false, polled_after_end: 0, raised: None }
    }
    fn take(&mut self) -> Tok {
        let t = self.toks.get(self.pos).copied().unwrap_or(Tok::Other("nothing"));
        self.pos += 1;
        t
    }
    fn peek(&self) -> Tok {
        self.toks.get(self.pos).copied().unwrap_or(Tok::Other("nothing"))
    }
    /// Elements (of a map: entries) until the matching end.
    fn left(&self, map: bool) -> usize {
        let n = self.toks[self.pos.min(self.toks.len())..].iter().take_while(|t| **t != Tok::End).count();
        if map { n / 2 } else { n }
    }
    fn int<'de, V: Visitor<'de>>(&mut self, asked: u32, v: V) -> Result<V::Value, TokErr> {
        self.call()?;
        let Tok::Int(w, x) = self.take() else { return self.raise(TokErr::Mismatch("integer")) };
        if self.manner.strict && w != asked {
            return self.raise(TokErr::Mismatch("integer of another width"));
        }
        let need = 128 - x.leading_zeros();
        let fits = |w: u32| need <= w;
        let w = match self.manner.width {
            0 if fits(asked) => asked,
            0 | 4 => w,
            1 => 8,
            2 => 64,
            _ if need < 64 => {
                return match (need, x % 2) {
                    (0..=7, 0) => v.visit_i8(x as i8),
                    (0..=15, _) => v.visit_i16(x as i16),
                    (0..=31, _) => v.visit_i32(x as i32),
                    _ => v.visit_i64(x as i64),
                }
            }
            _ => 64,
        };
        match [8, 16, 32, 64, 128].into_iter().find(|b| *b >= w && fits(*b)) {
            Some(8) => v.visit_u8(x as u8),
            Some(16) => v.visit_u16(x as u16),
            Some(32) => v.visit_u32(x as u32),
            Some(64) => v.visit_u64(x as u64),
            _ => v.visit_u128(x),
        }
    }
    fn hint(&self, map: bool) -> Option<usize> {
        let n = self.left(map);
        match self.manner.hint {
            0 => Some(n),
            1 => None,
            2 => Some(0),
            3 => Some(usize::MAX),
            4 => Some(n + 1),
            _ => Some(n.saturating_sub(1)),
        }
    }
    fn compound<'de, V: Visitor<'de>>(&mut self, map: bool, v: V) -> Result<V::Value, TokErr> {
        self.call()?;
        match self.take() {
            Tok::Seq(_) if !map => {}
            Tok::Map(_) if map => {}
            _ => return self.raise(TokErr::Mismatch(if map { "map" } else { "sequence" })),
        }
        let mut a = Access { io: self, ended: false };
        let r = if map { v.visit_map(&mut a) } else { v.visit_seq(&mut a) };
        let ended = a.ended;
        if r.is_ok() && !ended {
            match self.take() {
                Tok::End => {}
                _ => self.unread = true,
            }
        }
        r
    }
}
macro_rules! de_int {
    ($($f:ident $w:literal)*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
            self.int($w, v)
        }
    )*};
}
macro_rules! de_any {
    ($($f:ident)*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
            self.deserialize_any(v)
        }
    )*};
}
impl<'de> de::Deserializer<'de> for &mut TokIn<'_> {
    type Error = TokErr;
    de_int!(deserialize_u8 8 deserialize_u16 16 deserialize_u32 32 deserialize_u64 64 deserialize_u128 128);
    de_any!(deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_f32
        deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
        deserialize_option deserialize_unit deserialize_identifier);
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        if self.manner.strict {
            return self.raise(TokErr::Mismatch("a type named by the reader"));
        }
        match self.peek() {
            Tok::Int(w, _) => self.int(w, v),
            Tok::Seq(_) => self.compound(false, v),
            Tok::Map(_) => self.compound(true, v),
            Tok::Bool(_) => self.deserialize_bool(v),
            Tok::Variant(..) => self.deserialize_enum("", &[], v),
            _ => self.raise(TokErr::Mismatch("anything")),
        }
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        self.call()?;
        match self.take() {
            Tok::Bool(b) => v.visit_bool(b),
            _ => self.raise(TokErr::Mismatch("bool")),
        }
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        self.compound(false, v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        self.compound(true, v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, TokErr> {
        self.raise(TokErr::Mismatch("tuple"))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, TokErr> {
        self.raise(TokErr::Mismatch("tuple struct"))
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, TokErr> {
        self.raise(TokErr::Mismatch("unit struct"))
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, TokErr> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self, _: &'static str, _: &'static [&'static str], _: V,
    ) -> Result<V::Value, TokErr> {
        self.raise(TokErr::Mismatch("struct"))
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self, _: &'static str, _: &'static [&'static str], v: V,
    ) -> Result<V::Value, TokErr> {
        self.call()?;
        match self.take() {
            Tok::Variant(i, n) => v.visit_enum(One { io: self, index: i, name: n }),
            _ => self.raise(TokErr::Mismatch("variant")),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        self.call()?;
        self.take();
        v.visit_unit()
    }
    fn is_human_readable(&self) -> bool {
        self.manner.readable
    }
}

struct Access<'x, 'a> {
    io: &'x mut TokIn<'a>,
    ended: bool,
}
impl Access<'_, '_> {
    /// Whether another element follows.
    fn more(&mut self) -> Result<bool, TokErr> {
        self.io.call()?;
        if self.ended {
            self.io.polled_after_end += 1;
            return match self.io.manner.end {
                0 => Ok(false),
                1 => self.io.raise(TokErr::AfterEnd),
                _ => Ok(self.io.pos < self.io.toks.len()),
            };
        }
        if self.io.peek() == Tok::End {
            self.io.pos += 1;
            self.ended = true;
            return Ok(false);
        }
        if self.io.pos >= self.io.toks.len() {
            return self.io.raise(TokErr::Mismatch("the end of the stream"));
        }
        Ok(true)
    }
}
impl<'de> de::SeqAccess<'de> for &mut Access<'_, '_> {
    type Error = TokErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, TokErr> {
        if self.more()? {
            seed.deserialize(&mut *self.io).map(Some)
        } else {
            Ok(None)
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.io.hint(false)
    }
}
impl<'de> de::MapAccess<'de> for &mut Access<'_, '_> {
    type Error = TokErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, TokErr> {
        if self.more()? {
            seed.deserialize(&mut *self.io).map(Some)
        } else {
            Ok(None)
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, TokErr> {
        self.io.call()?;
        seed.deserialize(&mut *self.io)
    }
    fn size_hint(&self) -> Option<usize> {
        self.io.hint(true)
    }
}

struct One<'x, 'a> {
    io: &'x mut TokIn<'a>,
    index: u32,
    name: &'static str,
}
impl<'de, 'x, 'a> de::EnumAccess<'de> for One<'x, 'a> {
    type Error = TokErr;
    type Variant = Rest<'x, 'a>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Rest<'x, 'a>), TokErr> {
        self.io.call()?;
        let x = seed.deserialize(Ident { mode: self.io.manner.ident, index: self.index, name: self.name })?;
        Ok((x, Rest { io: self.io }))
    }
}
struct Rest<'x, 'a> {
    io: &'x mut TokIn<'a>,
}
impl<'de> de::VariantAccess<'de> for Rest<'_, '_> {
    type Error = TokErr;
    fn unit_variant(self) -> Result<(), TokErr> {
        self.io.call()
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, TokErr> {
        self.io.raise(TokErr::Mismatch("unit variant"))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, TokErr> {
        self.io.raise(TokErr::Mismatch("unit variant"))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, TokErr> {
        self.io.raise(TokErr::Mismatch("unit variant"))
    }
}
struct Ident {
    mode: u64,
    index: u32,
    name: &'static str,
}
impl<'de> de::Deserializer<'de> for Ident {
    type Error = TokErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        match self.mode {
            0 => v.visit_str(self.name),
            1 => v.visit_borrowed_str(self.name),
            2 => v.visit_u64(self.index as u64),
            _ => v.visit_bytes(self.name.as_bytes()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

//---------------------------------------------------------------------------------- sets


pub trait TokMachine: Machine {
    fn tok_ser(&self, r: usize, out: &mut TokOut) -> Result<u64, TokErr>;
    /// On success the register is replaced.
    fn tok_de(&mut self, r: usize, src: &mut TokIn) -> Result<(), TokErr>;
    /// Reads into the register as it stands; on an error it may hold any valid set.
    fn tok_de_in(&mut self, r: usize, src: &mut TokIn) -> Result<(), TokErr>;
}
impl<T: Variant> TokMachine for Sets<T> {
    fn tok_ser(&self, r: usize, out: &mut TokOut) -> Result<u64, TokErr> {
        self.regs[r].serialize(out)
    }
    fn tok_de(&mut self, r: usize, src: &mut TokIn) -> Result<(), TokErr> {
        self.regs[r] = <EnumSet<T> as de::Deserialize>::deserialize(src)?;
        Ok(())
    }
    fn tok_de_in(&mut self, r: usize, src: &mut TokIn) -> Result<(), TokErr> {
        de::Deserialize::deserialize_in_place(src, &mut self.regs[r])
    }
}

/// What a peer that knows nothing of enumset might send.
pub fn foreign(m: &ShapeMeta, vars: &[Tok], a: &[u64], out: &mut Vec<Tok>) {
    let g = |k: usize| a.get(k).copied().unwrap_or(0);
    let mut x = g(1);
    let mut rnd = |n: u64| splitmix(&mut x) % n.max(1);
    let own = m.max() as usize / 64 + 1;
    let picked: BTreeSet<u32> = callers::pattern(m, g(2), g(3)).into_iter().map(|i| m.declared[i]).collect();
    let stranger = |k: u64, r: u64, top: u64| match k % 4 {
        0 => r % top,
        1 => m.max() as u64 + 1,
        2 => top - 1,
        _ => r % (m.max() as u64 + 1),
    };
    out.clear();
    match m.ser {
        SerKind::Array => {
            let len = match g(0) % 5 {
                0 | 1 => own,
                2 => own + 1 + rnd(3) as usize,
                3 => rnd(own as u64 + 1) as usize,
                _ => rnd(30) as usize,
            };
            let mut b: BTreeSet<u32> = picked;
            for s in a.iter().skip(4) {
                b.insert(stranger(s & 3, s >> 8, 64 * len.max(1) as u64) as u32);
            }
            let w = bits::to_words(&b, len);
            out.push(Tok::Seq(Some(len)));
            out.extend(w.iter().map(|w| Tok::Int(64, *w as u128)));
            if len > 0 && a.len() == 6 && rnd(4) == 0 {
                // Not a u64 at all.
                out[1 + rnd(len as u64) as usize] = Tok::Int(128, 1 << (64 + rnd(64)));
            }
            out.push(Tok::End);
        }
        SerKind::List | SerKind::Map => {
            let map = m.ser == SerKind::Map;
            let n = rnd(vars.len() as u64 * 2 + 3);
            out.push(if map { Tok::Map(Some(n as usize)) } else { Tok::Seq(Some(n as usize)) });
            for _ in 0..n {
                out.push(if vars.is_empty() || a.len() == 6 && rnd(n) == 0 {
                    Tok::Variant(1_000_000, "Unknown")
                } else {
                    vars[rnd(vars.len() as u64) as usize]
                });
                if map {
                    out.push(Tok::Bool(rnd(3) > 0));
                }
            }
            out.push(Tok::End);
        }
        k => {
            let w = k.int_bits().unwrap() as u64;
            let mut v = 0u128;
            for d in picked {
                v |= 1u128 << d;
            }
            for s in a.iter().skip(4) {
                // Now and then beyond the declared type.
                let top = if s & 12 == 0 { 128 } else { w };
                v |= 1u128 << (stranger(s & 3, s >> 8, top) % 128);
            }
            out.push(Tok::Int(k.int_bits().unwrap(), v));
        }
    }
}
/// The variants as the format knows them: names V<discriminant> in declaration order (lists and maps only).
pub fn names<M: TokMachine + ?Sized>(m: &mut M, meta: &ShapeMeta, cap: usize) -> Vec<Tok> {
    let mut vars: Vec<Tok> = Vec::new();
    if matches!(meta.ser, SerKind::List | SerKind::Map) {
        let mut buf = Vec::with_capacity(cap);
        let mut out = Vec::new();
        m.exec(Op::Make, &[0, 3], &mut out);
        let mut o = TokOut { buf: &mut buf, calls: Calls::default(), readable: true, nonce: 0 };
        let _ = m.tok_ser(0, &mut o);
        m.exec(Op::Make, &[0, 0], &mut out);
        vars.extend(buf.iter().filter(|t| matches!(t, Tok::Variant(..))));
    }
    vars
}
