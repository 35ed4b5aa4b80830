//! The enum shapes under simulation and the little per-enum glue that generic code cannot express.
use enumset::{EnumSet, EnumSetType};
use std::cell::Cell;
use std::fmt::{self, Debug, Display};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SerKind {
    U8,
    U16,
    U32,
    U64,
    U128,
    List,
    Map,
    Array,
}
impl SerKind {
    pub fn int_bits(self) -> Option<u32> {
        match self {
            SerKind::U8 => Some(8),
            SerKind::U16 => Some(16),
            SerKind::U32 => Some(32),
            SerKind::U64 => Some(64),
            SerKind::U128 => Some(128),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Group {
    Core,
    Ser,
    Ver,
}

/// What the source of a shape declares; the reference models are built from this, never from enumset.
#[derive(Debug)]
pub struct ShapeMeta {
    pub name: &'static str,
    pub declared: &'static [u32],
    pub ser: SerKind,
    pub deny: bool,
    pub ops: bool,
    pub repr_bits: u32,
    pub fam: &'static str,
    pub ver: u32,
    pub group: Group,
}
impl ShapeMeta {
    pub fn sorted(&self) -> Vec<u32> {
        let mut v = self.declared.to_vec();
        v.sort_unstable();
        v
    }
    pub fn max(&self) -> u32 {
        self.declared.iter().copied().max().unwrap_or(0)
    }
}
pub fn meta(name: &str) -> Option<&'static ShapeMeta> {
    SHAPES.iter().find(|x| x.name == name)
}
pub fn shapes(g: Group) -> Vec<&'static ShapeMeta> {
    SHAPES.iter().filter(|x| x.group == g).collect()
}

/// How many ways `Variant::macros` knows to combine its operands.
pub const MACROS: u64 = 31;

pub trait Variant: EnumSetType + Debug + Display + 'static {
    const META: &'static str;
    fn variants() -> &'static [Self];
    fn disc(self) -> u32;
    /// `a OP b` on a bare variant with a converting operand; `None` when the enum has no operators.
    fn bare<O: Into<EnumSet<Self>>>(_op: u64, _a: Self, _b: O) -> Option<EnumSet<Self>> {
        None
    }
    fn bare_not(_a: Self) -> Option<EnumSet<Self>> {
        None
    }
    fn bare_eq(_a: Self, _s: EnumSet<Self>) -> Option<bool> {
        None
    }
    /// The set macros, evaluated at run time on variants `v`, `w` and sets `s`, `t`.
    fn macros(_kind: u64, _vw: [Self; 2], _stu: [EnumSet<Self>; 3]) -> Option<EnumSet<Self>> {
        None
    }
    fn macro_only(_v: Self) -> Option<EnumSet<Self>> {
        None
    }
    /// `as_repr` / `from_repr` / `try_from_repr` / `from_repr_truncated`.
    fn as_repr(_s: EnumSet<Self>) -> Option<u128> {
        None
    }
    fn from_repr(_mode: u64, _bits: u128) -> Option<Option<EnumSet<Self>>> {
        None
    }
    /// Reads the same bytes the way the documentation says, without enumset (list and map enums only).
    fn reference(
        _doc: u64, _fmt: u64, _bytes: &[u8],
    ) -> Option<Result<crate::serm::Loaded<crate::serm::Reading>, String>> {
        None
    }
}

//------------------------------------------------------------------- element formatting as a seam

thread_local! {
    /// Elements formatted so far, and the element at which to fail (0) or panic (1), if any.
    static FMT_COUNT: Cell<u64> = const { Cell::new(0) };
    static FMT_FAULT: Cell<(u64, u64)> = const { Cell::new((u64::MAX, 0)) };
}
pub fn fmt_fault(at: u64, kind: u64) {
    FMT_COUNT.with(|c| c.set(0));
    FMT_FAULT.with(|c| c.set((at, kind)));
}
pub fn fmt_elements() -> u64 {
    FMT_COUNT.with(|c| c.get())
}
pub fn element_fmt(f: &mut fmt::Formatter<'_>, disc: u32, display: bool) -> fmt::Result {
    let n = FMT_COUNT.with(|c| c.replace(c.get() + 1));
    let (at, kind) = FMT_FAULT.with(|c| c.get());
    if n == at {
        match kind {
            0 => return Err(fmt::Error),
            1 => std::panic::panic_any(crate::Injected),
            _ => {
                f.write_str("half")?;
                return Err(fmt::Error);
            }
        }
    }
    // No allocation here: the text is built in a fixed buffer. Every option of the caller shows:
    // alternate, sign, width, fill, alignment, precision, zero flag.
    let mut b = Buf::<48>::new();
    use fmt::Write;
    if f.alternate() {
        b.write_str("#")?;
    }
    if f.sign_plus() {
        b.write_str("+")?;
    }
    if f.sign_minus() {
        b.write_str("-")?;
    }
    if f.sign_aware_zero_pad() {
        b.write_str("0")?;
    }
    write!(b, "{}{}", if display { "m" } else { "V" }, disc)?;
    f.pad(b.as_str())
}

/// A fixed-capacity string that needs no heap.
pub struct Buf<const N: usize> {
    pub data: [u8; N],
    pub len: usize,
}
impl<const N: usize> Buf<N> {
    pub fn new() -> Self {
        Buf { data: [0; N], len: 0 }
    }
    pub fn as_str(&self) -> &str {
        std::str::from_utf8(&self.data[..self.len]).unwrap_or("?")
    }
}
impl<const N: usize> fmt::Write for Buf<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        if self.len + b.len() > N {
            return Err(fmt::Error);
        }
        self.data[self.len..self.len + b.len()].copy_from_slice(b);
        self.len += b.len();
        Ok(())
    }
}

//------------------------------------------------------------------- glue generated per shape

macro_rules! fmt_impls {
    ($n:ident) => {
        impl Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                element_fmt(f, Variant::disc(*self), false)
            }
        }
        impl Display for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                element_fmt(f, Variant::disc(*self), true)
            }
        }
    };
}
macro_rules! variant {
    ($n:ident [$($v:ident),*] { $($extra:tt)* }) => {
        impl Variant for $n {
            const META: &'static str = stringify!($n);
            fn variants() -> &'static [Self] {
                &[$($n::$v),*]
            }
            fn disc(self) -> u32 {
                self as u32
            }
            $($extra)*
        }
        fmt_impls!($n);
    };
}
macro_rules! variant_empty {
    ($n:ident [] { $($extra:tt)* }) => {
        impl Variant for $n {
            const META: &'static str = stringify!($n);
            fn variants() -> &'static [Self] {
                &[]
            }
            fn disc(self) -> u32 {
                match self {}
            }
            $($extra)*
        }
        fmt_impls!($n);
    };
}
macro_rules! ops {
    () => {
        fn bare<O: Into<EnumSet<Self>>>(op: u64, a: Self, b: O) -> Option<EnumSet<Self>> {
            Some(match op % 4 {
                0 => a | b,
                1 => a & b,
                2 => a - b,
                _ => a ^ b,
            })
        }
        fn bare_not(a: Self) -> Option<EnumSet<Self>> {
            Some(!a)
        }
        fn bare_eq(a: Self, s: EnumSet<Self>) -> Option<bool> {
            Some(a == s)
        }
    };
}
macro_rules! const_macros {
    () => {
        fn macros(kind: u64, [v, w]: [Self; 2], [s, t, u]: [EnumSet<Self>; 3]) -> Option<EnumSet<Self>> {
            use enumset::*;
            Some(match kind {
                0 => enum_set!(v | w),
                1 => enum_set_union!(v, s, t),
                2 => enum_set_intersection!(s, t),
                3 => enum_set_difference!(s, t, v),
                4 => enum_set_symmetric_difference!(s, t, v),
                5 => enum_set_complement!(s),
                6 => enum_set!(s | t | v | w),
                7 => enum_set_intersection!(s, t, v),
                8 => enum_set_difference!(s, v),
                9 => enum_set_symmetric_difference!(v, s),
                10 => enum_set_complement!(v),
                11 => enum_set_difference!(v, s),
                12 => enum_set!(),
                13 => enum_set!(s |),
                14 => enum_set!(v | w | s | t | u |),
                15 => enum_set_union!(s),
                16 => enum_set_union!(u, t, v, s, w, s,),
                17 => enum_set_intersection!(u, s, t, s, t),
                18 => enum_set_difference!(u, v, s, w, t),
                19 => enum_set_symmetric_difference!(u, s, v, t, w),
                20 => enum_set_intersection!(v,),
                21 => enum_set_difference!(s,),
                22 => enum_set_symmetric_difference!(u,),
                23 => enum_set_complement!(u,),
                24 => enum_set_union!(u, s, t, v),
                25 => enum_set_intersection!(u, s, t, v),
                26 => enum_set_difference!(u, s, t, v),
                27 => enum_set_symmetric_difference!(u, s, t, v),
                28 => enum_set_union!(s, t),
                29 => enum_set!(|),
                _ => enum_set_symmetric_difference!(v, w),
            })
        }
        fn macro_only(v: Self) -> Option<EnumSet<Self>> {
            Some(enumset::enum_set!(v))
        }
    };
}
macro_rules! with_repr {
    ($r:ty) => {
        fn as_repr(s: EnumSet<Self>) -> Option<u128> {
            Some(s.as_repr() as u128)
        }
        fn from_repr(mode: u64, bits: u128) -> Option<Option<EnumSet<Self>>> {
            let bits = bits as _; // whatever the derive made of `$r`
            Some(match mode {
                0 => Some(EnumSet::from_repr(bits)),
                1 => EnumSet::try_from_repr(bits),
                2 => Some(EnumSet::from_repr_truncated(bits)),
                _ => Some(unsafe { EnumSet::from_repr_unchecked(bits) }),
            })
        }
    };
}
macro_rules! ref_with {
    ($r:ident) => {
        fn reference(
            doc: u64, fmt: u64, bytes: &[u8],
        ) -> Option<Result<crate::serm::Loaded<crate::serm::Reading>, String>> {
            Some(crate::serm::reference_as::<crate::serm::$r<Self>>(doc, fmt, bytes))
        }
    };
}
macro_rules! ref_list {
    () => {
        ref_with!(RefList);
    };
}
macro_rules! ref_map {
    () => {
        ref_with!(RefMap);
    };
}

mod gen {
    include!("zoo_gen.rs");
}
pub use gen::*;
