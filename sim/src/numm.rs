//! The numeric forms of a set: saving into and loading from integers, arrays, slices and vectors.
use crate::kernel::{guard, Caught};
use crate::setm::{Machine, Sets, REGS};
use crate::zoo::Variant;
use enumset::EnumSet;

/// Numeric forms. Integers, then the declared representation, then word sequences.
pub const FORMS: [&str; 10] = ["u8", "u16", "u32", "u64", "u128", "usize", "repr", "array", "slice", "vec"];
pub const F_REPR: u64 = 6;
pub const F_ARRAY: u64 = 7;
pub const F_SLICE: u64 = 8;
pub const F_VEC: u64 = 9;
/// Modes of a conversion.
pub const M_PANIC: u64 = 0;
pub const M_TRY: u64 = 1;
pub const M_TRUNC: u64 = 2;
pub const M_UNCHECKED: u64 = 3;
/// Array lengths offered as const generics.
pub const ARRAYS: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 8, 16, 17];

pub fn int_bits(form: u64) -> u32 {
    [8, 16, 32, 64, 128, usize::BITS][form as usize]
}

/// How a conversion ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Ok,
    /// `None`.
    Refused,
    /// The panicking form panicked.
    Panicked,
    /// This enum does not offer the form.
    Absent,
}

pub trait NumMachine: Machine {
    /// Writes register `r` in the given form. Integers and the declared representation go to `buf[0..2]`, arrays of
    /// `ARRAYS[len]` words, slices of `buf.len()` words and vectors into `buf` (vectors replace it).
    fn save(&self, r: usize, form: u64, mode: u64, len: usize, buf: &mut Vec<u64>) -> End;
    /// Reads register `r` back from `words` (integers and the representation: two words).
    fn load(&mut self, r: usize, form: u64, mode: u64, len: usize, words: &[u64]) -> End;
}

fn put(buf: &mut Vec<u64>, x: u128) {
    buf.clear();
    buf.push(x as u64);
    buf.push((x >> 64) as u64);
}

fn ended<X>(mode: u64, g: Caught<Option<X>>) -> (End, Option<X>) {
    match g {
        Caught::Done(Some(x)) => (End::Ok, Some(x)),
        Caught::Done(None) => (End::Refused, None),
        _ if mode == M_PANIC => (End::Panicked, None),
        // A panic where none is documented: passed on, the kernel reports it.
        _ => std::panic::panic_any(crate::kernel::last_panic()),
    }
}

impl<T: Variant> NumMachine for Sets<T> {
    fn save(&self, r: usize, form: u64, mode: u64, len: usize, buf: &mut Vec<u64>) -> End {
        let s: EnumSet<T> = self.regs[r % REGS];
        macro_rules! int {
            ($as:ident $try:ident $tr:ident) => {{
                let (e, x) = ended(
                    mode,
                    guard(|| match mode {
                        M_PANIC => Some(s.$as()),
                        M_TRY => s.$try(),
                        _ => Some(s.$tr()),
                    }),
                );
                if let Some(x) = x {
                    put(buf, x as u128);
                }
                e
            }};
        }
        macro_rules! arr {
            ($($n:literal)*) => {
                match ARRAYS[len % ARRAYS.len()] {
                    $($n => {
                        let (e, x) = ended(
                            mode,
                            guard(|| match mode {
                                M_PANIC => Some(s.as_array::<$n>()),
                                M_TRY => s.try_as_array::<$n>(),
                                _ => Some(s.as_array_truncated::<$n>()),
                            }),
                        );
                        if let Some(x) = x {
                            buf.clear();
                            buf.extend_from_slice(&x);
                        }
                        e
                    })*
                    _ => End::Absent,
                }
            };
        }
        match form {
            0 => int!(as_u8 try_as_u8 as_u8_truncated),
            1 => int!(as_u16 try_as_u16 as_u16_truncated),
            2 => int!(as_u32 try_as_u32 as_u32_truncated),
            3 => int!(as_u64 try_as_u64 as_u64_truncated),
            4 => int!(as_u128 try_as_u128 as_u128_truncated),
            5 => int!(as_usize try_as_usize as_usize_truncated),
            6 => match T::as_repr(s) {
                Some(x) => {
                    put(buf, x);
                    End::Ok
                }
                None => End::Absent,
            },
            7 => arr!(0 1 2 3 4 5 6 8 16 17),
            8 => {
                ended(
                    mode,
                    guard(|| match mode {
                        M_PANIC => {
                            s.copy_into_slice(buf);
                            Some(())
                        }
                        M_TRY => s.try_copy_into_slice(buf),
                        _ => {
                            s.copy_into_slice_truncated(buf);
                            Some(())
                        }
                    }),
                )
                .0
            }
            _ => {
                *buf = s.to_vec();
                End::Ok
            }
        }
    }

    fn load(&mut self, r: usize, form: u64, mode: u64, len: usize, words: &[u64]) -> End {
        let bits = words.first().copied().unwrap_or(0) as u128 | (words.get(1).copied().unwrap_or(0) as u128) << 64;
        macro_rules! int {
            ($t:ty, $from:ident $try:ident $tr:ident $un:ident) => {
                ended(
                    mode,
                    guard(|| match mode {
                        M_PANIC => Some(EnumSet::<T>::$from(bits as $t)),
                        M_TRY => EnumSet::<T>::$try(bits as $t),
                        M_TRUNC => Some(EnumSet::<T>::$tr(bits as $t)),
                        _ => Some(unsafe { EnumSet::<T>::$un(bits as $t) }),
                    }),
                )
            };
        }
        macro_rules! arr {
            ($($n:literal)*) => {
                match ARRAYS[len % ARRAYS.len()] {
                    $($n => {
                        let mut a = [0u64; $n];
                        for (x, y) in a.iter_mut().zip(words) {
                            *x = *y;
                        }
                        ended(
                            mode,
                            guard(|| match mode {
                                M_PANIC => Some(EnumSet::<T>::from_array(a)),
                                M_TRY => EnumSet::<T>::try_from_array(a),
                                M_TRUNC => Some(EnumSet::<T>::from_array_truncated(a)),
                                _ => Some(unsafe { EnumSet::<T>::from_array_unchecked(a) }),
                            }),
                        )
                    })*
                    _ => (End::Absent, None),
                }
            };
        }
        let (e, x) = match form {
            0 => int!(u8, from_u8 try_from_u8 from_u8_truncated from_u8_unchecked),
            1 => int!(u16, from_u16 try_from_u16 from_u16_truncated from_u16_unchecked),
            2 => int!(u32, from_u32 try_from_u32 from_u32_truncated from_u32_unchecked),
            3 => int!(u64, from_u64 try_from_u64 from_u64_truncated from_u64_unchecked),
            4 => int!(u128, from_u128 try_from_u128 from_u128_truncated from_u128_unchecked),
            5 => int!(usize, from_usize try_from_usize from_usize_truncated from_usize_unchecked),
            6 => match guard(|| T::from_repr(mode, bits)) {
                Caught::Done(None) => (End::Absent, None),
                Caught::Done(Some(x)) => ended(mode, Caught::Done(x)),
                Caught::Panicked(m) => ended(mode, Caught::Panicked(m)),
                Caught::Injected => ended(mode, Caught::Injected),
            },
            7 => arr!(0 1 2 3 4 5 6 8 16 17),
            _ => ended(
                mode,
                guard(|| match mode {
                    M_PANIC => Some(EnumSet::<T>::from_slice(words)),
                    M_TRY => EnumSet::<T>::try_from_slice(words),
                    M_TRUNC => Some(EnumSet::<T>::from_slice_truncated(words)),
                    _ => Some(unsafe { EnumSet::<T>::from_slice_unchecked(words) }),
                }),
            ),
        };
        if let Some(x) = x {
            self.regs[r % REGS] = x;
        }
        e
    }
}
