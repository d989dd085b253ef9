//! The harness' own table of TDMS element types, written from NI's format
//! description and independent of the library's tables.
//!
//! A sample is represented by its canonical little-endian bytes.

use crate::rng::Rng;
use labview_interop::types::timestamp::LVTime;
use tedium::types::{Complex, ExtendedRaw};
use std::io::{Read, Write};
use tedium::{DataType, PropertyValue, TdmsError, TdmsStorageType};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Ext,
    Bool,
    Time,
    C32,
    C64,
    F32U,
    F64U,
    ExtU,
    /// Fixed point values, for which the library leaves the Rust type to the program.
    Fix,
}
use Kind::*;

/// Types a program can write with the library.
pub const NATURAL: [Kind; 16] = [I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Ext, Bool, Time, C32, C64, Fix];
/// All fixed size types a foreign file can hold.
pub const ALL: [Kind; 19] = [
    I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Ext, Bool, Time, C32, C64, F32U, F64U, ExtU, Fix,
];
/// The types a property can have, besides text and void.
pub fn is_prop(k: &Kind) -> bool {
    *k != Fix
}

pub const CODE_VOID: u32 = 0;
pub const CODE_STRING: u32 = 0x20;

impl Kind {
    pub fn code(self) -> u32 {
        match self {
            I8 => 1,
            I16 => 2,
            I32 => 3,
            I64 => 4,
            U8 => 5,
            U16 => 6,
            U32 => 7,
            U64 => 8,
            F32 => 9,
            F64 => 10,
            Ext => 11,
            F32U => 0x19,
            F64U => 0x1A,
            ExtU => 0x1B,
            Bool => 0x21,
            Time => 0x44,
            C32 => 0x0008_000c,
            C64 => 0x0010_000d,
            Fix => 0x4F,
        }
    }
    pub fn from_code(c: u32) -> Option<Kind> {
        ALL.iter().copied().find(|k| k.code() == c)
    }
    pub fn size(self) -> usize {
        match self {
            I8 | U8 | Bool => 1,
            I16 | U16 => 2,
            I32 | U32 | F32 | F32U => 4,
            I64 | U64 | F64 | F64U | C32 | Fix => 8,
            Ext | ExtU => 10,
            Time | C64 => 16,
        }
    }
    /// The type a program uses to read this stored type.
    pub fn natural(self) -> Kind {
        match self {
            F32U => F32,
            F64U => F64,
            ExtU => Ext,
            k => k,
        }
    }
    /// Stored types that may be read as natural type `self`.
    pub fn reads(self, stored: Kind) -> bool {
        stored.natural() == self || (self == Bool && stored == U8)
    }
    /// Byte-order units: a big endian value has each of these reversed.
    pub fn units(self) -> &'static [usize] {
        match self {
            C32 => &[4, 4],
            C64 => &[8, 8],
            I8 | U8 | Bool => &[1],
            I16 | U16 => &[2],
            I32 | U32 | F32 | F32U => &[4],
            I64 | U64 | F64 | F64U | Fix => &[8],
            Ext | ExtU => &[10],
            Time => &[16],
        }
    }
    /// Convert one or more samples between canonical LE and BE (involution).
    pub fn swap(self, le: &[u8]) -> Vec<u8> {
        let mut v = le.to_vec();
        for s in v.chunks_mut(self.size()) {
            let mut o = 0;
            for u in self.units() {
                s[o..o + u].reverse();
                o += u;
            }
        }
        v
    }
    pub fn datatype(self) -> DataType {
        match self {
            I8 => DataType::I8,
            I16 => DataType::I16,
            I32 => DataType::I32,
            I64 => DataType::I64,
            U8 => DataType::U8,
            U16 => DataType::U16,
            U32 => DataType::U32,
            U64 => DataType::U64,
            F32 => DataType::SingleFloat,
            F64 => DataType::DoubleFloat,
            Ext => DataType::ExtendedFloat,
            Bool => DataType::Boolean,
            Time => DataType::Timestamp,
            C32 => DataType::ComplexSingleFloat,
            C64 => DataType::ComplexDoubleFloat,
            F32U => DataType::SingleFloatWithUnit,
            F64U => DataType::DoubleFloatWithUnit,
            ExtU => DataType::ExtendedFloatWithUnit,
            Fix => DataType::FixedPoint,
        }
    }
    /// Random sample, biased to special values. `foreign` permits stored forms
    /// that this library would not write itself (booleans other than 0/1).
    pub fn sample(self, r: &mut Rng, foreign: bool) -> Vec<u8> {
        let n = self.size();
        match self {
            Bool => {
                if foreign && r.chance(1, 8) {
                    vec![r.range(2, 255) as u8]
                } else {
                    vec![r.coin() as u8]
                }
            }
            _ => match r.below(16) {
                0 => vec![0; n],
                1 => vec![0xFF; n],
                2 => {
                    // sign bit / most negative / -0.0
                    let mut v = vec![0; n];
                    v[n - 1] = 0x80;
                    v
                }
                3 => {
                    let mut v = vec![0xFF; n];
                    v[n - 1] = 0x7F;
                    v
                }
                4 => {
                    // signalling NaN patterns for floats
                    let mut v = r.bytes(n);
                    v[n - 1] = 0x7F;
                    if n > 1 {
                        v[n - 2] = 0x80 | (v[n - 2] & 0x3F);
                    }
                    v
                }
                5 => {
                    let mut v = vec![0; n];
                    v[0] = r.next() as u8;
                    v
                }
                _ => r.bytes(n),
            },
        }
    }
    pub fn samples(self, r: &mut Rng, count: usize, foreign: bool) -> Vec<u8> {
        if count > 64 {
            // bulk: random bytes are enough, distinct values matter most
            let mut v = r.bytes(count * self.size());
            if self == Bool {
                for b in v.iter_mut() {
                    *b &= 1;
                }
            }
            return v;
        }
        let mut v = Vec::with_capacity(count * self.size());
        for _ in 0..count {
            v.extend_from_slice(&self.sample(r, foreign));
        }
        v
    }
}

/// A Rust element type of the library, tied to canonical bytes.
pub trait Elem: TdmsStorageType + Clone + std::fmt::Debug {
    const KIND: Kind;
    fn from_canon(b: &[u8]) -> Self;
    /// Bit-exact comparison with canonical bytes of stored kind `k`.
    fn is(&self, b: &[u8]) -> bool;
    fn same(&self, o: &Self) -> bool;
}

macro_rules! num_elem {
    ($t:ty, $k:expr) => {
        impl Elem for $t {
            const KIND: Kind = $k;
            fn from_canon(b: &[u8]) -> Self {
                <$t>::from_le_bytes(b.try_into().unwrap())
            }
            fn is(&self, b: &[u8]) -> bool {
                self.to_le_bytes()[..] == *b
            }
            fn same(&self, o: &Self) -> bool {
                self.to_le_bytes() == o.to_le_bytes()
            }
        }
    };
}
num_elem!(i8, I8);
num_elem!(i16, I16);
num_elem!(i32, I32);
num_elem!(i64, I64);
num_elem!(u8, U8);
num_elem!(u16, U16);
num_elem!(u32, U32);
num_elem!(u64, U64);
num_elem!(f32, F32);
num_elem!(f64, F64);

impl Elem for bool {
    const KIND: Kind = Bool;
    fn from_canon(b: &[u8]) -> Self {
        b[0] != 0
    }
    fn is(&self, b: &[u8]) -> bool {
        *self == (b[0] != 0)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

pub fn ext_u128(b: &[u8]) -> u128 {
    let mut w = [0u8; 16];
    w[..10].copy_from_slice(&b[..10]);
    u128::from_le_bytes(w)
}

impl Elem for ExtendedRaw {
    const KIND: Kind = Ext;
    fn from_canon(b: &[u8]) -> Self {
        // The number given may have more than the 80 bits of the type.
        let beyond = if b[2] & 3 == 1 { u128::from(b[1]) << (80 + b[0] % 41) } else { 0 };
        ExtendedRaw::new(ext_u128(b) | beyond)
    }
    fn is(&self, b: &[u8]) -> bool {
        *self == ExtendedRaw::new(ext_u128(b))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

impl Elem for LVTime {
    const KIND: Kind = Time;
    fn from_canon(b: &[u8]) -> Self {
        let f = u64::from_le_bytes(b[..8].try_into().unwrap());
        let s = i64::from_le_bytes(b[8..16].try_into().unwrap());
        LVTime::from_parts(s, f)
    }
    fn is(&self, b: &[u8]) -> bool {
        self.to_parts() == Self::from_canon(b).to_parts()
    }
    fn same(&self, o: &Self) -> bool {
        self.to_parts() == o.to_parts()
    }
}

macro_rules! cplx_elem {
    ($t:ty, $n:expr, $k:expr) => {
        impl Elem for Complex<$t> {
            const KIND: Kind = $k;
            fn from_canon(b: &[u8]) -> Self {
                Complex::new(
                    <$t>::from_le_bytes(b[..$n].try_into().unwrap()),
                    <$t>::from_le_bytes(b[$n..2 * $n].try_into().unwrap()),
                )
            }
            fn is(&self, b: &[u8]) -> bool {
                self.real.to_le_bytes()[..] == b[..$n] && self.imaginary.to_le_bytes()[..] == b[$n..2 * $n]
            }
            fn same(&self, o: &Self) -> bool {
                self.real.to_bits() == o.real.to_bits() && self.imaginary.to_bits() == o.imaginary.to_bits()
            }
        }
    };
}
cplx_elem!(f32, 4, C32);
cplx_elem!(f64, 8, C64);

/// A program's own type that finds some values impossible, to write and to read.
#[derive(Clone, Debug, PartialEq)]
pub struct Picky(pub u64);

impl Picky {
    pub const IMPOSSIBLE: u64 = 0x1313_1313_1313_1300;
    /// Ways to fail; the last is a panic.
    pub const WAYS: u64 = 5;
    fn fail(way: u64) -> TdmsError {
        match way {
            1 => TdmsError::EndOfFile,
            2 => TdmsError::UnsupportedType(DataType::U64),
            3 => TdmsError::BadDataBlockLength(1, 2),
            4 => std::panic::panic_any("impossible value"),
            _ => std::io::Error::new(std::io::ErrorKind::InvalidData, "impossible value").into(),
        }
    }
}

impl TdmsStorageType for Picky {
    const SUPPORTED_TYPES: &'static [DataType] = &[DataType::U64, DataType::I64, DataType::DoubleFloat];
    const NATURAL_TYPE: DataType = DataType::U64;
    fn read_le(reader: &mut impl Read) -> Result<Self, TdmsError> {
        let mut raw = [0; 8];
        reader.read_exact(&mut raw)?;
        // about one value in eight, whatever the byte order
        match raw.iter().fold(0u8, |a, b| a ^ b) {
            x if x & 7 == 1 => Err(Self::fail(x as u64 >> 3 & 3)),
            _ => Ok(Picky(u64::from_le_bytes(raw))),
        }
    }
    fn read_be(reader: &mut impl Read) -> Result<Self, TdmsError> {
        Self::read_le(reader).map(|v| Picky(v.0.swap_bytes()))
    }
    fn write_le(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        if self.0.wrapping_sub(Self::IMPOSSIBLE) < Self::WAYS {
            writer.write_all(&[0x13; 3])?;
            return Err(Self::fail(self.0 - Self::IMPOSSIBLE));
        }
        Ok(writer.write_all(&self.0.to_le_bytes())?)
    }
    fn write_be(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        Picky(self.0.swap_bytes()).write_le(writer)
    }
    fn size(&self) -> usize {
        8
    }
}

/// A program's own type for data that is stored in another way than values.
pub struct Daqmx;

impl TdmsStorageType for Daqmx {
    const SUPPORTED_TYPES: &'static [DataType] = &[DataType::DAQmxRawData];
    const NATURAL_TYPE: DataType = DataType::DAQmxRawData;
    const SIZE_BYTES: usize = 4;
    fn read_le(reader: &mut impl Read) -> Result<Self, TdmsError> {
        reader.read_exact(&mut [0; 4])?;
        Ok(Daqmx)
    }
    fn read_be(reader: &mut impl Read) -> Result<Self, TdmsError> {
        Self::read_le(reader)
    }
    fn write_le(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        Ok(writer.write_all(&[0x5A; 4])?)
    }
    fn write_be(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        self.write_le(writer)
    }
    fn size(&self) -> usize {
        4
    }
}

/// A type a program supplies itself, larger in memory than in the file.
#[derive(Clone, Debug, PartialEq)]
pub struct Fixed {
    scale: [u64; 2],
    raw: [u8; 8],
}

const SCALE: [u64; 2] = [0x5A5A_0001, 0xA5A5_0002];

impl TdmsStorageType for Fixed {
    const SUPPORTED_TYPES: &'static [DataType] = &[DataType::FixedPoint];
    const NATURAL_TYPE: DataType = DataType::FixedPoint;
    const SIZE_BYTES: usize = 8;
    fn read_le(reader: &mut impl Read) -> Result<Self, TdmsError> {
        let mut raw = [0; 8];
        reader.read_exact(&mut raw)?;
        Ok(Fixed { scale: SCALE, raw })
    }
    fn read_be(reader: &mut impl Read) -> Result<Self, TdmsError> {
        let mut v = Self::read_le(reader)?;
        v.raw.reverse();
        Ok(v)
    }
    fn write_le(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        Ok(writer.write_all(&self.raw)?)
    }
    fn write_be(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        for b in self.raw.iter().rev() {
            writer.write_all(&[*b])?;
        }
        Ok(())
    }
    fn size(&self) -> usize {
        8
    }
}

impl Elem for Fixed {
    const KIND: Kind = Fix;
    fn from_canon(b: &[u8]) -> Self {
        Fixed { scale: SCALE, raw: b.try_into().unwrap() }
    }
    fn is(&self, b: &[u8]) -> bool {
        self.scale == SCALE && self.raw[..] == *b
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// Run `$body` with `$t` bound to the Rust type that reads/writes kind `$k`.
#[macro_export]
macro_rules! with_kind {
    ($k:expr, $t:ident => $body:expr) => {
        match $crate::kinds::Kind::natural($k) {
            $crate::kinds::Kind::I8 => { type $t = i8; $body }
            $crate::kinds::Kind::I16 => { type $t = i16; $body }
            $crate::kinds::Kind::I32 => { type $t = i32; $body }
            $crate::kinds::Kind::I64 => { type $t = i64; $body }
            $crate::kinds::Kind::U8 => { type $t = u8; $body }
            $crate::kinds::Kind::U16 => { type $t = u16; $body }
            $crate::kinds::Kind::U32 => { type $t = u32; $body }
            $crate::kinds::Kind::U64 => { type $t = u64; $body }
            $crate::kinds::Kind::F32 => { type $t = f32; $body }
            $crate::kinds::Kind::F64 => { type $t = f64; $body }
            $crate::kinds::Kind::Ext => { type $t = tedium::types::ExtendedRaw; $body }
            $crate::kinds::Kind::Bool => { type $t = bool; $body }
            $crate::kinds::Kind::Time => { type $t = labview_interop::types::timestamp::LVTime; $body }
            $crate::kinds::Kind::C32 => { type $t = tedium::types::Complex<f32>; $body }
            $crate::kinds::Kind::C64 => { type $t = tedium::types::Complex<f64>; $body }
            $crate::kinds::Kind::Fix => { type $t = $crate::kinds::Fixed; $body }
            _ => unreachable!(),
        }
    };
}

// ---------------------------------------------------------------- properties

/// A property value: format type code and canonical little-endian bytes
/// (UTF-8 bytes without length for strings).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Prop {
    pub code: u32,
    pub bytes: Vec<u8>,
}

impl Prop {
    pub fn random(r: &mut Rng, foreign: bool) -> Prop {
        match r.below(8) {
            0 if r.chance(1, 3) => Prop { code: CODE_VOID, bytes: vec![] },
            0..=2 => Prop { code: CODE_STRING, bytes: rand_string(r).into_bytes() },
            _ => {
                let k = loop {
                    let k = if foreign { *r.pick(&ALL) } else { *r.pick(&NATURAL) };
                    if is_prop(&k) {
                        break k;
                    }
                };
                Prop { code: k.code(), bytes: k.sample(r, foreign) }
            }
        }
    }
    pub fn to_lib(&self) -> PropertyValue {
        let b = &self.bytes[..];
        if self.code == CODE_VOID {
            return PropertyValue::Void;
        }
        if self.code == CODE_STRING {
            return PropertyValue::String(String::from_utf8(b.to_vec()).unwrap());
        }
        match Kind::from_code(self.code).unwrap().natural() {
            I8 => PropertyValue::I8(i8::from_canon(b)),
            I16 => PropertyValue::I16(i16::from_canon(b)),
            I32 => PropertyValue::I32(i32::from_canon(b)),
            I64 => PropertyValue::I64(i64::from_canon(b)),
            U8 => PropertyValue::U8(u8::from_canon(b)),
            U16 => PropertyValue::U16(u16::from_canon(b)),
            U32 => PropertyValue::U32(u32::from_canon(b)),
            U64 => PropertyValue::U64(u64::from_canon(b)),
            F32 => PropertyValue::SingleFloat(f32::from_canon(b)),
            F64 => PropertyValue::DoubleFloat(f64::from_canon(b)),
            Ext => PropertyValue::Extended(ExtendedRaw::from_canon(b)),
            Bool => PropertyValue::Boolean(bool::from_canon(b)),
            Time => PropertyValue::Timestamp(LVTime::from_canon(b)),
            C32 => PropertyValue::ComplexSingleFloat(Complex::<f32>::from_canon(b)),
            C64 => PropertyValue::ComplexDoubleFloat(Complex::<f64>::from_canon(b)),
            _ => unreachable!(),
        }
    }
    /// Bit-exact comparison with a library value.
    pub fn matches(&self, v: &PropertyValue) -> bool {
        let b = &self.bytes[..];
        if self.code == CODE_VOID {
            return matches!(v, PropertyValue::Void);
        }
        if self.code == CODE_STRING {
            return matches!(v, PropertyValue::String(s) if s.as_bytes() == b);
        }
        match (Kind::from_code(self.code).unwrap().natural(), v) {
            (I8, PropertyValue::I8(x)) => x.is(b),
            (I16, PropertyValue::I16(x)) => x.is(b),
            (I32, PropertyValue::I32(x)) => x.is(b),
            (I64, PropertyValue::I64(x)) => x.is(b),
            (U8, PropertyValue::U8(x)) => x.is(b),
            (U16, PropertyValue::U16(x)) => x.is(b),
            (U32, PropertyValue::U32(x)) => x.is(b),
            (U64, PropertyValue::U64(x)) => x.is(b),
            (F32, PropertyValue::SingleFloat(x)) => x.is(b),
            (F64, PropertyValue::DoubleFloat(x)) => x.is(b),
            (Ext, PropertyValue::Extended(x)) => x.is(b),
            (Bool, PropertyValue::Boolean(x)) => x.is(b),
            (Time, PropertyValue::Timestamp(x)) => x.is(b),
            (C32, PropertyValue::ComplexSingleFloat(x)) => x.is(b),
            (C64, PropertyValue::ComplexDoubleFloat(x)) => x.is(b),
            _ => false,
        }
    }
    /// Encode the value (without type code) in the given byte order.
    pub fn encode(&self, be: bool, out: &mut Vec<u8>) {
        if self.code == CODE_VOID {
            return;
        }
        if self.code == CODE_STRING {
            let n = self.bytes.len() as u32;
            out.extend_from_slice(&if be { n.to_be_bytes() } else { n.to_le_bytes() });
            out.extend_from_slice(&self.bytes);
            return;
        }
        let k = Kind::from_code(self.code).unwrap();
        if be {
            out.extend_from_slice(&k.swap(&self.bytes));
        } else {
            out.extend_from_slice(&self.bytes);
        }
    }
}

pub fn rand_string(r: &mut Rng) -> String {
    let n = match r.below(40) {
        0 => *r.pick(&[127usize, 128, 255, 256, 257]),
        1 if r.chance(1, 8) => *r.pick(&[4095usize, 8164, 8191, 8192, 8193, 65535, 65536, 70001]),
        2..=5 => 0,
        _ => r.below(12),
    };
    let mut s = String::with_capacity(n + 4);
    while s.len() < n {
        let c = match r.below(12) {
            0 => *r.pick(&['\0', '\n', '\u{7f}', '\'', '"', '/', '\\']),
            1 => *r.pick(&['é', 'ß', '中', '\u{FFFD}', '\u{10FFFF}', '😀', '\u{FEFF}']),
            2 => (b'A' + r.below(26) as u8) as char,
            3 => *r.pick(&['0', '9', ' ', '\t', '_', '-', '.', '%']),
            _ => (b'a' + r.below(26) as u8) as char,
        };
        if s.len() + c.len_utf8() > n {
            s.push('x');
        } else {
            s.push(c);
        }
    }
    s
}
