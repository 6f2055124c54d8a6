//! Reference model of the zserio wire format: scalars, plain arrays and delta packing.
use crate::bits::Bits;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Scalar {
    U(u8),
    I(u8),
    VarU16,
    VarU32,
    VarU64,
    VarU,
    VarSize,
    Var16,
    Var32,
    Var64,
    Var,
    Bool,
    F16,
    F32,
    F64,
    Str,
    Bytes,
    Extern,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Val {
    Int(i128),
    Bool(bool),
    /// bit pattern of the f32 (float16/32) or f64 held by the user
    F(u64),
    Str(String),
    Bytes(Vec<u8>),
    Ext(u32, Vec<u8>),
    /// absent optional / unselected member
    None,
    Arr(Vec<Val>),
    /// struct members, choice/union: members (unselected are None), in declaration order
    Rec(Vec<Val>),
    /// union: selected member
    Sel(usize, Box<Val>),
}
impl Val {
    pub fn int(&self) -> i128 {
        match self {
            Val::Int(i) => *i,
            Val::Bool(b) => *b as i128,
            o => panic!("MACHINERY: not an int: {:?}", o),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum MErr {
    /// value not representable
    Range,
    /// not enough data
    Eof,
    /// malformed content
    Data,
}
pub type M<T> = Result<T, MErr>;

pub const VARSIZE_MAX: i128 = (1 << 31) - 1;

impl Scalar {
    pub const VARS: [Scalar; 9] = [
        Scalar::VarU16,
        Scalar::VarU32,
        Scalar::VarU64,
        Scalar::VarU,
        Scalar::VarSize,
        Scalar::Var16,
        Scalar::Var32,
        Scalar::Var64,
        Scalar::Var,
    ];
    /// (max bytes, signed)
    pub fn var(self) -> Option<(usize, bool)> {
        use Scalar::*;
        Some(match self {
            VarU16 => (2, false),
            VarU32 => (4, false),
            VarU64 => (8, false),
            VarU => (9, false),
            VarSize => (5, false),
            Var16 => (2, true),
            Var32 => (4, true),
            Var64 => (8, true),
            Var => (9, true),
            _ => return None,
        })
    }
    pub fn is_int(self) -> bool {
        matches!(self, Scalar::U(_) | Scalar::I(_)) || self.var().is_some()
    }
    pub fn packable(self) -> bool {
        self.is_int()
    }
    /// Representable range.
    pub fn range(self) -> (i128, i128) {
        use Scalar::*;
        match self {
            U(n) => (0, (1i128 << n) - 1),
            I(n) => (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1),
            VarU16 => (0, (1 << 15) - 1),
            VarU32 => (0, (1 << 29) - 1),
            VarU64 => (0, (1 << 57) - 1),
            VarU => (0, u64::MAX as i128),
            VarSize => (0, VARSIZE_MAX),
            Var16 => (-(1 << 14) + 1, (1 << 14) - 1),
            Var32 => (-(1 << 28) + 1, (1 << 28) - 1),
            Var64 => (-(1 << 56) + 1, (1 << 56) - 1),
            Var => (i64::MIN as i128, i64::MAX as i128),
            _ => panic!("MACHINERY: no range"),
        }
    }
    /// Range of the Rust type that carries the value.
    pub fn carrier(self) -> (i128, i128) {
        use Scalar::*;
        match self {
            VarU16 => (0, u16::MAX as i128),
            VarU32 | VarSize => (0, u32::MAX as i128),
            VarU64 | VarU => (0, u64::MAX as i128),
            Var16 => (i16::MIN as i128, i16::MAX as i128),
            Var32 => (i32::MIN as i128, i32::MAX as i128),
            Var64 | Var => (i64::MIN as i128, i64::MAX as i128),
            o => o.range(),
        }
    }
    pub fn zs(self) -> String {
        use Scalar::*;
        match self {
            U(8) => "uint8".into(),
            U(16) => "uint16".into(),
            U(32) => "uint32".into(),
            U(64) => "uint64".into(),
            U(n) => format!("bit:{n}"),
            I(8) => "int8".into(),
            I(16) => "int16".into(),
            I(32) => "int32".into(),
            I(64) => "int64".into(),
            I(n) => format!("int:{n}"),
            VarU16 => "varuint16".into(),
            VarU32 => "varuint32".into(),
            VarU64 => "varuint64".into(),
            VarU => "varuint".into(),
            VarSize => "varsize".into(),
            Var16 => "varint16".into(),
            Var32 => "varint32".into(),
            Var64 => "varint64".into(),
            Var => "varint".into(),
            Bool => "bool".into(),
            F16 => "float16".into(),
            F32 => "float32".into(),
            F64 => "float64".into(),
            Str => "string".into(),
            Bytes => "bytes".into(),
            Extern => "extern".into(),
        }
    }
}

/// Payload bits of a k-byte encoding.
pub fn var_payload(max: usize, signed: bool, k: usize) -> usize {
    let first = if signed { 6 } else { 7 };
    if k == 1 {
        first
    } else if k == max {
        first + 7 * (k - 2) + 8
    } else {
        first + 7 * (k - 1)
    }
}

pub fn enc_var(kind: Scalar, v: i128, out: &mut Bits) -> M<()> {
    let (max, signed) = kind.var().unwrap();
    let (lo, hi) = kind.range();
    if v < lo || v > hi {
        return Err(MErr::Range);
    }
    if kind == Scalar::Var && v == i64::MIN as i128 {
        out.push_bits(0x80, 8); // "negative zero"
        return Ok(());
    }
    let mag = v.unsigned_abs();
    let k = (1..=max).find(|k| mag < 1u128 << var_payload(max, signed, *k)).unwrap();
    let total = var_payload(max, signed, k);
    let mut payload = Bits::new();
    payload.push_bits(mag, total);
    let mut at = 0;
    for i in 0..k {
        let mut room = 8;
        if i == 0 && signed {
            out.push(v < 0);
            room -= 1;
        }
        if i + 1 < max {
            out.push(i + 1 < k); // more-bytes flag
            room -= 1;
        }
        for _ in 0..room {
            out.push(payload.get(at));
            at += 1;
        }
    }
    assert_eq!(at, total);
    Ok(())
}

pub struct Rd<'a> {
    pub b: &'a Bits,
    pub at: usize,
    /// bits skipped by alignments
    pub pads: Vec<usize>,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a Bits, at: usize) -> Rd<'a> {
        Rd { b, at, pads: vec![] }
    }
    pub fn bits(&mut self, n: usize) -> M<u128> {
        let v = self.b.get_bits(self.at, n).ok_or(MErr::Eof)?;
        self.at += n;
        Ok(v)
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.at
    }
    pub fn align(&mut self, n: usize) -> M<()> {
        let pad = (n - self.at % n) % n;
        if pad > self.left() {
            return Err(MErr::Eof);
        }
        self.pads.extend(self.at..self.at + pad);
        self.at += pad;
        Ok(())
    }
}

pub fn dec_var(kind: Scalar, r: &mut Rd) -> M<i128> {
    let (max, signed) = kind.var().unwrap();
    let mut neg = false;
    let mut v: i128 = 0;
    for i in 0..max {
        let mut room = 8;
        if i == 0 && signed {
            neg = r.bits(1)? == 1;
            room -= 1;
        }
        let mut more = false;
        if i + 1 < max {
            more = r.bits(1)? == 1;
            room -= 1;
        }
        v = v << room | r.bits(room)? as i128;
        if !more {
            break;
        }
    }
    if neg {
        if v == 0 && kind == Scalar::Var {
            return Ok(i64::MIN as i128);
        }
        v = -v;
    }
    let (lo, hi) = kind.range();
    if v < lo || v > hi {
        return Err(MErr::Range);
    }
    Ok(v)
}

pub fn enc_scalar(k: Scalar, v: &Val, out: &mut Bits) -> M<()> {
    use Scalar::*;
    match (k, v) {
        (U(n), Val::Int(x)) | (I(n), Val::Int(x)) => {
            let (lo, hi) = k.range();
            if *x < lo || *x > hi {
                return Err(MErr::Range);
            }
            out.push_bits(*x as u128, n as usize);
        }
        (Bool, Val::Bool(b)) => out.push(*b),
        (F16, Val::F(f)) => out.push_bits(f32_to_f16(f32::from_bits(*f as u32)) as u128, 16),
        (F32, Val::F(f)) => out.push_bits(*f as u128, 32),
        (F64, Val::F(f)) => out.push_bits(*f as u128, 64),
        (Str, Val::Str(s)) => {
            enc_var(VarSize, s.len() as i128, out)?;
            out.push_bytes(s.as_bytes());
        }
        (Bytes, Val::Bytes(b)) => {
            enc_var(VarSize, b.len() as i128, out)?;
            out.push_bytes(b);
        }
        (Extern, Val::Ext(n, b)) => {
            if b.len() != (*n as usize).div_ceil(8) {
                return Err(MErr::Range);
            }
            enc_var(VarSize, *n as i128, out)?;
            let full = (*n / 8) as usize;
            out.push_bytes(&b[..full]);
            let rest = (*n % 8) as usize;
            if rest > 0 {
                out.push_bits((b[full] >> (8 - rest)) as u128, rest);
            }
        }
        (_, Val::Int(x)) if k.var().is_some() => enc_var(k, *x, out)?,
        (k, v) => panic!("MACHINERY: {:?} cannot hold {:?}", k, v),
    }
    Ok(())
}

pub fn dec_scalar(k: Scalar, r: &mut Rd) -> M<Val> {
    use Scalar::*;
    Ok(match k {
        U(n) => Val::Int(r.bits(n as usize)? as i128),
        I(n) => {
            let v = r.bits(n as usize)? as i128;
            Val::Int(if v >> (n - 1) & 1 == 1 { v - (1i128 << n) } else { v })
        }
        Bool => Val::Bool(r.bits(1)? == 1),
        F16 => Val::F(f16_to_f32(r.bits(16)? as u16).to_bits() as u64),
        F32 => Val::F(r.bits(32)? as u64),
        F64 => Val::F(r.bits(64)? as u64),
        Str => match bytes(r)? {
            b => Val::Str(String::from_utf8(b).map_err(|_| MErr::Data)?),
        },
        Bytes => Val::Bytes(bytes(r)?),
        Extern => {
            let n = dec_var(VarSize, r)? as usize;
            if n > r.left() {
                return Err(MErr::Eof);
            }
            let b = r.b.slice(r.at, r.at + n);
            r.at += n;
            Val::Ext(n as u32, b.bytes().to_vec())
        }
        _ => Val::Int(dec_var(k, r)?),
    })
}
fn bytes(r: &mut Rd) -> M<Vec<u8>> {
    let n = dec_var(Scalar::VarSize, r)? as usize;
    if 8 * n > r.left() {
        return Err(MErr::Eof);
    }
    let b = r.b.slice(r.at, r.at + 8 * n);
    r.at += 8 * n;
    Ok(b.bytes().to_vec())
}

pub fn scalar_size(k: Scalar, v: &Val) -> M<usize> {
    let mut b = Bits::new();
    enc_scalar(k, v, &mut b)?;
    Ok(b.len())
}

/// Round to nearest even, via exact arithmetic on the mantissa.
pub fn f32_to_f16(x: f32) -> u16 {
    let b = x.to_bits();
    let sign = ((b >> 31) as u16) << 15;
    let e = ((b >> 23) & 0xff) as i32;
    let m = b & 0x7fffff;
    if e == 0xff {
        return if m == 0 { sign | 0x7c00 } else { sign | 0x7e00 | (m >> 13) as u16 };
    }
    // value = sig * 2^exp
    let (sig, exp) = if e == 0 { (m as u64, -149) } else { ((m | 0x800000) as u64, e - 150) };
    if sig == 0 {
        return sign;
    }
    // unit in the last place of the result: 2^max(floor(log2 x) - 10, -24)
    let top = 63 - sig.leading_zeros() as i32 + exp;
    let ulp = (top - 10).max(-24);
    let sh = ulp - exp; // >= 0 unless x is tiny; result = sig >> sh
    let q = if sh <= 0 {
        sig << -sh
    } else if sh > 40 {
        0
    } else {
        let fl = sig >> sh;
        let rem = sig & ((1 << sh) - 1);
        let half = 1u64 << (sh - 1);
        if rem > half || (rem == half && fl & 1 == 1) {
            fl + 1
        } else {
            fl
        }
    };
    // q * 2^ulp
    if q == 0 {
        return sign;
    }
    let (mut q, mut ulp) = (q, ulp);
    if q >= 2048 {
        q >>= 1;
        ulp += 1;
    }
    if q < 1024 {
        return sign | q as u16; // subnormal
    }
    let be = ulp + 25;
    if be >= 31 {
        return sign | 0x7c00;
    }
    sign | ((be as u16) << 10) | (q as u16 & 0x3ff)
}
pub fn f16_to_f32(h: u16) -> f32 {
    let s = if h & 0x8000 != 0 { -1.0f64 } else { 1.0 };
    let e = (h >> 10) & 31;
    let m = (h & 0x3ff) as f64;
    if e == 31 {
        return f32::from_bits(((h as u32 & 0x8000) << 16) | 0x7f800000 | if m == 0.0 { 0 } else { 0x400000 | (h as u32 & 0x3ff) << 13 });
    }
    let v = if e == 0 { m * 2f64.powi(-24) } else { (1024.0 + m) * 2f64.powi(e as i32 - 25) };
    (s * v) as f32
}

// ---------------------------------------------------------------- delta packing

pub fn bit_len(v: u128) -> u32 {
    128 - v.leading_zeros()
}

/// The delta context of one packable leaf.
#[derive(Clone, Debug, Default, Hash, PartialEq, Eq)]
pub struct Delta {
    // initialisation
    prev: Option<i128>,
    packed: bool,
    max_bits: u32,
    first_size: usize,
    unpacked_size: usize,
    n: usize,
    // processing
    started: bool,
}

impl Delta {
    pub fn init(&mut self, k: Scalar, v: i128) -> M<()> {
        let size = scalar_size(k, &Val::Int(v))?;
        self.n += 1;
        self.unpacked_size += size;
        match self.prev {
            None => {
                self.first_size = size;
                self.prev = Some(v);
            }
            Some(p) => {
                if self.max_bits <= 62 {
                    self.packed = true;
                    let b = bit_len((v - p).unsigned_abs());
                    if b > self.max_bits {
                        self.max_bits = b;
                        if b > 62 {
                            self.packed = false;
                        }
                    }
                    self.prev = Some(v);
                }
            }
        }
        Ok(())
    }
    fn finish(&mut self) {
        if self.packed {
            let d = if self.max_bits > 0 { self.max_bits as usize + 1 } else { 0 };
            let with = 1 + 6 + self.first_size + (self.n - 1) * d;
            let without = 1 + self.unpacked_size;
            if with >= without {
                self.packed = false;
            }
        }
    }
    /// Returns (packed, max_bits) after initialisation, for forcing alternatives.
    pub fn form(&self) -> (bool, u32) {
        let mut c = self.clone();
        c.finish();
        (c.packed, c.max_bits)
    }
    pub fn write(&mut self, k: Scalar, v: i128, out: &mut Bits) -> M<()> {
        if !self.started {
            self.finish();
        }
        self.write_form(k, v, out)
    }
    fn write_form(&mut self, k: Scalar, v: i128, out: &mut Bits) -> M<()> {
        if !self.started {
            self.started = true;
            out.push(self.packed);
            if self.packed {
                out.push_bits(self.max_bits as u128, 6);
            }
            self.prev = Some(v);
            return enc_scalar(k, &Val::Int(v), out);
        }
        if !self.packed {
            return enc_scalar(k, &Val::Int(v), out);
        }
        if self.max_bits > 0 {
            let d = v - self.prev.unwrap();
            out.push_bits(d as u128, self.max_bits as usize + 1);
        }
        self.prev = Some(v);
        Ok(())
    }
    /// Packed with no delta bits: every further element costs nothing.
    pub fn zero_width(&self) -> bool {
        self.started && self.packed && self.max_bits == 0
    }
    /// A context that will use the given form whatever the data.
    pub fn forced(packed: bool, max_bits: u32) -> Delta {
        Delta { packed, max_bits, ..Default::default() }
    }
    pub fn write_forced(&mut self, k: Scalar, v: i128, out: &mut Bits) -> M<()> {
        self.write_form(k, v, out)
    }
    pub fn read(&mut self, k: Scalar, r: &mut Rd) -> M<i128> {
        if !self.started {
            self.started = true;
            self.packed = r.bits(1)? == 1;
            if self.packed {
                self.max_bits = r.bits(6)? as u32;
            }
            let v = dec_scalar(k, r)?.int();
            self.prev = Some(v);
            return Ok(v);
        }
        if !self.packed {
            return Ok(dec_scalar(k, r)?.int());
        }
        if self.max_bits > 0 {
            let n = self.max_bits as usize + 1;
            let raw = r.bits(n)? as i128;
            let d = if raw >> (n - 1) & 1 == 1 { raw - (1i128 << n) } else { raw };
            self.prev = Some(self.prev.unwrap() + d);
        }
        Ok(self.prev.unwrap())
    }
}

/// Plain array of scalars at the end of `out`.
pub fn enc_array(k: Scalar, vals: &[Val], packed: bool, fixed: bool, byte_aligned: bool, out: &mut Bits) -> M<()> {
    if !fixed {
        enc_var(Scalar::VarSize, vals.len() as i128, out)?;
    }
    let mut d = Delta::default();
    if packed && k.packable() {
        for v in vals {
            d.init(k, v.int())?;
        }
    }
    for v in vals {
        if byte_aligned {
            out.align(8);
        }
        if packed && k.packable() {
            d.write(k, v.int(), out)?;
        } else {
            enc_scalar(k, v, out)?;
        }
    }
    Ok(())
}

pub fn dec_array(k: Scalar, packed: bool, fixed: Option<usize>, byte_aligned: bool, r: &mut Rd) -> M<Vec<Val>> {
    let n = match fixed {
        Some(n) => n,
        None => dec_var(Scalar::VarSize, r)? as usize,
    };
    let mut d = Delta::default();
    let mut out = vec![];
    for _ in 0..n {
        if byte_aligned {
            r.align(8)?;
        }
        out.push(if packed && k.packable() { Val::Int(d.read(k, r)?) } else { dec_scalar(k, r)? });
    }
    Ok(out)
}
