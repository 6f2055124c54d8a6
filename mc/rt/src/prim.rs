//! The runtime's scalar functions behind one interface.
use mccore::{guard, Bits, Out, Scalar, Val};
use zserio::vendor::{BitReader, BitWriter};
use zserio::ztype as z;

pub fn write(k: Scalar, v: &Val, w: &mut BitWriter) -> zserio::Result<()> {
    use Scalar::*;
    match (k, v) {
        (U(8), Val::Int(x)) => z::write_uint8(w, *x as u8),
        (U(16), Val::Int(x)) => z::write_uint16(w, *x as u16),
        (U(32), Val::Int(x)) => z::write_uint32(w, *x as u32),
        (U(64), Val::Int(x)) => z::write_uint64(w, *x as u64),
        (I(8), Val::Int(x)) => z::write_int8(w, *x as i8),
        (I(16), Val::Int(x)) => z::write_int16(w, *x as i16),
        (I(32), Val::Int(x)) => z::write_int32(w, *x as i32),
        (I(64), Val::Int(x)) => z::write_int64(w, *x as i64),
        (VarU16, Val::Int(x)) => z::write_varuint16(w, *x as u16),
        (VarU32, Val::Int(x)) => z::write_varuint32(w, *x as u32),
        (VarU64, Val::Int(x)) => z::write_varuint64(w, *x as u64),
        (VarU, Val::Int(x)) => z::write_varuint(w, *x as u64),
        (VarSize, Val::Int(x)) => z::write_varsize(w, *x as u32),
        (Var16, Val::Int(x)) => z::write_varint16(w, *x as i16),
        (Var32, Val::Int(x)) => z::write_varint32(w, *x as i32),
        (Var64, Val::Int(x)) => z::write_varint64(w, *x as i64),
        (Var, Val::Int(x)) => z::write_varint(w, *x as i64),
        (U(_), _) | (I(_), _) => write_bits(k, v, w),
        (Bool, Val::Bool(b)) => Ok(w.write_bool(*b)?),
        (F16, Val::F(x)) => z::write_float16(w, f32::from_bits(*x as u32)),
        (F32, Val::F(x)) => z::write_float32(w, f32::from_bits(*x as u32)),
        (F64, Val::F(x)) => z::write_float64(w, f64::from_bits(*x)),
        (Str, Val::Str(s)) => z::write_string(w, s),
        (Bytes, Val::Bytes(b)) => z::write_bytes_type(w, &bytes(b)),
        (Extern, Val::Ext(n, b)) => z::write_extern_type(w, &z::ExternType { bit_size: *n, data_blob: b.clone() }),
        _ => panic!("MACHINERY {:?} {:?}", k, v),
    }
}
pub fn bytes(b: &[u8]) -> z::BytesType {
    z::BytesType { byte_size: b.len() as u32, data_blob: b.to_vec() }
}
/// Through the bit-field functions whatever the width.
pub fn write_bits(k: Scalar, v: &Val, w: &mut BitWriter) -> zserio::Result<()> {
    match k {
        Scalar::U(n) => z::write_unsigned_bits(w, v.int() as u64, n),
        Scalar::I(n) => z::write_signed_bits(w, v.int() as i64, n),
        _ => unreachable!(),
    }
}
pub fn read_bits(k: Scalar, r: &mut BitReader) -> zserio::Result<Val> {
    Ok(Val::Int(match k {
        Scalar::U(n) => z::read_unsigned_bits(r, n)? as i128,
        Scalar::I(n) => z::read_signed_bits(r, n)? as i128,
        _ => unreachable!(),
    }))
}
pub fn read(k: Scalar, r: &mut BitReader) -> zserio::Result<Val> {
    use Scalar::*;
    Ok(match k {
        U(8) => Val::Int(z::read_uint8(r)? as i128),
        U(16) => Val::Int(z::read_uint16(r)? as i128),
        U(32) => Val::Int(z::read_uint32(r)? as i128),
        U(64) => Val::Int(z::read_uint64(r)? as i128),
        I(8) => Val::Int(z::read_int8(r)? as i128),
        I(16) => Val::Int(z::read_int16(r)? as i128),
        I(32) => Val::Int(z::read_int32(r)? as i128),
        I(64) => Val::Int(z::read_int64(r)? as i128),
        U(_) | I(_) => read_bits(k, r)?,
        VarU16 => Val::Int(z::read_varuint16(r)? as i128),
        VarU32 => Val::Int(z::read_varuint32(r)? as i128),
        VarU64 => Val::Int(z::read_varuint64(r)? as i128),
        VarU => Val::Int(z::read_varuint(r)? as i128),
        VarSize => Val::Int(z::read_varsize(r)? as i128),
        Var16 => Val::Int(z::read_varint16(r)? as i128),
        Var32 => Val::Int(z::read_varint32(r)? as i128),
        Var64 => Val::Int(z::read_varint64(r)? as i128),
        Var => Val::Int(z::read_varint(r)? as i128),
        Bool => Val::Bool(r.read_bool()?),
        F16 => Val::F(z::read_float16(r)?.to_bits() as u64),
        F32 => Val::F(z::read_float32(r)?.to_bits() as u64),
        F64 => Val::F(z::read_float64(r)?.to_bits()),
        Str => Val::Str(z::read_string(r)?),
        Bytes => Val::Bytes(z::read_bytes_type(r)?.data_blob),
        Extern => {
            let e = z::read_extern_type(r)?;
            Val::Ext(e.bit_size, e.data_blob)
        }
    })
}
pub fn bitsize(k: Scalar, v: &Val) -> Option<zserio::Result<u64>> {
    use Scalar::*;
    let w = |r: zserio::Result<u8>| r.map(|x| x as u64);
    Some(match (k, v) {
        (VarU16, Val::Int(x)) => w(z::varuint16_bitsize(*x as u16)),
        (VarU32, Val::Int(x)) => w(z::varuint32_bitsize(*x as u32)),
        (VarU64, Val::Int(x)) => w(z::varuint64_bitsize(*x as u64)),
        (VarU, Val::Int(x)) => w(z::varuint_bitsize(*x as u64)),
        (VarSize, Val::Int(x)) => w(z::varsize_bitsize(*x as u32)),
        (Var16, Val::Int(x)) => w(z::varint16_bitsize(*x as i16)),
        (Var32, Val::Int(x)) => w(z::varint32_bitsize(*x as i32)),
        (Var64, Val::Int(x)) => w(z::varint64_bitsize(*x as i64)),
        (Var, Val::Int(x)) => w(z::varint_bitsize(*x as i64)),
        (Str, Val::Str(s)) => z::bitsize_string(s),
        (Bytes, Val::Bytes(b)) => Ok(z::bitsize_of_bytes(&bytes(b))),
        (Extern, Val::Ext(n, b)) => Ok(z::bitsize_of_extern(&z::ExternType { bit_size: *n, data_blob: b.clone() })),
        _ => return None,
    })
}

/// Writes `pre` bits, calls `f`, closes; returns the bits after `pre` up to the writer's count, and the whole buffer.
pub fn with_writer(pre: &Bits, f: impl FnOnce(&mut BitWriter) -> zserio::Result<()>) -> Out<(Bits, Vec<u8>)> {
    guard(|| -> Result<(Bits, Vec<u8>), String> {
        let mut w = BitWriter::new();
        for i in 0..pre.len() {
            w.write_bool(pre.get(i)).map_err(|e| format!("{e:?}"))?;
        }
        f(&mut w).map_err(|e| format!("{e:?}"))?;
        let n = w.bit_count() as usize;
        w.close().map_err(|e| format!("{e:?}"))?;
        let all = w.data().clone();
        let b = Bits::from_bytes(&all);
        if n > b.len() || n < pre.len() {
            return Err(format!("bit count {n} outside the buffer of {} bits", b.len()));
        }
        Ok((b.slice(0, n), all))
    })
}
/// Reads from bit `at` of `data`; returns the value and the bits consumed.
pub fn with_reader<T>(data: &[u8], at: usize, f: impl FnOnce(&mut BitReader) -> zserio::Result<T>) -> Out<(T, usize)> {
    guard(|| -> Result<(T, usize), String> {
        let mut r = BitReader::new(data);
        r.skip(at as u64).map_err(|e| format!("{e:?}"))?;
        let v = f(&mut r).map_err(|e| format!("{e:?}"))?;
        Ok((v, r.position() as usize - at))
    })
}
/// `n` bits of prefix: 0 = zeros, 1 = ones, 2 = alternating.
pub fn prefix(n: usize, style: usize) -> Bits {
    let mut b = Bits::new();
    for i in 0..n {
        b.push(match style {
            0 => false,
            1 => true,
            _ => i % 2 == 0,
        });
    }
    b
}
pub fn nan_eq(k: Scalar, a: &Val, b: &Val) -> bool {
    if let (Val::F(x), Val::F(y)) = (a, b) {
        let nan = |v: u64| match k {
            Scalar::F64 => f64::from_bits(v).is_nan(),
            _ => f32::from_bits(v as u32).is_nan(),
        };
        // float16: only "is a NaN" is preserved; float32/64 are bit-exact
        if k == Scalar::F16 && nan(*x) && nan(*y) {
            return true;
        }
    }
    a == b
}

/// Full check of one scalar at one position: bits, size, read back, consumption, neighbours.
/// Returns a description of the first disagreement.
pub fn check_scalar(k: Scalar, v: &Val, pre: &Bits, generic: bool) -> Option<String> {
    let mut want = pre.clone();
    mccore::model::enc_scalar(k, v, &mut want).ok()?;
    let wr = with_writer(pre, |w| {
        if generic {
            write_bits(k, v, w)
        } else {
            write(k, v, w)
        }?;
        w.write_u8(5, 3)?; // neighbour after it
        Ok(())
    });
    let mut full = want.clone();
    full.push_bits(5, 3);
    let data = match wr {
        Out::Ok((b, data)) => {
            let skip_nan = k == Scalar::F16 && matches!(v, Val::F(x) if f32::from_bits(*x as u32).is_nan());
            if b != full && !skip_nan {
                return Some(format!("wrote {} want {}", show(&b, pre.len()), show(&full, pre.len())));
            }
            data
        }
        o => return Some(format!("write failed: {:?}", o)),
    };
    if let Some(s) = guard_size(k, v) {
        match s {
            Out::Ok(s) if s as usize == want.len() - pre.len() => {}
            o => return Some(format!("predicted size {:?}, real {}", o, want.len() - pre.len())),
        }
    }
    match with_reader(&data, pre.len(), |r| {
        let v = if generic { read_bits(k, r)? } else { read(k, r)? };
        Ok(v)
    }) {
        Out::Ok((got, used)) => {
            let mut rd = mccore::model::Rd::new(&want, pre.len());
            let exp = if k == Scalar::F16 { mccore::model::dec_scalar(k, &mut rd).unwrap() } else { v.clone() };
            if !nan_eq(k, &got, &exp) {
                return Some(format!("read back {:?} want {:?}", got, exp));
            }
            if used != want.len() - pre.len() {
                return Some(format!("consumed {} of {} bits", used, want.len() - pre.len()));
            }
        }
        o => return Some(format!("read failed: {:?}", o)),
    }
    None
}
pub fn guard_size(k: Scalar, v: &Val) -> Option<Out<u64>> {
    match guard(|| -> Result<Option<u64>, String> {
        match bitsize(k, v) {
            None => Ok(None),
            Some(r) => r.map(Some).map_err(|e| format!("{e:?}")),
        }
    }) {
        Out::Ok(None) => None,
        Out::Ok(Some(x)) => Some(Out::Ok(x)),
        Out::Err(e) => Some(Out::Err(e)),
        Out::Panic(e) => Some(Out::Panic(e)),
    }
}
pub fn show(b: &Bits, at: usize) -> String {
    let mut s = String::new();
    for i in at..b.len().min(at + 160) {
        s.push(if b.get(i) { '1' } else { '0' });
        if (i - at) % 8 == 7 {
            s.push(' ');
        }
    }
    if b.len() > at + 160 {
        s.push_str(&format!("..({} bits)", b.len() - at));
    }
    s
}
pub fn brief(v: &Val) -> String {
    match v {
        Val::Int(i) => format!("{i}"),
        Val::Bool(b) => format!("{b}"),
        Val::F(f) => format!("f:{f:x}"),
        Val::Str(s) if s.len() > 24 => format!("str[{}]", s.len()),
        Val::Str(s) => format!("{s:?}"),
        Val::Bytes(b) => format!("bytes[{}]", b.len()),
        Val::Ext(n, _) => format!("ext[{n} bits]"),
        Val::None => "none".into(),
        Val::Arr(a) | Val::Rec(a) => {
            let mut s = String::from(if matches!(v, Val::Arr(_)) { "[" } else { "{" });
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    s.push(' ');
                }
                if i > 12 {
                    s.push_str(&format!("..{}", a.len()));
                    break;
                }
                s.push_str(&brief(x));
            }
            s.push(if matches!(v, Val::Arr(_)) { ']' } else { '}' });
            s
        }
        Val::Sel(i, x) => format!("#{i}={}", brief(x)),
    }
}
