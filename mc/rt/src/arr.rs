//! The runtime's array driver, for every element kind and every carrier type, behind one interface.
use mccore::{Scalar, Val};
use zserio::vendor::{BitReader, BitWriter};
use zserio::ztype::array_traits as at;
use zserio::ztype::array_traits::array_trait::ArrayTrait;
use zserio::ztype::{Array, BytesType, ExternType};

pub trait ArrOps: Send + Sync {
    fn write(&self, w: &mut BitWriter, v: &[Val], m: Mode) -> zserio::Result<()>;
    fn read(&self, r: &mut BitReader, m: Mode) -> zserio::Result<Vec<Val>>;
    /// Reads into a vector that already holds `old`.
    fn read_into(&self, r: &mut BitReader, old: &[Val], m: Mode) -> zserio::Result<Vec<Val>>;
    fn read_single(&self, r: &mut BitReader, m: Mode) -> zserio::Result<Vec<Val>>;
    fn bitsize(&self, v: &[Val], m: Mode, pos: u64) -> zserio::Result<u64>;
    fn bitsize_packed(&self, v: &[Val], m: Mode, pos: u64) -> zserio::Result<u64>;
    fn elem_size(&self) -> usize;
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Mode {
    pub packed: bool,
    pub fixed: Option<usize>,
    /// byte-aligned elements (indexed offsets)
    pub offsets: bool,
}
impl Mode {
    pub fn plain() -> Mode {
        Mode::default()
    }
    pub fn packed() -> Mode {
        Mode { packed: true, ..Default::default() }
    }
}

struct Ops<T, F> {
    mk: F,
    to: fn(&Val) -> T,
    from: fn(&T) -> Val,
}
impl<T, F> Ops<T, F>
where
    F: Fn() -> Box<dyn ArrayTrait<T>>,
{
    fn arr(&self, m: Mode) -> Array<T> {
        Array { array_trait: (self.mk)(), is_packed: m.packed, fixed_size: m.fixed }
    }
    fn vec(&self, v: &[Val]) -> Vec<T> {
        v.iter().map(|x| (self.to)(x)).collect()
    }
}
fn offs(m: Mode, n: usize) -> Option<Vec<u32>> {
    m.offsets.then(|| vec![0; n])
}
impl<T: Default, F> ArrOps for Ops<T, F>
where
    F: Fn() -> Box<dyn ArrayTrait<T>> + Send + Sync,
{
    fn write(&self, w: &mut BitWriter, v: &[Val], m: Mode) -> zserio::Result<()> {
        self.arr(m).zserio_write::<u32>(w, &self.vec(v), offs(m, v.len()).as_ref())
    }
    fn read(&self, r: &mut BitReader, m: Mode) -> zserio::Result<Vec<Val>> {
        self.read_into(r, &[], m)
    }
    fn read_into(&self, r: &mut BitReader, old: &[Val], m: Mode) -> zserio::Result<Vec<Val>> {
        let mut a = self.arr(m);
        let n = a.zserio_read_array_length(r)?;
        let mut v: Vec<T> = self.vec(old);
        a.zserio_read::<u32>(r, &mut v, n, offs(m, 0).as_ref())?;
        Ok(v.iter().map(|x| (self.from)(x)).collect())
    }
    fn read_single(&self, r: &mut BitReader, m: Mode) -> zserio::Result<Vec<Val>> {
        let mut a = self.arr(m);
        let n = a.zserio_read_array_length(r)?;
        let mut ctx = a.array_trait.create_context();
        let mut out = vec![];
        for i in 0..n {
            let mut item = T::default();
            a.read_one_element::<u32>(r, &mut ctx, &mut item, i, offs(m, 0).as_ref())?;
            out.push((self.from)(&item));
        }
        Ok(out)
    }
    fn bitsize(&self, v: &[Val], m: Mode, pos: u64) -> zserio::Result<u64> {
        self.arr(m).zserio_bitsize::<u32>(&self.vec(v), offs(m, v.len()).as_ref(), pos)
    }
    fn bitsize_packed(&self, v: &[Val], m: Mode, pos: u64) -> zserio::Result<u64> {
        self.arr(m).zserio_bitsize_packed::<u32>(&self.vec(v), offs(m, v.len()).as_ref(), pos)
    }
    fn elem_size(&self) -> usize {
        std::mem::size_of::<T>()
    }
}

fn mkfn<T, F: Fn() -> Box<dyn ArrayTrait<T>>>(f: F) -> F {
    f
}
macro_rules! ops {
    ($t:ty, $mk:expr, $to:expr, $from:expr) => {
        Box::new(Ops::<$t, _> { mk: mkfn::<$t, _>($mk), to: $to, from: $from }) as Box<dyn ArrOps>
    };
}
macro_rules! int {
    ($t:ty, $mk:expr) => {
        ops!($t, $mk, |v| v.int() as $t, |x| Val::Int(*x as i128))
    };
}

/// All carriers (Rust element types) the runtime offers for an element kind, with a label.
pub fn carriers(k: Scalar) -> Vec<(String, Box<dyn ArrOps>)> {
    use Scalar::*;
    let mut out: Vec<(String, Box<dyn ArrOps>)> = vec![];
    match k {
        U(n) => {
            if n <= 8 {
                out.push(("u8".into(), int!(u8, move || Box::new(at::UnsignedBitFieldArrayTrait { num_bits: n }))));
            }
            if n <= 16 {
                out.push(("u16".into(), int!(u16, move || Box::new(at::UnsignedBitFieldArrayTrait { num_bits: n }))));
            }
            if n <= 32 {
                out.push(("u32".into(), int!(u32, move || Box::new(at::UnsignedBitFieldArrayTrait { num_bits: n }))));
            }
            out.push(("u64".into(), int!(u64, move || Box::new(at::UnsignedBitFieldArrayTrait { num_bits: n }))));
        }
        I(n) => {
            if n <= 8 {
                out.push(("i8".into(), int!(i8, move || Box::new(at::BitFieldArrayTrait { num_bits: n }))));
            }
            if n <= 16 {
                out.push(("i16".into(), int!(i16, move || Box::new(at::BitFieldArrayTrait { num_bits: n }))));
            }
            if n <= 32 {
                out.push(("i32".into(), int!(i32, move || Box::new(at::BitFieldArrayTrait { num_bits: n }))));
            }
            out.push(("i64".into(), int!(i64, move || Box::new(at::BitFieldArrayTrait { num_bits: n }))));
        }
        VarU16 => out.push(("u16".into(), int!(u16, || Box::new(at::VarUint16ArrayTrait {})))),
        VarU32 => out.push(("u32".into(), int!(u32, || Box::new(at::VarUint32ArrayTrait {})))),
        VarU64 => out.push(("u64".into(), int!(u64, || Box::new(at::VarUint64ArrayTrait {})))),
        VarU => out.push(("u64".into(), int!(u64, || Box::new(at::VarUintArrayTrait {})))),
        VarSize => out.push(("u32".into(), int!(u32, || Box::new(at::VarSizeArrayTrait {})))),
        Var16 => out.push(("i16".into(), int!(i16, || Box::new(at::VarInt16ArrayTrait {})))),
        Var32 => out.push(("i32".into(), int!(i32, || Box::new(at::VarInt32ArrayTrait {})))),
        Var64 => out.push(("i64".into(), int!(i64, || Box::new(at::VarInt64ArrayTrait {})))),
        Var => out.push(("i64".into(), int!(i64, || Box::new(at::VarIntArrayTrait {})))),
        Bool => out.push((
            "bool".into(),
            ops!(bool, || Box::new(at::BooleanArrayTrait {}), |v| matches!(v, Val::Bool(true)), |x| Val::Bool(*x)),
        )),
        F16 => out.push(("f32".into(), ops!(f32, || Box::new(at::Float16ArrayTrait {}), f32_of, |x| Val::F(x.to_bits() as u64)))),
        F32 => out.push(("f32".into(), ops!(f32, || Box::new(at::Float32ArrayTrait {}), f32_of, |x| Val::F(x.to_bits() as u64)))),
        F64 => out.push((
            "f64".into(),
            ops!(
                f64,
                || Box::new(at::Float64ArrayTrait {}),
                |v| match v {
                    Val::F(x) => f64::from_bits(*x),
                    _ => panic!("MACHINERY"),
                },
                |x| Val::F(x.to_bits())
            ),
        )),
        Str => out.push((
            "String".into(),
            ops!(
                String,
                || Box::new(at::StringArrayTrait {}),
                |v| match v {
                    Val::Str(x) => x.clone(),
                    _ => panic!("MACHINERY"),
                },
                |x| Val::Str(x.clone())
            ),
        )),
        Bytes => out.push((
            "BytesType".into(),
            ops!(
                BytesType,
                || Box::new(at::ByteBufferArrayTrait {}),
                |v| match v {
                    Val::Bytes(b) => crate::prim::bytes(b),
                    _ => panic!("MACHINERY"),
                },
                |x| if x.byte_size as usize == x.data_blob.len() { Val::Bytes(x.data_blob.clone()) } else { Val::None }
            ),
        )),
        Extern => out.push((
            "ExternType".into(),
            ops!(
                ExternType,
                || Box::new(at::BitBufferArrayTrait {}),
                |v| match v {
                    Val::Ext(n, b) => ExternType { bit_size: *n, data_blob: b.clone() },
                    _ => panic!("MACHINERY"),
                },
                |x| Val::Ext(x.bit_size, x.data_blob.clone())
            ),
        )),
    }
    out
}
fn f32_of(v: &Val) -> f32 {
    match v {
        Val::F(x) => f32::from_bits(*x as u32),
        _ => panic!("MACHINERY"),
    }
}
