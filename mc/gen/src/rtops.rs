//! Generated types behind one interface: built from and shown as model values.
use mccore::{guard, Bits, Out, Val};
use mccore::Chooser;
use mcrt::alloc::peak;
use mcrt::drv_io::{run_reader, run_writer, IoRun};
use mcrt::prim::{with_reader, with_writer};
use zserio::ztype::{BytesType, ExternType};
use zserio::ZserioPackableObject;

pub trait Make: Sized {
    /// `Val::None` makes the default.
    fn make(v: &Val) -> Self;
}
pub trait Show {
    fn show(&self) -> Val;
}
macro_rules! ints { ($($t:ty),*) => { $(
    impl Make for $t { fn make(v: &Val) -> Self { match v { Val::None => Default::default(), v => {
        let x = v.int();
        <$t>::try_from(x).unwrap_or_else(|_| panic!("MACHINERY: {} is no {}", x, stringify!($t)))
    } } } }
    impl Show for $t { fn show(&self) -> Val { Val::Int(*self as i128) } }
)* } }
ints!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Make for bool {
    fn make(v: &Val) -> Self {
        matches!(v, Val::Bool(true))
    }
}
impl Show for bool {
    fn show(&self) -> Val {
        Val::Bool(*self)
    }
}
impl Make for f32 {
    fn make(v: &Val) -> Self {
        match v {
            Val::F(b) => f32::from_bits(*b as u32),
            _ => 0.0,
        }
    }
}
impl Show for f32 {
    fn show(&self) -> Val {
        Val::F(self.to_bits() as u64)
    }
}
impl Make for f64 {
    fn make(v: &Val) -> Self {
        match v {
            Val::F(b) => f64::from_bits(*b),
            _ => 0.0,
        }
    }
}
impl Show for f64 {
    fn show(&self) -> Val {
        Val::F(self.to_bits())
    }
}
impl Make for String {
    fn make(v: &Val) -> Self {
        match v {
            Val::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
}
impl Show for String {
    fn show(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl Show for str {
    fn show(&self) -> Val {
        Val::Str(self.into())
    }
}
impl<T: Show + ?Sized> Show for &T {
    fn show(&self) -> Val {
        (**self).show()
    }
}
impl Make for BytesType {
    fn make(v: &Val) -> Self {
        match v {
            Val::Bytes(b) => BytesType { byte_size: b.len() as u32, data_blob: b.clone() },
            _ => Default::default(),
        }
    }
}
impl Show for BytesType {
    fn show(&self) -> Val {
        if self.byte_size as usize != self.data_blob.len() {
            return Val::Str(format!("inconsistent bytes: {} of {}", self.byte_size, self.data_blob.len()));
        }
        Val::Bytes(self.data_blob.clone())
    }
}
impl Make for ExternType {
    fn make(v: &Val) -> Self {
        match v {
            Val::Ext(n, b) => ExternType { bit_size: *n, data_blob: b.clone() },
            _ => Default::default(),
        }
    }
}
impl Show for ExternType {
    fn show(&self) -> Val {
        Val::Ext(self.bit_size, self.data_blob.clone())
    }
}
impl<T: Make> Make for Option<T> {
    fn make(v: &Val) -> Self {
        match v {
            Val::None => None,
            v => Some(T::make(v)),
        }
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> Val {
        match self {
            None => Val::None,
            Some(x) => x.show(),
        }
    }
}
impl<T: Make> Make for Vec<T> {
    fn make(v: &Val) -> Self {
        match v {
            Val::Arr(xs) => xs.iter().map(T::make).collect(),
            _ => vec![],
        }
    }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self) -> Val {
        Val::Arr(self.iter().map(|x| x.show()).collect())
    }
}
impl<T: Make> Make for Box<T> {
    fn make(v: &Val) -> Self {
        Box::new(T::make(v))
    }
}
impl<T: Show> Show for Box<T> {
    fn show(&self) -> Val {
        (**self).show()
    }
}

pub type Written = (Bits, Vec<u8>);
pub trait TypeOps: Send + Sync {
    /// Writes `lead` zero bits and the value.
    fn write(&self, v: &Val, lead: usize) -> Out<Written>;
    fn size(&self, v: &Val, pos: u64) -> Out<u64>;
    /// Decodes into an object made from `init`, after decoding every stream of `hist` into it.
    fn read(&self, init: &Val, hist: &[&[u8]], data: &[u8], at: usize) -> Out<(Val, usize)>;
    fn to_bytes(&self, v: &Val) -> Out<Vec<u8>>;
    fn from_bytes(&self, data: &[u8]) -> Out<Val>;
    fn from_file(&self, path: &std::path::Path) -> Out<Val>;
    /// Through a writer / reader that answers as the chooser says.
    fn to_writer(&self, v: &Val, c: &mut Chooser, dev: usize) -> IoRun<()>;
    fn from_reader(&self, data: &[u8], c: &mut Chooser, dev: usize) -> IoRun<Val>;
    /// Decodes and reports the peak of live heap bytes while doing so.
    fn read_peak(&self, init: &Val, data: &[u8], at: usize) -> (Out<(Val, usize)>, usize);
    /// Size of the type itself.
    fn mem(&self) -> usize;
    fn call(&self, name: &str, v: &Val) -> Out<Option<Val>>;
    /// show(make(v))
    fn echo(&self, v: &Val) -> Val;
}
pub struct Ops<T> {
    pub call: fn(&T, &str) -> Option<Val>,
}
impl<T: Make + Show + ZserioPackableObject> TypeOps for Ops<T> {
    fn write(&self, v: &Val, lead: usize) -> Out<Written> {
        let x = T::make(v);
        let mut pre = Bits::new();
        pre.push_bits(0, lead);
        with_writer(&pre, |w| x.zserio_write(w))
    }
    fn size(&self, v: &Val, pos: u64) -> Out<u64> {
        let x = T::make(v);
        guard(|| x.zserio_bitsize(pos))
    }
    fn read(&self, init: &Val, hist: &[&[u8]], data: &[u8], at: usize) -> Out<(Val, usize)> {
        let mut x = T::make(init);
        for h in hist {
            let _ = with_reader(h, 0, |r| x.zserio_read(r));
        }
        with_reader(data, at, |r| x.zserio_read(r)).map(|(_, n)| (x.show(), n))
    }
    fn to_bytes(&self, v: &Val) -> Out<Vec<u8>> {
        let x = T::make(v);
        guard(|| zserio::to_bytes(&x))
    }
    fn from_bytes(&self, data: &[u8]) -> Out<Val> {
        guard(|| zserio::from_bytes::<T>(data)).map(|x| x.show())
    }
    fn from_file(&self, path: &std::path::Path) -> Out<Val> {
        guard(|| zserio::from_file::<_, T>(path)).map(|x| x.show())
    }
    fn to_writer(&self, v: &Val, c: &mut Chooser, dev: usize) -> IoRun<()> {
        let x = T::make(v);
        run_writer(c, dev, |w| zserio::to_writer(w, &x))
    }
    fn from_reader(&self, data: &[u8], c: &mut Chooser, dev: usize) -> IoRun<Val> {
        run_reader(c, dev, data, |r| zserio::from_reader::<_, T>(r).map(|x| x.show()))
    }
    fn read_peak(&self, init: &Val, data: &[u8], at: usize) -> (Out<(Val, usize)>, usize) {
        let mut x = T::make(init);
        let (r, n) = peak(|| with_reader(data, at, |r| x.zserio_read(r)));
        (r.map(|(_, n)| (x.show(), n)), n)
    }
    fn mem(&self) -> usize {
        std::mem::size_of::<T>()
    }
    fn call(&self, name: &str, v: &Val) -> Out<Option<Val>> {
        let x = T::make(v);
        guard(|| -> Result<Option<Val>, String> { Ok((self.call)(&x, name)) })
    }
    fn echo(&self, v: &Val) -> Val {
        T::make(v).show()
    }
}
/// What the work crate provides for one unit.
#[derive(Default)]
pub struct Bound {
    pub types: Vec<(&'static str, Box<dyn TypeOps>)>,
    /// constants
    pub consts: Vec<(&'static str, fn() -> Val)>,
    /// (type, item, value) of enums and bitmasks as generated
    pub items: Vec<(&'static str, &'static str, i128)>,
}
impl Bound {
    pub fn ty(&self, full: &str) -> &dyn TypeOps {
        &*self.types.iter().find(|x| x.0 == full).unwrap_or_else(|| panic!("MACHINERY: {full} is not bound")).1
    }
}
