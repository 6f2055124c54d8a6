//! Reference interpreter of schemas: expressions, wire format, packing contexts.
use crate::ast::*;
use mccore::model::{dec_scalar, dec_var, enc_scalar, enc_var, Delta, MErr, Rd, M};
use mccore::{Bits, Scalar, Val};

pub struct Model<'a> {
    pub unit: &'a Unit,
    pub ix: Index<'a>,
    /// array elements decoded since the last reset: packed elements may cost no bits at all, so a
    /// few bytes can announce billions of them
    pub elems: std::cell::Cell<usize>,
    /// decoding gives up beyond so many elements
    pub many: std::cell::Cell<usize>,
    /// the longest array that was announced
    pub announced: std::cell::Cell<usize>,
    /// where lengths are read, when asked for
    pub marks: std::cell::RefCell<Option<Vec<Mark>>>,
    /// something no encoder produces was met: a delta out of its type's range, a field of zero bits
    pub exotic: std::cell::Cell<bool>,
}
/// A length in a stream.
#[derive(Clone, Debug)]
pub struct Mark {
    pub at: usize,
    /// how the length is stored
    pub kind: Scalar,
    /// what it counts: elements of this declaration, or (empty) bytes, bits or plain values
    pub elem: String,
    /// elements are read one by one, so that many are reserved at most; buffers are never reserved in advance
    pub array: bool,
}
/// More elements than this are not explored.
pub const MANY: usize = 50_000;
/// Where an expression is evaluated.
#[derive(Clone, Copy)]
pub struct Env<'a, 'v> {
    pub pkg: &'a str,
    pub decl: &'a Decl,
    pub params: &'v [Val],
    pub fields: &'v [Val],
    pub index: Option<usize>,
}
/// Result of an expression.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(i128),
    B(bool),
    F(f64),
    S(String),
    /// compound or array value with its type
    C(Val, String, String),
    A(Vec<Val>, Ty, String),
}
/// The zserio result is not defined (overflow, division by zero, absent value, ...).
#[derive(Clone, Debug, PartialEq)]
pub struct Undef(pub &'static str);
type E<T> = Result<T, Undef>;

/// A fully resolved type.
#[derive(Clone)]
pub enum Res<'a> {
    S(Scalar),
    DynU(Box<Ex>),
    DynI(Box<Ex>),
    D(&'a Pkg, &'a Decl, Vec<Ex>),
}

#[derive(Default, Clone, Debug)]
pub struct Node {
    d: Delta,
    kids: Vec<Node>,
}
impl Node {
    fn kid(&mut self, i: usize) -> &mut Node {
        while self.kids.len() <= i {
            self.kids.push(Node::default());
        }
        &mut self.kids[i]
    }
}

fn i64range(v: i128) -> E<V> {
    if v < i64::MIN as i128 || v > i64::MAX as i128 {
        Err(Undef("overflow"))
    } else {
        Ok(V::I(v))
    }
}

impl<'a> Model<'a> {
    pub fn new(unit: &'a Unit) -> Model<'a> {
        Model { unit, ix: Index::new(unit), elems: Default::default(), many: std::cell::Cell::new(Self::enough(unit)), marks: Default::default(), announced: Default::default(), exotic: Default::default() }
    }
    pub fn decl(&self, full: &str) -> (&'a Pkg, &'a Decl) {
        self.ix.get("", full)
    }
    pub fn resolve(&self, pkg: &str, ty: &Ty) -> Res<'a> {
        match ty {
            Ty::S(k) => Res::S(*k),
            Ty::DynU(e) => Res::DynU(e.clone()),
            Ty::DynI(e) => Res::DynI(e.clone()),
            Ty::Ref(_, target, args) => {
                let (p, d) = self.ix.get(pkg, target);
                match &d.kind {
                    Kind::Subtype { ty } => match self.resolve(&p.name, ty) {
                        Res::D(p, d, a) => Res::D(p, d, if args.is_empty() { a } else { args.clone() }),
                        o => o,
                    },
                    _ => Res::D(p, d, args.clone()),
                }
            }
        }
    }

    // ------------------------------------------------------------ expressions
    fn wrap(&self, pkg: &str, ty: &Ty, v: &Val) -> E<V> {
        Ok(match v {
            Val::None => return Err(Undef("absent")),
            Val::Int(i) => V::I(*i),
            Val::Bool(b) => V::B(*b),
            Val::F(b) => match self.resolve(pkg, ty) {
                Res::S(Scalar::F64) => V::F(f64::from_bits(*b)),
                _ => V::F(f32::from_bits(*b as u32) as f64),
            },
            Val::Str(s) => V::S(s.clone()),
            v => match self.resolve(pkg, ty) {
                Res::D(p, d, _) => V::C(v.clone(), p.name.clone(), d.name.clone()),
                // bytes and extern have no operators
                _ => V::C(v.clone(), String::new(), String::new()),
            },
        })
    }
    fn wrap_field(&self, pkg: &str, fl: &Field, v: &Val) -> E<V> {
        match v {
            Val::None => Err(Undef("absent")),
            Val::Arr(xs) => Ok(V::A(xs.clone(), fl.ty.clone(), pkg.to_string())),
            v => self.wrap(pkg, &fl.ty, v),
        }
    }
    /// Offset of the fields inside the record of a declaration.
    pub fn base(d: &Decl) -> usize {
        d.params.len() + d.is_union() as usize
    }
    pub fn env_of<'v>(&self, p: &'a Pkg, d: &'a Decl, rec: &'v [Val]) -> Env<'a, 'v> {
        let b = Self::base(d);
        Env { pkg: &p.name, decl: d, params: &rec[..d.params.len()], fields: &rec[b..], index: None }
    }
    fn name(&self, env: Env, name: &str) -> E<V> {
        for (i, fl) in env.decl.members().iter().enumerate() {
            if fl.name == name {
                return match env.fields.get(i) {
                    Some(v) => self.wrap_field(env.pkg, fl, v),
                    None => Err(Undef("not yet decoded")),
                };
            }
        }
        for (i, p) in env.decl.params.iter().enumerate() {
            if p.name == name {
                return self.wrap(env.pkg, &p.ty, &env.params[i]);
            }
        }
        let (p, d) = self.ix.get(env.pkg, name);
        match &d.kind {
            Kind::Const { ex, .. } => self.eval(Env { pkg: &p.name, decl: d, params: &[], fields: &[], index: None }, ex),
            _ => Err(Undef("name")),
        }
    }
    /// More elements than any explored value has.
    fn enough(unit: &Unit) -> usize {
        let fs = unit.pkgs.iter().flat_map(|p| &p.decls).flat_map(|d| d.members());
        let longest = fs.filter_map(|f| f.lens.as_ref().and_then(|l| l.iter().max())).max();
        MANY.max(4 * longest.copied().unwrap_or(0))
    }
    pub fn item(&self, pkg: &str, target: &str, it: &str) -> i128 {
        let (p, d) = self.ix.get(pkg, target);
        match &d.kind {
            Kind::Enum { items, .. } | Kind::Bitmask { items, .. } => items.iter().find(|x| x.0 == it).expect("MACHINERY: item").2,
            Kind::Subtype { ty: Ty::Ref(_, t, _) } => self.item(&p.name, t, it),
            _ => panic!("MACHINERY: item"),
        }
    }
    fn call(&self, env: Env, ex: &Ex) -> E<V> {
        match ex {
            Ex::Id(n) => {
                let fu = env.decl.funcs.iter().find(|x| x.name == *n).ok_or(Undef("function"))?;
                self.eval(env, &fu.ex)
            }
            Ex::Dot(o, n) => match self.eval(env, o)? {
                V::C(Val::Rec(rec), p, d) => {
                    let (p, d) = self.ix.get(&p, &d);
                    let fu = d.funcs.iter().find(|x| x.name == *n).ok_or(Undef("function"))?;
                    self.eval(self.env_of(p, d, &rec), &fu.ex)
                }
                _ => Err(Undef("call on non-compound")),
            },
            _ => Err(Undef("call")),
        }
    }
    pub fn eval(&self, env: Env, ex: &Ex) -> E<V> {
        Ok(match ex {
            Ex::I(v) | Ex::Lit(_, v) => V::I(*v),
            Ex::B(b) => V::B(*b),
            Ex::F(x) => V::F(*x),
            Ex::Str(s) => V::S(s.clone()),
            Ex::Id(n) | Ex::Name(_, n) => self.name(env, n)?,
            Ex::Dot(o, m) => match self.eval(env, o)? {
                V::C(Val::Rec(rec), p, d) => {
                    let (p, d) = self.ix.get(&p, &d);
                    let b = Self::base(d);
                    if let Some(k) = d.members().iter().position(|x| x.name == *m) {
                        self.wrap_field(&p.name, d.members()[k], &rec[b + k])?
                    } else if let Some(k) = d.params.iter().position(|x| x.name == *m) {
                        self.wrap(&p.name, &d.params[k].ty, &rec[k])?
                    } else {
                        return Err(Undef("member"));
                    }
                }
                _ => return Err(Undef("dot")),
            },
            Ex::Item(_, t, it) => V::I(self.item(env.pkg, t, it)),
            Ex::Idx(a, b) => match (self.eval(env, a)?, self.eval(env, b)?) {
                (V::A(xs, ty, p), V::I(k)) => match xs.get(k as usize) {
                    Some(x) if k >= 0 => self.wrap(&p, &ty, x)?,
                    _ => return Err(Undef("index")),
                },
                _ => return Err(Undef("index")),
            },
            Ex::Un(op, a) => match (*op, self.eval(env, a)?) {
                ("-", V::I(x)) => i64range(-x)?,
                ("+", V::I(x)) => V::I(x),
                ("~", V::I(x)) => i64range(!x)?,
                ("-", V::F(x)) => V::F(-x),
                ("+", V::F(x)) => V::F(x),
                ("!", V::B(x)) => V::B(!x),
                _ => return Err(Undef("unary")),
            },
            Ex::Bin(op, a, b) => {
                if *op == "&&" || *op == "||" {
                    let V::B(x) = self.eval(env, a)? else { return Err(Undef("bool")) };
                    if x == (*op == "||") {
                        return Ok(V::B(x));
                    }
                    let V::B(y) = self.eval(env, b)? else { return Err(Undef("bool")) };
                    return Ok(V::B(y));
                }
                match (self.eval(env, a)?, self.eval(env, b)?) {
                    (V::I(x), V::I(y)) => match *op {
                        "+" => i64range(x + y)?,
                        "-" => i64range(x - y)?,
                        "*" => i64range(x.checked_mul(y).ok_or(Undef("overflow"))?)?,
                        "/" if y != 0 && x >= 0 && y > 0 => V::I(x / y),
                        "%" if y != 0 && x >= 0 && y > 0 => V::I(x % y),
                        "&" => V::I(x & y),
                        "|" => V::I(x | y),
                        "^" => V::I(x ^ y),
                        "<<" if (0..63).contains(&y) => i64range(x << y)?,
                        ">>" if (0..63).contains(&y) => V::I(x >> y),
                        "==" => V::B(x == y),
                        "!=" => V::B(x != y),
                        "<" => V::B(x < y),
                        "<=" => V::B(x <= y),
                        ">" => V::B(x > y),
                        ">=" => V::B(x >= y),
                        _ => return Err(Undef("integer operation")),
                    },
                    (V::F(x), V::F(y)) => self.float(op, x, y)?,
                    (V::F(x), V::I(y)) => self.float(op, x, y as f64)?,
                    (V::I(x), V::F(y)) => self.float(op, x as f64, y)?,
                    (V::S(x), V::S(y)) => match *op {
                        "+" => V::S(x + &y),
                        "==" => V::B(x == y),
                        "!=" => V::B(x != y),
                        _ => return Err(Undef("string operation")),
                    },
                    (V::B(x), V::B(y)) => match *op {
                        "==" => V::B(x == y),
                        "!=" => V::B(x != y),
                        _ => return Err(Undef("bool operation")),
                    },
                    _ => return Err(Undef("operand types")),
                }
            }
            Ex::Tern(c, a, b) => match self.eval(env, c)? {
                V::B(true) => self.eval(env, a)?,
                V::B(false) => self.eval(env, b)?,
                _ => return Err(Undef("condition")),
            },
            Ex::Len(a) => match self.eval(env, a)? {
                V::A(xs, ..) => V::I(xs.len() as i128),
                _ => return Err(Undef("lengthof")),
            },
            Ex::ValOf(a) => self.eval(env, a)?,
            Ex::NumBits(a) => match self.eval(env, a)? {
                V::I(x) if x >= 0 => V::I(if x <= 1 { x } else { (128 - (x as u128 - 1).leading_zeros()) as i128 }),
                _ => return Err(Undef("numbits")),
            },
            Ex::IsSet(a, b) => match (self.eval(env, a)?, self.eval(env, b)?) {
                (V::I(x), V::I(y)) => V::B(x & y == y),
                _ => return Err(Undef("isset")),
            },
            Ex::Index => V::I(env.index.ok_or(Undef("@index"))? as i128),
            Ex::Call(e) => self.call(env, e)?,
            Ex::Par(e) => self.eval(env, e)?,
        })
    }
    fn float(&self, op: &str, x: f64, y: f64) -> E<V> {
        Ok(match op {
            "+" => V::F(x + y),
            "-" => V::F(x - y),
            "*" => V::F(x * y),
            "/" => V::F(x / y),
            "==" => V::B(x == y),
            "!=" => V::B(x != y),
            "<" => V::B(x < y),
            "<=" => V::B(x <= y),
            ">" => V::B(x > y),
            ">=" => V::B(x >= y),
            _ => return Err(Undef("float operation")),
        })
    }
    pub fn truth(&self, env: Env, ex: &Ex) -> M<bool> {
        match self.eval(env, ex) {
            Ok(V::B(b)) => Ok(b),
            Ok(V::I(x)) => Ok(x != 0),
            _ => Err(MErr::Data),
        }
    }
    pub fn num(&self, env: Env, ex: &Ex) -> M<i128> {
        match self.eval(env, ex) {
            Ok(V::I(x)) => Ok(x),
            Ok(V::B(b)) => Ok(b as i128),
            _ => Err(MErr::Data),
        }
    }
    pub fn to_val(&self, pkg: &str, ty: &Ty, v: V) -> E<Val> {
        Ok(match (self.resolve(pkg, ty), v) {
            (Res::S(Scalar::F64), V::F(x)) => Val::F(x.to_bits()),
            (Res::S(Scalar::F32 | Scalar::F16), V::F(x)) => Val::F((x as f32).to_bits() as u64),
            (Res::S(Scalar::F64), V::I(x)) => Val::F((x as f64).to_bits()),
            (Res::S(Scalar::F32 | Scalar::F16), V::I(x)) => Val::F((x as f32).to_bits() as u64),
            (Res::S(k), V::I(x)) if k.is_int() => {
                let (lo, hi) = k.range();
                if x < lo || x > hi {
                    return Err(Undef("out of the type's range"));
                }
                Val::Int(x)
            }
            (_, V::I(x)) => Val::Int(x),
            (_, V::B(b)) => Val::Bool(b),
            (_, V::S(s)) => Val::Str(s),
            (_, V::C(v, ..)) => v,
            (_, V::A(v, ..)) => Val::Arr(v),
            _ => return Err(Undef("conversion")),
        })
    }
    /// Argument values for a parameterised type.
    pub fn args(&self, env: Env, d: &Decl, p: &Pkg, args: &[Ex]) -> M<Vec<Val>> {
        assert_eq!(d.params.len(), args.len(), "MACHINERY: arguments of {}", d.name);
        args.iter()
            .zip(&d.params)
            .map(|(a, q)| self.eval(env, a).and_then(|v| self.to_val(&p.name, &q.ty, v)).map_err(|_| MErr::Data))
            .collect()
    }

    // ------------------------------------------------------------ wire format
    /// The integer scalar a packable leaf is stored as.
    fn leaf(&self, env: Env, ty: &Res<'a>) -> M<Option<Scalar>> {
        Ok(match ty {
            Res::S(k) => Some(*k),
            Res::DynU(e) | Res::DynI(e) => {
                let n = self.num(env, e)?;
                if !(1..=64).contains(&n) {
                    self.exotic.set(n == 0);
                    return Err(MErr::Data);
                }
                Some(if matches!(ty, Res::DynU(_)) { Scalar::U(n as u8) } else { Scalar::I(n as u8) })
            }
            Res::D(p, d, _) => match &d.kind {
                Kind::Enum { base, .. } | Kind::Bitmask { base, .. } => {
                    let b = self.resolve(&p.name, base);
                    let e = Env { pkg: &p.name, decl: d, params: &[], fields: &[], index: None };
                    return self.leaf(e, &b);
                }
                _ => None,
            },
        })
    }
    fn known(&self, ty: &Res<'a>, v: &Val) -> bool {
        match ty {
            Res::D(_, d, _) => match &d.kind {
                Kind::Enum { items, .. } => items.iter().any(|x| x.2 == v.int()),
                _ => true,
            },
            _ => true,
        }
    }
    fn is_offset_target(d: &Decl, name: &str) -> bool {
        d.members().iter().any(|x| match &x.offset {
            Some(Ex::Id(n)) => n == name,
            Some(Ex::Idx(a, _)) => matches!(&**a, Ex::Id(n) if n == name),
            _ => false,
        })
    }

    fn init_ty(&self, env: Env, ty: &Res<'a>, v: &Val, node: &mut Node) -> M<()> {
        match self.leaf(env, ty)? {
            Some(k) => {
                if k.packable() {
                    node.d.init(k, v.int())?;
                }
                Ok(())
            }
            None => match ty {
                Res::D(p, d, _) => self.init_decl(p, d, v, node),
                _ => unreachable!(),
            },
        }
    }
    fn rec<'v>(v: &'v Val) -> &'v [Val] {
        match v {
            Val::Rec(r) => r,
            o => panic!("MACHINERY: not a record: {:?}", o),
        }
    }
    fn init_decl(&self, p: &'a Pkg, d: &'a Decl, v: &Val, node: &mut Node) -> M<()> {
        let rec = Self::rec(v);
        let env = self.env_of(p, d, rec);
        let b = Self::base(d);
        for k in self.active(env, rec)? {
            let fl = d.members()[k];
            if fl.is_arr() || Self::is_offset_target(d, &fl.name) {
                continue;
            }
            if rec[b + k] == Val::None {
                continue;
            }
            self.init_ty(env, &self.resolve(&p.name, &fl.ty), &rec[b + k], node.kid(k + 1))?;
        }
        if d.is_union() {
            node.kid(0).d.init(Scalar::VarSize, rec[d.params.len()].int())?;
        }
        Ok(())
    }
    /// Indices of the members that are stored (optional ones included).
    pub fn active(&self, env: Env, rec: &[Val]) -> M<Vec<usize>> {
        let d = env.decl;
        match &d.kind {
            Kind::Struct { fields } => {
                let mut o = vec![];
                for (k, fl) in fields.iter().enumerate() {
                    let e = Env { fields: &env.fields[..k], ..env };
                    if match &fl.cond {
                        Some(c) => self.truth(e, c)?,
                        None => true,
                    } {
                        o.push(k);
                    }
                }
                Ok(o)
            }
            Kind::Union { fields } => {
                let k = rec[d.params.len()].int();
                if k < 0 || k as usize >= fields.len() {
                    return Err(MErr::Data);
                }
                Ok(vec![k as usize])
            }
            Kind::Choice { .. } => self.case(env),
            _ => unreachable!(),
        }
    }
    fn case(&self, env: Env) -> M<Vec<usize>> {
        let Kind::Choice { sel, cases, default } = &env.decl.kind else { unreachable!() };
        let v = self.eval(env, sel).map_err(|_| MErr::Data)?;
        let mut at = 0;
        for (ls, fl) in cases {
            for l in ls {
                if self.eval(env, l).map_err(|_| MErr::Data)? == v {
                    return Ok(if fl.is_some() { vec![at] } else { vec![] });
                }
            }
            at += fl.is_some() as usize;
        }
        match default {
            Some(Some(_)) => Ok(vec![at]),
            Some(None) => Ok(vec![]),
            None => Err(MErr::Data),
        }
    }

    fn enc_ty(&self, env: Env, ty: &Res<'a>, v: &Val, out: &mut Bits, node: Option<&mut Node>) -> M<()> {
        if !self.known(ty, v) {
            return Err(MErr::Data);
        }
        match self.leaf(env, ty)? {
            Some(k) => match node {
                Some(nd) if k.packable() => nd.d.write(k, v.int(), out),
                _ => enc_scalar(k, v, out),
            },
            None => match ty {
                Res::D(p, d, args) => {
                    let want = self.args(env, d, p, args)?;
                    if Self::rec(v)[..d.params.len()] != want[..] {
                        return Err(MErr::Range);
                    }
                    self.enc_decl(p, d, v, out, node)
                }
                _ => unreachable!(),
            },
        }
    }
    pub fn enc_decl(&self, p: &'a Pkg, d: &'a Decl, v: &Val, out: &mut Bits, mut node: Option<&mut Node>) -> M<()> {
        if let Kind::Enum { .. } | Kind::Bitmask { .. } = d.kind {
            let env = Env { pkg: &p.name, decl: d, params: &[], fields: &[], index: None };
            return self.enc_ty(env, &Res::D(p, d, vec![]), v, out, node);
        }
        let rec = Self::rec(v);
        let env = self.env_of(p, d, rec);
        let b = Self::base(d);
        if d.is_union() {
            let k = rec[d.params.len()].int();
            match node.as_deref_mut() {
                Some(nd) => nd.kid(0).d.write(Scalar::VarSize, k, out)?,
                None => enc_var(Scalar::VarSize, k, out)?,
            }
        }
        for k in self.active(env, rec)? {
            let e = Env { fields: if d.is_union() || matches!(d.kind, Kind::Choice { .. }) { env.fields } else { &env.fields[..k] }, ..env };
            self.enc_field(e, p, d.members()[k], &rec[b + k], out, node.as_deref_mut().map(|x| x.kid(k + 1)))?;
        }
        Ok(())
    }
    fn elem_env<'e, 'v>(&self, env: Env<'e, 'v>, i: usize) -> Env<'e, 'v> {
        Env { index: Some(i), ..env }
    }
    fn enc_field(&self, env: Env, p: &'a Pkg, fl: &Field, v: &Val, out: &mut Bits, node: Option<&mut Node>) -> M<()> {
        let indexed = fl.offset.as_ref().is_some_and(|o| o.uses_index());
        let align = |out: &mut Bits| {
            out.align(fl.align as usize);
            if fl.offset.is_some() && !indexed {
                out.align(8);
            }
        };
        // the repository's own tests pin the alignment before the presence bit;
        // the reference implementation aligns the value
        if !fl.opt || !self.unit.reference {
            align(out);
        }
        if fl.opt {
            out.push(*v != Val::None);
            if *v == Val::None {
                return Ok(());
            }
            if self.unit.reference {
                align(out);
            }
        }
        let ty = self.resolve(&p.name, &fl.ty);
        let target = Self::is_offset_target(env.decl, &fl.name);
        if !fl.is_arr() {
            return self.enc_ty(env, &ty, v, out, if target { None } else { node });
        }
        let Val::Arr(xs) = v else { panic!("MACHINERY: {} is an array: {:?}", fl.name, v) };
        let packed = (fl.packed || node.is_some()) && !target;
        match &fl.ar {
            Ar::Auto => enc_var(Scalar::VarSize, xs.len() as i128, out)?,
            Ar::Fixed(e) => {
                if self.num(env, e)? != xs.len() as i128 {
                    return Err(MErr::Range);
                }
            }
            _ => {}
        }
        let mut root = Node::default();
        if packed {
            for (i, x) in xs.iter().enumerate() {
                self.init_ty(self.elem_env(env, i), &ty, x, &mut root)?;
            }
        }
        for (i, x) in xs.iter().enumerate() {
            if indexed {
                out.align(8);
            }
            self.enc_ty(self.elem_env(env, i), &ty, x, out, packed.then_some(&mut root))?;
        }
        Ok(())
    }

    fn mark(&self, at: usize, kind: Scalar, elem: &Res, array: bool) {
        if let Some(m) = self.marks.borrow_mut().as_mut() {
            let elem = match elem {
                Res::D(p, d, _) => format!("{}.{}", p.name, d.name),
                _ => String::new(),
            };
            m.push(Mark { at, kind, elem, array });
        }
    }
    fn dec_ty(&self, env: Env, ty: &Res<'a>, r: &mut Rd, node: Option<&mut Node>) -> M<Val> {
        if let Res::S(Scalar::Str | Scalar::Bytes | Scalar::Extern) = ty {
            self.mark(r.at, Scalar::VarSize, ty, false);
        }
        let v = match self.leaf(env, ty)? {
            Some(k) => match node {
                Some(nd) if k.packable() => {
                    let x = nd.d.read(k, r);
                    let (lo, hi) = k.range();
                    if x == Err(MErr::Data) || matches!(x, Ok(x) if x < lo || x > hi) {
                        self.exotic.set(true);
                    }
                    Val::Int(x?)
                }
                _ => dec_scalar(k, r)?,
            },
            None => match ty {
                Res::D(p, d, args) => {
                    let a = self.args(env, d, p, args)?;
                    self.dec_decl(p, d, &a, r, node)?
                }
                _ => unreachable!(),
            },
        };
        if !self.known(ty, &v) {
            return Err(MErr::Data);
        }
        Ok(v)
    }
    pub fn dec_decl(&self, p: &'a Pkg, d: &'a Decl, params: &[Val], r: &mut Rd, mut node: Option<&mut Node>) -> M<Val> {
        if let Kind::Enum { .. } | Kind::Bitmask { .. } = d.kind {
            let env = Env { pkg: &p.name, decl: d, params: &[], fields: &[], index: None };
            return self.dec_ty(env, &Res::D(p, d, vec![]), r, node);
        }
        let b = Self::base(d);
        let n = d.members().len();
        let mut rec = params.to_vec();
        match &d.kind {
            Kind::Struct { fields } => {
                for (k, fl) in fields.iter().enumerate() {
                    let env = Env { pkg: &p.name, decl: d, params: &rec[..b], fields: &rec[b..], index: None };
                    let on = match &fl.cond {
                        Some(c) => self.truth(env, c)?,
                        None => true,
                    };
                    let v = if on { self.dec_field(env, p, fl, r, node.as_deref_mut().map(|x| x.kid(k + 1)))? } else { Val::None };
                    rec.push(v);
                }
            }
            Kind::Union { fields } => {
                let k = match node.as_deref_mut() {
                    Some(nd) => {
                        let x = nd.kid(0).d.read(Scalar::VarSize, r);
                        let top = Scalar::VarSize.range().1;
                        if x == Err(MErr::Data) || matches!(x, Ok(x) if x < 0 || x > top) {
                            self.exotic.set(true);
                        }
                        x?
                    }
                    None => dec_var(Scalar::VarSize, r)?,
                };
                if k < 0 || k as usize >= fields.len() {
                    return Err(MErr::Data);
                }
                let k = k as usize;
                let env = Env { pkg: &p.name, decl: d, params, fields: &[], index: None };
                let v = self.dec_field(env, p, &fields[k], r, node.map(|x| x.kid(k + 1)))?;
                rec.push(Val::Int(k as i128));
                for j in 0..n {
                    rec.push(if j == k { v.clone() } else { Val::None });
                }
            }
            Kind::Choice { .. } => {
                let env = Env { pkg: &p.name, decl: d, params, fields: &[], index: None };
                let on = self.case(env)?;
                let mut fs = vec![Val::None; n];
                if let Some(k) = on.first() {
                    fs[*k] = self.dec_field(env, p, d.members()[*k], r, node.map(|x| x.kid(k + 1)))?;
                }
                rec.extend(fs);
            }
            _ => unreachable!(),
        }
        Ok(Val::Rec(rec))
    }
    fn dec_field(&self, env: Env, p: &'a Pkg, fl: &Field, r: &mut Rd, node: Option<&mut Node>) -> M<Val> {
        let indexed = fl.offset.as_ref().is_some_and(|o| o.uses_index());
        let align = |r: &mut Rd| -> M<()> {
            r.align((fl.align as usize).max(1))?;
            if fl.offset.is_some() && !indexed {
                r.align(8)?;
            }
            Ok(())
        };
        if !fl.opt || !self.unit.reference {
            align(r)?;
        }
        if fl.opt {
            if r.bits(1)? == 0 {
                return Ok(Val::None);
            }
            if self.unit.reference {
                align(r)?;
            }
        }
        let ty = self.resolve(&p.name, &fl.ty);
        let target = Self::is_offset_target(env.decl, &fl.name);
        if !fl.is_arr() {
            if node.is_none() || target {
                // a field that is the length of an array
                for x in env.decl.members() {
                    if let (Ar::Fixed(Ex::Id(n)), Res::S(k)) = (&x.ar, &ty) {
                        if *n == fl.name && k.is_int() {
                            self.mark(r.at, *k, &self.resolve(&p.name, &x.ty), true);
                        }
                    }
                }
            }
            return self.dec_ty(env, &ty, r, if target { None } else { node });
        }
        let packed = (fl.packed || node.is_some()) && !target;
        let n = match &fl.ar {
            Ar::Auto => {
                self.mark(r.at, Scalar::VarSize, &ty, true);
                dec_var(Scalar::VarSize, r)? as usize
            }
            Ar::Fixed(e) => {
                let n = self.num(env, e)?;
                if n < 0 && self.exotic.get() {
                    // huge where the code under test wraps around
                    self.announced.set(usize::MAX);
                }
                n.max(0) as usize
            }
            // the elements fill the rest of the stream
            _ => {
                let k = self.leaf(env, &ty)?.expect("MACHINERY: implicit array of a compound");
                let w = match k {
                    Scalar::U(w) | Scalar::I(w) => w as usize,
                    Scalar::Bool => 1,
                    Scalar::F16 => 16,
                    Scalar::F32 => 32,
                    Scalar::F64 => 64,
                    _ => panic!("MACHINERY: implicit array of {}", k.zs()),
                };
                r.left() / w
            }
        };
        self.announced.set(self.announced.get().max(n));
        let mut root = Node::default();
        let mut xs = vec![];
        let mut i = 0;
        while i < n {
            if indexed {
                r.align(8)?;
            }
            self.elems.set(self.elems.get() + 1);
            if self.elems.get() > self.many.get() {
                return Err(MErr::Eof);
            }
            xs.push(self.dec_ty(self.elem_env(env, i), &ty, r, packed.then_some(&mut root))?);
            i += 1;
        }
        Ok(Val::Arr(xs))
    }

    /// Members that are not stored become None.
    pub fn normal_decl(&self, p: &'a Pkg, d: &'a Decl, v: &Val) -> Val {
        let Val::Rec(rec) = v else { return v.clone() };
        let b = Self::base(d);
        let mut out = rec.clone();
        for x in out[b..].iter_mut() {
            *x = Val::None;
        }
        // conditions only look at members before them, which are normalised first
        let on = |out: &[Val], k: usize| -> bool {
            let env = Env { pkg: &p.name, decl: d, params: &out[..d.params.len()], fields: &out[b..], index: None };
            match &d.kind {
                Kind::Struct { fields } => match &fields[k].cond {
                    Some(c) => self.truth(env, c).unwrap_or(false),
                    None => true,
                },
                _ => self.active(env, out).map(|a| a.contains(&k)).unwrap_or(false),
            }
        };
        for (k, fl) in d.members().iter().enumerate() {
            if !on(&out, k) {
                continue;
            }
            let ty = self.resolve(&p.name, &fl.ty);
            let nz = |x: &Val| match &ty {
                Res::D(p, d, _) if d.is_compound() => self.normal_decl(p, d, x),
                _ => x.clone(),
            };
            out[b + k] = match &rec[b + k] {
                Val::Arr(xs) => Val::Arr(xs.iter().map(nz).collect()),
                x => nz(x),
            };
        }
        Val::Rec(out)
    }
    pub fn encode(&self, full: &str, v: &Val, lead: usize) -> M<Bits> {
        let (p, d) = self.decl(full);
        let mut b = Bits::new();
        b.push_bits(0, lead);
        self.enc_decl(p, d, v, &mut b, None)?;
        Ok(b)
    }
}
