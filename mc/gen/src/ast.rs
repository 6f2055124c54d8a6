//! Schema AST: printed as zserio text, interpreted by the reference model, bound to the generated Rust.
use mccore::Scalar;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    S(Scalar),
    /// bit<expr> / int<expr>
    DynU(Box<Ex>),
    DynI(Box<Ex>),
    /// (text of the reference, declaration it means, arguments)
    Ref(String, String, Vec<Ex>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    I(i128),
    /// literal with its own spelling
    Lit(String, i128),
    B(bool),
    F(f64),
    Str(String),
    Id(String),
    /// constant of another package: (text, declaration)
    Name(String, String),
    Dot(Box<Ex>, String),
    /// enum / bitmask item: (text, declaration, item)
    Item(String, String, String),
    Idx(Box<Ex>, Box<Ex>),
    Un(&'static str, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Tern(Box<Ex>, Box<Ex>, Box<Ex>),
    Len(Box<Ex>),
    ValOf(Box<Ex>),
    NumBits(Box<Ex>),
    IsSet(Box<Ex>, Box<Ex>),
    Index,
    Call(Box<Ex>),
    Par(Box<Ex>),
}
#[derive(Clone, Debug)]
pub enum Ar {
    No,
    Auto,
    Fixed(Ex),
    Implicit,
}
#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub ar: Ar,
    pub packed: bool,
    pub opt: bool,
    pub cond: Option<Ex>,
    pub align: u32,
    pub offset: Option<Ex>,
    /// integer values to explore (otherwise the type's alphabet)
    pub vals: Option<Vec<i128>>,
    /// array lengths to explore
    pub lens: Option<Vec<usize>>,
}
#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub ty: Ty,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub ex: Ex,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Struct { fields: Vec<Field> },
    Choice { sel: Ex, cases: Vec<(Vec<Ex>, Option<Field>)>, default: Option<Option<Field>> },
    Union { fields: Vec<Field> },
    /// (item, printed value, value it must have)
    Enum { base: Ty, items: Vec<(String, Option<Ex>, i128)> },
    Bitmask { base: Ty, items: Vec<(String, Option<Ex>, i128)> },
    Subtype { ty: Ty },
    Const { ty: Ty, ex: Ex },
}
#[derive(Clone, Debug)]
pub struct Decl {
    pub name: String,
    pub params: Vec<Param>,
    pub kind: Kind,
    pub funcs: Vec<Func>,
    /// printed instead of the declaration (templates); Some("") prints nothing
    pub text: Option<String>,
    /// path of the generated item relative to its package module
    pub rust: Option<String>,
    /// no binding is generated for it
    pub unbound: bool,
}
#[derive(Clone, Debug)]
pub struct Pkg {
    pub name: String,
    pub imports: Vec<String>,
    pub decls: Vec<Decl>,
}
#[derive(Clone, Debug)]
pub struct Root {
    pub ty: String,
    /// alphabet size for scalars / lengths
    pub alpha: usize,
    pub lens: Vec<usize>,
    /// at most this many non-first choices
    pub dev: usize,
    pub params: Vec<Vec<mccore::Val>>,
    /// every start position (C15)
    pub spread: bool,
}
/// A schema that is generated, compiled and explored on its own.
#[derive(Clone, Debug)]
pub struct Unit {
    pub name: String,
    pub what: String,
    pub pkgs: Vec<Pkg>,
    pub roots: Vec<Root>,
    /// also validated against the reference compiler
    pub golden: bool,
    /// aligned optional fields as the reference implementation lays them out
    pub reference: bool,
}

pub fn u(n: u8) -> Ty {
    Ty::S(Scalar::U(n))
}
pub fn i(n: u8) -> Ty {
    Ty::S(Scalar::I(n))
}
pub fn s(k: Scalar) -> Ty {
    Ty::S(k)
}
/// Reference within the package.
pub fn r(name: &str) -> Ty {
    Ty::Ref(name.into(), name.into(), vec![])
}
pub fn ra(name: &str, args: Vec<Ex>) -> Ty {
    Ty::Ref(name.into(), name.into(), args)
}
/// Reference with explicit text and meaning.
pub fn rt(text: &str, target: &str) -> Ty {
    Ty::Ref(text.into(), target.into(), vec![])
}
pub fn f(name: &str, ty: Ty) -> Field {
    Field { name: name.into(), ty, ar: Ar::No, packed: false, opt: false, cond: None, align: 0, offset: None, vals: None, lens: None }
}
impl Field {
    pub fn opt(mut self) -> Self {
        self.opt = true;
        self
    }
    pub fn arr(mut self) -> Self {
        self.ar = Ar::Auto;
        self
    }
    pub fn fixed(mut self, e: Ex) -> Self {
        self.ar = Ar::Fixed(e);
        self
    }
    pub fn implicit(mut self) -> Self {
        self.ar = Ar::Implicit;
        self
    }
    pub fn packed(mut self) -> Self {
        self.packed = true;
        self
    }
    pub fn cond(mut self, e: Ex) -> Self {
        self.cond = Some(e);
        self
    }
    pub fn align(mut self, n: u32) -> Self {
        self.align = n;
        self
    }
    pub fn offset(mut self, e: Ex) -> Self {
        self.offset = Some(e);
        self
    }
    pub fn vals(mut self, v: &[i128]) -> Self {
        self.vals = Some(v.to_vec());
        self
    }
    pub fn lens(mut self, v: &[usize]) -> Self {
        self.lens = Some(v.to_vec());
        self
    }
    pub fn is_arr(&self) -> bool {
        !matches!(self.ar, Ar::No)
    }
}
fn decl(name: &str, kind: Kind) -> Decl {
    Decl { name: name.into(), params: vec![], kind, funcs: vec![], text: None, rust: None, unbound: false }
}
pub fn st(name: &str, fields: Vec<Field>) -> Decl {
    decl(name, Kind::Struct { fields })
}
pub fn un(name: &str, fields: Vec<Field>) -> Decl {
    decl(name, Kind::Union { fields })
}
pub fn ch(name: &str, params: Vec<(&str, Ty)>, sel: Ex, cases: Vec<(Vec<Ex>, Option<Field>)>, default: Option<Option<Field>>) -> Decl {
    decl(name, Kind::Choice { sel, cases, default }).params(params)
}
/// Items with explicit or continuing values.
pub fn en(name: &str, base: Ty, items: &[(&str, Option<Ex>, i128)]) -> Decl {
    decl(name, Kind::Enum { base, items: items.iter().map(|x| (x.0.to_string(), x.1.clone(), x.2)).collect() })
}
pub fn bm(name: &str, base: Ty, items: &[(&str, Option<Ex>, i128)]) -> Decl {
    decl(name, Kind::Bitmask { base, items: items.iter().map(|x| (x.0.to_string(), x.1.clone(), x.2)).collect() })
}
pub fn sub(name: &str, ty: Ty) -> Decl {
    decl(name, Kind::Subtype { ty })
}
pub fn konst(name: &str, ty: Ty, ex: Ex) -> Decl {
    decl(name, Kind::Const { ty, ex })
}
impl Decl {
    pub fn params(mut self, p: Vec<(&str, Ty)>) -> Self {
        self.params = p.into_iter().map(|(n, t)| Param { name: n.into(), ty: t }).collect();
        self
    }
    pub fn func(mut self, name: &str, ret: Ty, ex: Ex) -> Self {
        self.funcs.push(Func { name: name.into(), ret, ex });
        self
    }
    pub fn text(mut self, t: &str) -> Self {
        self.text = Some(t.into());
        self
    }
    pub fn rust(mut self, t: &str) -> Self {
        self.rust = Some(t.into());
        self
    }
    pub fn unbound(mut self) -> Self {
        self.unbound = true;
        self
    }
    /// All member fields in the order of the generated struct.
    pub fn members(&self) -> Vec<&Field> {
        match &self.kind {
            Kind::Struct { fields } | Kind::Union { fields } => fields.iter().collect(),
            Kind::Choice { cases, default, .. } => {
                let mut v: Vec<&Field> = cases.iter().filter_map(|c| c.1.as_ref()).collect();
                if let Some(Some(d)) = default {
                    v.push(d);
                }
                v
            }
            _ => vec![],
        }
    }
    pub fn is_union(&self) -> bool {
        matches!(self.kind, Kind::Union { .. })
    }
    pub fn is_compound(&self) -> bool {
        matches!(self.kind, Kind::Struct { .. } | Kind::Union { .. } | Kind::Choice { .. })
    }
}
// ---- expressions
pub fn id(n: &str) -> Ex {
    Ex::Id(n.into())
}
pub fn n(v: i128) -> Ex {
    Ex::I(v)
}
pub fn dot(e: Ex, m: &str) -> Ex {
    Ex::Dot(Box::new(e), m.into())
}
pub fn bin(op: &'static str, a: Ex, b: Ex) -> Ex {
    Ex::Bin(op, Box::new(a), Box::new(b))
}
pub fn unary(op: &'static str, a: Ex) -> Ex {
    Ex::Un(op, Box::new(a))
}
pub fn item(ty: &str, it: &str) -> Ex {
    Ex::Item(ty.into(), ty.into(), it.into())
}
pub fn tern(c: Ex, a: Ex, b: Ex) -> Ex {
    Ex::Tern(Box::new(c), Box::new(a), Box::new(b))
}
pub fn call(e: Ex) -> Ex {
    Ex::Call(Box::new(e))
}

/// Binding strength as in the zserio grammar (higher binds tighter).
fn prec(op: &str) -> u8 {
    match op {
        "*" | "/" | "%" => 11,
        "+" | "-" => 10,
        "<<" | ">>" => 9,
        "<" | "<=" | ">" | ">=" => 8,
        "==" | "!=" => 7,
        "&" => 6,
        "^" => 5,
        "|" => 4,
        "&&" => 3,
        "||" => 2,
        _ => panic!("operator {op}"),
    }
}
impl Ex {
    fn level(&self) -> u8 {
        match self {
            Ex::Bin(op, ..) => prec(op),
            Ex::Tern(..) => 1,
            Ex::Un(..) => 13,
            Ex::I(v) if *v < 0 => 13,
            Ex::F(v) if *v < 0.0 => 13,
            Ex::ValOf(..) | Ex::NumBits(..) | Ex::Len(..) | Ex::IsSet(..) => 14,
            _ => 15,
        }
    }
    /// Text with only the parentheses the grammar needs.
    pub fn zs(&self) -> String {
        let at = |e: &Ex, min: u8| if e.level() < min { format!("({})", e.zs()) } else { e.zs() };
        match self {
            Ex::I(v) => v.to_string(),
            Ex::Lit(t, _) => t.clone(),
            Ex::B(b) => b.to_string(),
            Ex::F(v) => format!("{:?}", v),
            Ex::Str(s) => format!("\"{}\"", s),
            Ex::Id(n) | Ex::Name(n, _) => n.clone(),
            Ex::Dot(e, m) => format!("{}.{}", at(e, 15), m),
            Ex::Item(t, _, it) => format!("{}.{}", t, it),
            Ex::Idx(a, b) => format!("{}[{}]", at(a, 15), b.zs()),
            Ex::Un(op, a) => {
                let t = at(a, 13);
                if t.starts_with(op) { format!("{op} {t}") } else { format!("{op}{t}") }
            }
            Ex::Bin(op, a, b) => {
                // left associative
                let p = prec(op);
                format!("{} {} {}", at(a, p), op, at(b, p + 1))
            }
            Ex::Tern(c, a, b) => format!("{} ? {} : {}", at(c, 2), at(a, 1), at(b, 1)),
            Ex::Len(a) => format!("lengthof({})", a.zs()),
            Ex::ValOf(a) => format!("valueof({})", a.zs()),
            Ex::NumBits(a) => format!("numbits({})", a.zs()),
            Ex::IsSet(a, b) => format!("isset({}, {})", a.zs(), b.zs()),
            Ex::Index => "@index".into(),
            Ex::Call(a) => format!("{}()", at(a, 15)),
            Ex::Par(a) => format!("({})", a.zs()),
        }
    }
    pub fn uses_index(&self) -> bool {
        match self {
            Ex::Index => true,
            Ex::Dot(a, _) | Ex::Un(_, a) | Ex::Len(a) | Ex::ValOf(a) | Ex::NumBits(a) | Ex::Call(a) | Ex::Par(a) => a.uses_index(),
            Ex::Idx(a, b) | Ex::Bin(_, a, b) | Ex::IsSet(a, b) => a.uses_index() || b.uses_index(),
            Ex::Tern(a, b, c) => a.uses_index() || b.uses_index() || c.uses_index(),
            _ => false,
        }
    }
}
impl Ty {
    pub fn zs(&self) -> String {
        match self {
            Ty::S(k) => k.zs(),
            Ty::DynU(e) => format!("bit<{}>", e.zs()),
            Ty::DynI(e) => format!("int<{}>", e.zs()),
            Ty::Ref(t, _, a) if a.is_empty() => t.clone(),
            Ty::Ref(t, _, a) => format!("{}({})", t, a.iter().map(|e| e.zs()).collect::<Vec<_>>().join(", ")),
        }
    }
}
impl Field {
    pub fn zs(&self) -> String {
        let mut o = String::new();
        if self.align > 0 {
            o += &format!("align({}):\n    ", self.align);
        }
        if let Some(e) = &self.offset {
            o += &format!("{}:\n    ", e.zs());
        }
        if self.opt {
            o += "optional ";
        }
        if self.packed {
            o += "packed ";
        }
        if matches!(self.ar, Ar::Implicit) {
            o += "implicit ";
        }
        o += &format!("{} {}", self.ty.zs(), self.name);
        match &self.ar {
            Ar::No => {}
            Ar::Auto | Ar::Implicit => o += "[]",
            Ar::Fixed(e) => o += &format!("[{}]", e.zs()),
        }
        if let Some(e) = &self.cond {
            o += &format!(" if {}", e.zs());
        }
        o
    }
}
impl Decl {
    pub fn zs(&self) -> String {
        if let Some(t) = &self.text {
            return t.clone();
        }
        let params = if self.params.is_empty() {
            String::new()
        } else {
            format!("({})", self.params.iter().map(|p| format!("{} {}", p.ty.zs(), p.name)).collect::<Vec<_>>().join(", "))
        };
        let funcs: String = self.funcs.iter().map(|x| format!("    function {} {}() {{ return {}; }}\n", x.ret.zs(), x.name, x.ex.zs())).collect();
        let items = |v: &[(String, Option<Ex>, i128)]| {
            v.iter()
                .map(|(n, e, _)| match e {
                    Some(e) => format!("    {} = {}", n, e.zs()),
                    None => format!("    {}", n),
                })
                .collect::<Vec<_>>()
                .join(",\n")
        };
        match &self.kind {
            Kind::Struct { fields } => {
                let b: String = fields.iter().map(|x| format!("    {};\n", x.zs())).collect();
                format!("struct {}{} {{\n{}{}}};\n", self.name, params, b, funcs)
            }
            Kind::Union { fields } => {
                let b: String = fields.iter().map(|x| format!("    {};\n", x.zs())).collect();
                format!("union {}{} {{\n{}{}}};\n", self.name, params, b, funcs)
            }
            Kind::Choice { sel, cases, default } => {
                let mut b = String::new();
                for (ls, fl) in cases {
                    for l in ls {
                        b += &format!("    case {}:\n", l.zs());
                    }
                    b += &format!("        {};\n", fl.as_ref().map(|x| x.zs()).unwrap_or_default());
                }
                if let Some(d) = default {
                    b += &format!("    default:\n        {};\n", d.as_ref().map(|x| x.zs()).unwrap_or_default());
                }
                format!("choice {}{} on {} {{\n{}{}}};\n", self.name, params, sel.zs(), b, funcs)
            }
            Kind::Enum { base, items: it } => format!("enum {} {} {{\n{}\n}};\n", base.zs(), self.name, items(it)),
            Kind::Bitmask { base, items: it } => format!("bitmask {} {} {{\n{}\n}};\n", base.zs(), self.name, items(it)),
            Kind::Subtype { ty } => format!("subtype {} {};\n", ty.zs(), self.name),
            Kind::Const { ty, ex } => format!("const {} {} = {};\n", ty.zs(), self.name, ex.zs()),
        }
    }
}
impl Pkg {
    pub fn zs(&self) -> String {
        let mut o = format!("package {};\n\n", self.name);
        for im in &self.imports {
            o += &format!("import {};\n", im);
        }
        for d in &self.decls {
            o += "\n";
            o += &d.zs();
        }
        o
    }
    pub fn path(&self) -> String {
        format!("{}.zs", self.name.replace('.', "/"))
    }
}
pub fn pkg(name: &str, decls: Vec<Decl>) -> Pkg {
    Pkg { name: name.into(), imports: vec![], decls }
}
pub fn root(ty: &str) -> Root {
    Root { ty: ty.into(), alpha: 3, lens: vec![0, 1, 2], dev: usize::MAX, params: vec![], spread: false }
}
impl Root {
    pub fn alpha(mut self, a: usize) -> Self {
        self.alpha = a;
        self
    }
    pub fn lens(mut self, l: &[usize]) -> Self {
        self.lens = l.to_vec();
        self
    }
    pub fn dev(mut self, d: usize) -> Self {
        self.dev = d;
        self
    }
    pub fn spread(mut self) -> Self {
        self.spread = true;
        self
    }
    pub fn with(mut self, p: Vec<Vec<mccore::Val>>) -> Self {
        self.params = p;
        self
    }
}
/// Package names without digits or keywords: pa, pb, ...
pub fn letters(mut k: usize) -> String {
    let mut o = String::new();
    loop {
        o.insert(0, (b'a' + (k % 26) as u8) as char);
        k /= 26;
        if k == 0 {
            return o;
        }
        k -= 1;
    }
}
pub fn unit(name: &str, what: &str, decls: Vec<Decl>, roots: Vec<Root>) -> Unit {
    Unit { name: name.into(), what: what.into(), pkgs: vec![pkg(name, decls)], roots, golden: true, reference: false }
}

/// Declaration index of a unit: "pkg.Name" -> (package, declaration).
pub struct Index<'a> {
    pub map: BTreeMap<String, (&'a Pkg, &'a Decl)>,
}
impl<'a> Index<'a> {
    pub fn new(unit: &'a Unit) -> Index<'a> {
        let mut map = BTreeMap::new();
        for p in &unit.pkgs {
            for d in &p.decls {
                map.insert(format!("{}.{}", p.name, d.name), (p, d));
            }
        }
        Index { map }
    }
    pub fn get(&self, pkg: &str, target: &str) -> (&'a Pkg, &'a Decl) {
        if let Some(x) = self.map.get(&format!("{}.{}", pkg, target)) {
            return *x;
        }
        if let Some(x) = self.map.get(target) {
            return *x;
        }
        panic!("MACHINERY: no declaration {target} seen from {pkg}")
    }
}
