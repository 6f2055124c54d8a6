//! Emits the Rust glue between generated types and model values.
use crate::ast::*;
use crate::codec::*;
use mccore::Scalar;
use std::fmt::Write;

fn words(name: &str) -> Vec<String> {
    let mut w: Vec<String> = vec![];
    let c: Vec<char> = name.chars().collect();
    let kind = |x: char| if x.is_ascii_digit() { 2 } else if x.is_ascii_uppercase() { 1 } else { 0 };
    for (i, x) in c.iter().enumerate() {
        if *x == '_' {
            w.push(String::new());
            continue;
        }
        let new = i == 0
            || match (kind(c[i - 1]), kind(*x)) {
                (0, 1) | (2, 0) | (2, 1) | (0, 2) | (1, 2) => true,
                (1, 1) => c.get(i + 1).is_some_and(|y| kind(*y) == 0 && *y != '_'),
                _ => false,
            };
        if new || w.is_empty() {
            w.push(String::new());
        }
        w.last_mut().unwrap().push(*x);
    }
    w.retain(|x| !x.is_empty());
    w
}
fn reserved(n: &str) -> &str {
    match n.to_ascii_lowercase().as_str() {
        "type" => "z_type",
        "struct" => "z_struct",
        "self" => "z_self",
        _ => n,
    }
}
pub const KEYWORDS: [&str; 47] = [
    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "static",
    "super", "trait", "true", "try", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
];
const IMPORTED: [&str; 13] = ["BitReader", "BitWriter", "Box", "Default", "DeltaContext", "From", "Option", "PackingContextNode", "Result", "String", "TryFrom", "Vec", "ZserioPackableObject"];
pub fn snake(n: &str) -> String {
    let x = words(reserved(n)).iter().map(|x| x.to_ascii_lowercase()).collect::<Vec<_>>().join("_");
    if KEYWORDS.contains(&x.as_str()) {
        format!("z_{x}")
    } else {
        x
    }
}
/// The name of a type.
pub fn tname(n: &str) -> String {
    let x = pascal(n);
    if IMPORTED.contains(&x.as_str()) {
        format!("Z{x}")
    } else {
        x
    }
}
pub fn pascal(n: &str) -> String {
    words(reserved(n))
        .iter()
        .map(|x| {
            let mut s = x.to_ascii_lowercase();
            s[..1].make_ascii_uppercase();
            s
        })
        .collect()
}
pub fn path(u: &Unit, p: &Pkg, d: &Decl) -> String {
    let m: Vec<String> = p.name.split('.').map(snake).collect();
    let tail = d.rust.clone().unwrap_or_else(|| format!("{}::{}", snake(&d.name), if matches!(d.kind, Kind::Const { .. }) { reserved(&d.name).to_ascii_uppercase() } else { tname(&d.name) }));
    format!("crate::g_{}::{}::{}", u.name, m.join("::"), tail)
}
fn carrier(m: &Model, p: &Pkg, base: &Ty) -> &'static str {
    match m.resolve(&p.name, base) {
        Res::S(k) => match k {
            Scalar::U(8) => "u8",
            Scalar::U(16) | Scalar::VarU16 => "u16",
            Scalar::U(32) | Scalar::VarU32 | Scalar::VarSize => "u32",
            Scalar::I(8) => "i8",
            Scalar::I(16) | Scalar::Var16 => "i16",
            Scalar::I(32) | Scalar::Var32 => "i32",
            Scalar::I(_) | Scalar::Var64 | Scalar::Var => "i64",
            _ => "u64",
        },
        Res::DynI(_) => "i64",
        _ => "u64",
    }
}
pub fn emit(u: &Unit) -> String {
    let m = Model::new(u);
    let mut o = String::from("// generated\n#![allow(unused)]\nuse mcgen::rtops::*;\nuse mccore::Val;\n");
    let mut reg = String::new();
    for p in &u.pkgs {
        for d in &p.decls {
            if d.unbound {
                continue;
            }
            let t = path(u, p, d);
            let full = format!("{}.{}", p.name, d.name);
            match &d.kind {
                Kind::Struct { .. } | Kind::Union { .. } | Kind::Choice { .. } => {
                    let mut make = String::new();
                    let mut show = String::new();
                    let mut k = 0;
                    for q in &d.params {
                        writeln!(make, "            {}: Make::make(&r[{k}]),", snake(&q.name)).unwrap();
                        writeln!(show, "            self.{}.show(),", snake(&q.name)).unwrap();
                        k += 1;
                    }
                    if let Kind::Union { fields } = &d.kind {
                        let sel = format!("{t}Selector");
                        writeln!(make, "            union_selector: match &r[{k}] {{").unwrap();
                        writeln!(show, "            match self.union_selector {{").unwrap();
                        for (i, fl) in fields.iter().enumerate() {
                            writeln!(make, "                Val::Int({i}) => {sel}::{},", pascal(&fl.name)).unwrap();
                            writeln!(show, "                {sel}::{} => Val::Int({i}),", pascal(&fl.name)).unwrap();
                        }
                        writeln!(make, "                _ => Default::default(),\n            }},").unwrap();
                        writeln!(show, "                #[allow(unreachable_patterns)]\n                _ => Val::Int(-1),\n            }},").unwrap();
                        k += 1;
                    }
                    for fl in d.members() {
                        writeln!(make, "            {}: Make::make(&r[{k}]),", snake(&fl.name)).unwrap();
                        writeln!(show, "            self.{}.show(),", snake(&fl.name)).unwrap();
                        k += 1;
                    }
                    let blank = if k == 0 { "let _ = r;" } else { "" };
                    writeln!(o, "impl Make for {t} {{\n    fn make(v: &Val) -> Self {{\n        let Val::Rec(r) = v else {{ return Default::default() }};\n        {blank}\n        {t} {{\n{make}        }}\n    }}\n}}").unwrap();
                    writeln!(o, "impl Show for {t} {{\n    fn show(&self) -> Val {{\n        Val::Rec(vec![\n{show}        ])\n    }}\n}}").unwrap();
                    let mut calls = String::new();
                    for f in &d.funcs {
                        write!(calls, "\"{}\" => Some(x.{}().show()), ", f.name, snake(&f.name)).unwrap();
                    }
                    writeln!(reg, "    b.types.push((\"{full}\", Box::new(Ops::<{t}> {{ call: |x, n| match n {{ {calls}_ => None }} }})));").unwrap();
                }
                Kind::Enum { items, .. } => {
                    let mut make = String::new();
                    let mut show = String::new();
                    for (n, _, v) in items {
                        writeln!(make, "            Val::Int({v}) => {t}::{},", pascal(n)).unwrap();
                        writeln!(show, "            {t}::{} => {v},", pascal(n)).unwrap();
                        writeln!(reg, "    b.items.push((\"{full}\", \"{n}\", {t}::{} as i128));", pascal(n)).unwrap();
                    }
                    writeln!(o, "impl Make for {t} {{\n    fn make(v: &Val) -> Self {{\n        match v {{\n{make}            _ => Default::default(),\n        }}\n    }}\n}}").unwrap();
                    writeln!(o, "impl Show for {t} {{\n    fn show(&self) -> Val {{\n        #[allow(unreachable_patterns)]\n        Val::Int(match self {{\n{show}            _ => -1,\n        }})\n    }}\n}}").unwrap();
                    writeln!(reg, "    b.types.push((\"{full}\", Box::new(Ops::<{t}> {{ call: |_, _| None }})));").unwrap();
                }
                Kind::Bitmask { base, items } => {
                    let c = carrier(&m, p, base);
                    for (n, _, _) in items {
                        writeln!(reg, "    b.items.push((\"{full}\", \"{n}\", {t}::{}.bits() as i128));", pascal(n)).unwrap();
                    }
                    writeln!(o, "impl Make for {t} {{\n    fn make(v: &Val) -> Self {{\n        match v {{\n            Val::Int(x) => {t}::from(*x as {c}),\n            _ => Default::default(),\n        }}\n    }}\n}}").unwrap();
                    writeln!(o, "impl Show for {t} {{\n    fn show(&self) -> Val {{\n        Val::Int(self.bits() as i128)\n    }}\n}}").unwrap();
                    writeln!(reg, "    b.types.push((\"{full}\", Box::new(Ops::<{t}> {{ call: |_, _| None }})));").unwrap();
                }
                Kind::Subtype { .. } => {}
                Kind::Const { .. } => {
                    writeln!(reg, "    b.consts.push((\"{full}\", || {t}.show()));").unwrap();
                }
            }
        }
    }
    writeln!(o, "pub fn bound() -> Bound {{\n    let mut b = Bound::default();\n{reg}    b\n}}").unwrap();
    o
}
