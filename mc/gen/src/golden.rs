//! mcgolden <PROPERTY> <tier> <dir> [per root]: schemas and encodings for the reference implementation
//! (authoring time only: tools/golden.py replays them on it).
use mccore::Val;
use mcgen::ast::*;
use mcgen::codec::*;
use mcgen::{units, vals};
use std::fmt::Write as _;
use std::path::Path;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json(m: &Model, p: &Pkg, ty: Option<&Ty>, v: &Val) -> String {
    match v {
        Val::Int(i) => i.to_string(),
        Val::Bool(b) => b.to_string(),
        Val::F(b) => {
            let wide = ty.is_some_and(|t| matches!(m.resolve(&p.name, t), Res::S(mccore::Scalar::F64)));
            let x = if wide { f64::from_bits(*b) } else { f32::from_bits(*b as u32) as f64 };
            format!("{{\"f\":\"{:016x}\"}}", x.to_bits())
        }
        Val::Str(s) => esc(s),
        Val::Bytes(b) => format!("{{\"b\":\"{}\"}}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
        Val::Ext(n, b) => format!("{{\"x\":{n},\"b\":\"{}\"}}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
        Val::None => "null".into(),
        Val::Arr(xs) => format!("[{}]", xs.iter().map(|x| json(m, p, ty, x)).collect::<Vec<_>>().join(",")),
        Val::Sel(..) => unreachable!(),
        Val::Rec(xs) => {
            let Some(Res::D(p, d, _)) = ty.map(|t| m.resolve(&p.name, t)) else { return "null".into() };
            rec(m, p, d, xs)
        }
    }
}
fn param(m: &Model, p: &Pkg, ty: &Ty, v: &Val) -> String {
    match (m.resolve(&p.name, ty), v) {
        (Res::D(p, d, _), Val::Int(i)) => format!("{{\"e\":{},\"v\":{i}}}", esc(&format!("{}.{}", p.name, d.name))),
        _ => json(m, p, Some(ty), v),
    }
}
fn rec(m: &Model, p: &Pkg, d: &Decl, xs: &[Val]) -> String {
    let b = Model::base(d);
    let env = m.env_of(p, d, xs);
    let on = m.active(env, xs).unwrap_or_default();
    let fields: Vec<String> = on.iter().map(|k| format!("{}:{}", esc(&d.members()[*k].name), json(m, p, Some(&d.members()[*k].ty), &xs[b + k]))).collect();
    format!("{{\"r\":{{{}}}}}", fields.join(","))
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("syntax") {
        // verdict, length, text: for tools/SyntaxGolden.java
        let j = mcgen::syntax::Judge::new();
        for (n, seed) in mcgen::syntax::SEEDS {
            for (what, t) in mcgen::syntax::edits(seed, true) {
                println!("{}\t{n}: {}\t{}", j.is_schema(&t).0, esc(&what), esc(&t));
            }
        }
        return;
    }
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "rules" {
        // DIR/<good|bad>/<name>/<name>.zs with one line of description
        for r in mcgen::rules::rules() {
            let d = Path::new(&a[2]).join(if r.good { "good" } else { "bad" }).join(&r.name);
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join(format!("{}.zs", r.name)), format!("{}// {}\n", r.text, r.what)).unwrap();
            for (p, t) in r.more {
                std::fs::create_dir_all(d.join(&p).parent().unwrap()).unwrap();
                std::fs::write(d.join(p), t).unwrap();
            }
        }
        return;
    }
    let dir = Path::new(&a[3]);
    let per: usize = a.get(4).map_or(200, |x| x.parse().unwrap());
    let mut n = 0;
    for u in units::of(&a[1], a[2] == "thorough") {
        for p in &u.pkgs {
            let f = dir.join("zs").join(&u.name).join(p.path());
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, p.zs()).unwrap();
        }
        let m = Model::new(&u);
        let mut out = String::new();
        for root in &u.roots {
            let (p, d) = m.decl(&root.ty);
            if !matches!(d.kind, Kind::Struct { .. } | Kind::Choice { .. } | Kind::Union { .. }) || d.text.as_deref() == Some("") {
                continue;
            }
            let (vs, _) = vals::values(&m, root, 1 << 22);
            let step = vs.len().div_ceil(per).max(1);
            for v in vs.iter().step_by(step).chain(vs.last()) {
                let Ok(bits) = m.encode(&root.ty, v, 0) else { continue };
                let Val::Rec(xs) = v else { continue };
                let ps: Vec<String> = xs[..d.params.len()].iter().zip(&d.params).map(|(x, q)| param(&m, p, &q.ty, x)).collect();
                let hex: String = bits.bytes().iter().map(|x| format!("{x:02x}")).collect();
                writeln!(out, "{{\"pkg\":{},\"type\":{},\"params\":[{}],\"bits\":{},\"hex\":\"{hex}\",\"val\":{}}}", esc(&p.name), esc(&d.name), ps.join(","), bits.len(), rec(&m, p, d, xs)).unwrap();
                n += 1;
            }
        }
        std::fs::create_dir_all(dir.join("golden")).unwrap();
        std::fs::write(dir.join("golden").join(format!("{}{}", u.name, if u.reference { ".ref" } else { "" })), out).unwrap();
    }
    println!("{n}");
}
