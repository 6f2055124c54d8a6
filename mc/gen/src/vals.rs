//! Bounded value spaces of schema types, enumerated through choice points.
use crate::ast::*;
use crate::codec::*;
use mccore::{Chooser, Scalar, Val};

#[derive(Clone)]
pub struct Lv {
    pub alpha: usize,
    pub lens: Vec<usize>,
    pub dev: usize,
}
pub struct Gen<'a, 'c> {
    pub m: &'a Model<'a>,
    pub c: &'c mut Chooser,
    pub lv: Lv,
    /// in arrays too long for choice points: elements run through the combinations
    pub run: Option<usize>,
}
/// Elements of longer arrays are no choices.
const LONG: usize = 64;

/// Integer alphabet, first one never the default.
pub fn ints(k: Scalar) -> Vec<i128> {
    let (lo, hi) = k.range();
    let mut v = vec![];
    let mut add = |x: i128| {
        if x >= lo && x <= hi && !v.contains(&x) {
            v.push(x)
        }
    };
    add(1);
    add(hi);
    add(lo);
    add(0);
    add(-1);
    add(hi / 2 + 1);
    add(lo / 2);
    add(0x5a & hi);
    add(hi - 1);
    add(lo + 1);
    add(2);
    add(127);
    add(128);
    add(300);
    v
}
pub fn scalars(k: Scalar) -> Vec<Val> {
    match k {
        Scalar::Bool => vec![Val::Bool(true), Val::Bool(false)],
        Scalar::F16 => [1.5f32, -0.0, f32::INFINITY, 0.0, -65504.0, 5.9604645e-8].iter().map(|x| Val::F(x.to_bits() as u64)).collect(),
        Scalar::F32 => [1.25f32, -0.0, f32::NEG_INFINITY, 0.0, 1e-40, f32::MAX].iter().map(|x| Val::F(x.to_bits() as u64)).collect(),
        Scalar::F64 => [1.25f64, -0.0, f64::NEG_INFINITY, 0.0, 1e-310, f64::MAX].iter().map(|x| Val::F(x.to_bits())).collect(),
        Scalar::Str => vec![Val::Str("a".into()), Val::Str("".into()), Val::Str("zé".into()), Val::Str("x".repeat(130))],
        Scalar::Bytes => vec![Val::Bytes(vec![0xa5]), Val::Bytes(vec![]), Val::Bytes(vec![1, 2, 255]), Val::Bytes(vec![7; 130])],
        Scalar::Extern => vec![
            Val::Ext(3, vec![0xa0]),
            Val::Ext(0, vec![]),
            Val::Ext(8, vec![0x81]),
            Val::Ext(17, vec![0xff, 0x01, 0x80]),
            Val::Ext(130, vec![0xc0; 17]),
        ],
        k => ints(k).into_iter().map(Val::Int).collect(),
    }
}

impl<'a, 'c> Gen<'a, 'c> {
    fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if let Some(r) = self.run {
            self.run = Some(r / n);
            return r % n;
        }
        if self.lv.dev == 0 {
            return 0;
        }
        let k = self.c.choose(n);
        if k > 0 && self.lv.dev != usize::MAX {
            self.lv.dev -= 1;
        }
        k
    }
    fn from(&mut self, mut v: Vec<Val>) -> Val {
        v.truncate(self.lv.alpha.max(1));
        let k = self.pick(v.len());
        v[k].clone()
    }
    fn ty(&mut self, env: Env, fl: Option<&Field>, ty: &Res<'a>) -> Option<Val> {
        let num = |e: &Ex, s: &Self| s.m.num(env, e).ok();
        let ints_of = |k: Scalar| -> Vec<Val> {
            match fl.and_then(|f| f.vals.as_ref()) {
                Some(v) => v.iter().map(|x| Val::Int(*x)).collect(),
                None => scalars(k),
            }
        };
        let all = fl.is_some_and(|f| f.vals.is_some());
        let choose = |s: &mut Self, v: Vec<Val>| {
            if all {
                let k = s.pick(v.len());
                v[k].clone()
            } else {
                s.from(v)
            }
        };
        Some(match ty {
            Res::S(k) => choose(self, ints_of(*k)),
            Res::DynU(e) => {
                let n = num(e, self)?;
                if !(1..=64).contains(&n) {
                    return None;
                }
                choose(self, ints_of(Scalar::U(n as u8)))
            }
            Res::DynI(e) => {
                let n = num(e, self)?;
                if !(1..=64).contains(&n) {
                    return None;
                }
                choose(self, ints_of(Scalar::I(n as u8)))
            }
            Res::D(p, d, args) => {
                let a = if d.is_compound() { self.m.args(env, d, p, args).ok()? } else { vec![] };
                match &d.kind {
                    Kind::Enum { items, .. } => {
                        // a non-default item first
                        let mut v: Vec<Val> = items.iter().map(|x| Val::Int(x.2)).collect();
                        if v.len() > 1 {
                            v.swap(0, 1);
                        }
                        choose(self, v)
                    }
                    Kind::Bitmask { items, .. } => {
                        if let Some(v) = fl.and_then(|f| f.vals.as_ref()) {
                            let v = v.iter().map(|x| Val::Int(*x)).collect();
                            return Some(choose(self, v));
                        }
                        let mut v: Vec<Val> = items.iter().map(|x| Val::Int(x.2)).collect();
                        if v.len() > 1 {
                            v.swap(0, 1);
                        }
                        v.push(Val::Int(0));
                        v.push(Val::Int(items.iter().fold(0, |a, x| a | x.2)));
                        v.dedup();
                        choose(self, v)
                    }
                    _ => self.decl(p, d, &a)?,
                }
            }
        })
    }
    /// None: no value exists under these parameters.
    pub fn decl(&mut self, p: &'a Pkg, d: &'a Decl, params: &[Val]) -> Option<Val> {
        let mut rec = params.to_vec();
        let b = d.params.len();
        match &d.kind {
            Kind::Struct { fields } => {
                for fl in fields {
                    let env = Env { pkg: &p.name, decl: d, params: &rec[..b], fields: &rec[b..], index: None };
                    let on = match &fl.cond {
                        Some(c) => self.m.truth(env, c).ok()?,
                        None => true,
                    };
                    let v = if on { self.field(env, p, fl)? } else { Val::None };
                    rec.push(v);
                }
            }
            Kind::Union { fields } => {
                let k = self.pick(fields.len());
                let env = Env { pkg: &p.name, decl: d, params, fields: &[], index: None };
                let v = self.field(env, p, &fields[k])?;
                rec.push(Val::Int(k as i128));
                for j in 0..fields.len() {
                    rec.push(if j == k { v.clone() } else { Val::None });
                }
            }
            Kind::Choice { .. } => {
                let n = d.members().len();
                let none = vec![Val::None; n];
                let env = Env { pkg: &p.name, decl: d, params, fields: &none, index: None };
                let on = self.m.active(env, params).ok()?;
                let mut fs = vec![Val::None; n];
                if let Some(k) = on.first() {
                    fs[*k] = self.field(env, p, d.members()[*k])?;
                }
                rec.extend(fs);
            }
            Kind::Enum { .. } | Kind::Bitmask { .. } => {
                let env = Env { pkg: &p.name, decl: d, params: &[], fields: &[], index: None };
                return self.ty(env, None, &Res::D(p, d, vec![]));
            }
            _ => return None,
        }
        Some(Val::Rec(rec))
    }
    fn field(&mut self, env: Env, p: &'a Pkg, fl: &Field) -> Option<Val> {
        if fl.opt && self.pick(2) == 1 {
            return Some(Val::None);
        }
        let ty = self.m.resolve(&p.name, &fl.ty);
        if !fl.is_arr() {
            return self.ty(env, Some(fl), &ty);
        }
        let n = match &fl.ar {
            // counts that do not fit are values, too
            Ar::Fixed(_) if fl.lens.is_some() => {
                let ls = fl.lens.clone().unwrap();
                ls[self.pick(ls.len())]
            }
            Ar::Fixed(e) => {
                let n = self.m.num(env, e).ok()?;
                if !(0..=70000).contains(&n) {
                    return None;
                }
                n as usize
            }
            _ => {
                let ls = fl.lens.clone().unwrap_or(self.lv.lens.clone());
                // longest first, so that the simplest value is not an empty array
                let mut o = ls.clone();
                if fl.lens.is_none() && o.len() > 1 && o[0] == 0 {
                    o.swap(0, 1);
                }
                o[self.pick(o.len())]
            }
        };
        let mut xs = vec![];
        let outer = self.run;
        for i in 0..n {
            if n > LONG {
                self.run = Some(i);
            }
            xs.push(self.ty(Env { index: Some(i), ..env }, Some(fl), &ty)?);
        }
        self.run = outer;
        Some(Val::Arr(xs))
    }
}

/// Every value of a root within its bounds (several parameter sets included).
pub fn values(m: &Model, root: &Root, cap: usize) -> (Vec<Val>, u64) {
    let (p, d) = m.decl(&root.ty);
    let mut out = vec![];
    let mut edges = 0;
    let sets = if root.params.is_empty() { vec![vec![]] } else { root.params.clone() };
    for ps in &sets {
        let st = mccore::explore(|c| {
            let mut g = Gen { m, c, lv: Lv { alpha: root.alpha, lens: root.lens.clone(), dev: root.dev }, run: None };
            if let Some(v) = g.decl(p, d, ps) {
                out.push(v);
            }
            assert!(out.len() <= cap, "MACHINERY: more than {cap} values of {}", root.ty);
        });
        edges += st.transitions;
    }
    (out, edges)
}
