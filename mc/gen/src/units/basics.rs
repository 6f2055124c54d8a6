//! C01, C02, C03, C05, C06, C08, C10: the runtime's types as the compiler uses them.
use super::*;
use mccore::values::{boundaries, few};

/// One kind in every place a field can be.
fn places(pre: &str, what: &str, ks: &[Scalar], wide: bool, thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let fv = |name: &str, k: Scalar, all: bool| {
        let x = f(name, s(k));
        if !k.is_int() {
            return x;
        }
        let (lo, hi) = k.range();
        let v = if all && wide { boundaries(lo, hi, if thorough { 2 } else { 1 }) } else { few(lo, hi) };
        x.vals(&v)
    };
    let fs = |g: &dyn Fn(usize, Scalar) -> Field| -> Vec<Field> {
        let mut v = vec![f("pre", u(3)).vals(&[5])];
        v.extend(ks.iter().enumerate().map(|(i, k)| g(i, *k)));
        v.push(f("post", u(2)).vals(&[2]));
        v
    };
    let mut one = |nm: &str, w: &str, ds: Vec<Decl>, dev: usize, lens: &[usize]| {
        let name = format!("{pre}{nm}");
        o.push(unit(&name, &format!("{what}: {w}"), ds, vec![root(&format!("{name}.Abc")).alpha(6).dev(dev).lens(lens)]));
    };
    one("fld", "fields", vec![st("Abc", fs(&|i, k| fv(&vn(i), k, true)))], 1, &[1]);
    one("opt", "optional fields", vec![st("Abc", fs(&|i, k| fv(&vn(i), k, false).opt()))], 1, &[1]);
    let mut c = fs(&|i, k| fv(&vn(i), k, false).cond(bin("==", bin("%", id("sel"), n(2)), n((i % 2) as i128))));
    c.insert(0, f("sel", u(4)).vals(&[1, 0, 6, 7]));
    one("cnd", "conditional fields", vec![st("Abc", c)], 2, &[1]);
    one("uni", "members of a union", vec![un("Pick", ks.iter().enumerate().map(|(i, k)| fv(&vn(i), *k, false)).collect()), st("Abc", vec![f("pre", u(3)).vals(&[5]), f("pick", r("Pick")), f("picks", r("Pick")).arr(), f("post", u(2)).vals(&[2])])], 2, &[1, 0, 2]);
    let cases = ks.iter().enumerate().map(|(i, k)| (vec![n(i as i128)], Some(fv(&vn(i), *k, false)))).collect();
    let sels: Vec<i128> = (0..ks.len() as i128).collect();
    one("cho", "members of a choice", vec![ch("Pick", vec![("sel", u(8))], id("sel"), cases, None), st("Abc", vec![f("sel", u(8)).vals(&sels), f("pick", ra("Pick", vec![id("sel")])), f("post", u(2)).vals(&[2])])], 2, &[1]);
    one("arr", "arrays", vec![st("Abc", fs(&|i, k| fv(&vn(i), k, false).arr()))], 2, &[1, 0, 2, 3]);
    one("fix", "fixed-size arrays", vec![st("Abc", fs(&|i, k| fv(&vn(i), k, false).fixed(n(2))))], 2, &[2]);
    one("pck", "packed arrays", vec![st("Abc", fs(&|i, k| fv(&vn(i), k, false).arr().packed()))], 2, &[2, 0, 1, 3]);
    one("oar", "optional arrays", vec![st("Abc", fs(&|i, k| fv(&vn(i), k, false).arr().opt()))], 2, &[1, 0, 2]);
    let mut ds: Vec<Decl> = ks.iter().enumerate().map(|(i, k)| sub(&format!("Sub{}", letters(i).to_uppercase()), s(*k))).collect();
    ds.push(st(
        "Abc",
        fs(&|i, k| {
            let x = f(&vn(i), r(&format!("Sub{}", letters(i).to_uppercase())));
            if k.is_int() {
                x.vals(&few(k.range().0, k.range().1))
            } else {
                x
            }
        }),
    ));
    one("sub", "subtypes", ds, 1, &[1]);
    // as element of a packed structure
    one("elm", "fields of packed structures", vec![st("Elem", ks.iter().enumerate().map(|(i, k)| fv(&vn(i), *k, false)).collect()), st("Abc", vec![f("pre", u(3)).vals(&[5]), f("xs", r("Elem")).arr().packed(), f("post", u(2)).vals(&[2])])], 2, &[2, 0, 1, 3]);
    o
}
pub const VARS: [Scalar; 9] = [Scalar::Var16, Scalar::Var32, Scalar::Var64, Scalar::Var, Scalar::VarU16, Scalar::VarU32, Scalar::VarU64, Scalar::VarU, Scalar::VarSize];
pub fn vars(thorough: bool) -> Vec<Unit> {
    let mut o = places("vr", "variable-length integers", &VARS, true, thorough);
    // as base types
    let mut ds = vec![];
    let mut fs = vec![f("pre", u(3)).vals(&[5])];
    for (i, k) in VARS.iter().enumerate() {
        let (lo, hi) = k.range();
        let (lo, hi) = (lo.max(i64::MIN as i128), hi.min(i64::MAX as i128));
        let name = format!("En{}", letters(i).to_uppercase());
        let lit = |v: i128| if v < 0 { unary("-", n(-v)) } else { n(v) };
        let mut items = vec![("ZERO", None, 0), ("MID", Some(lit(hi / 3)), hi / 3), ("TOP", Some(lit(hi)), hi)];
        if lo < 0 {
            // the smallest 64-bit value has no literal of its own
            let low = lo + 1;
            items.push(("LOW", Some(lit(low)), low));
        }
        ds.push(en(&name, s(*k), &items));
        fs.push(f(&vn(2 * i), r(&name)));
        if lo == 0 {
            let name = format!("Bm{}", letters(i).to_uppercase());
            let top = (0..62).rev().map(|b| 1i128 << b).find(|x| *x <= hi).unwrap();
            ds.push(bm(&name, s(*k), &[("ONE", None, 1), ("TWO", None, 2), ("TOP", Some(n(top)), top)]));
            fs.push(f(&vn(2 * i + 1), r(&name)));
        }
    }
    fs.push(f("post", u(2)).vals(&[2]));
    ds.push(st("Abc", fs));
    o.push(unit("vrbase", "variable-length integers below enums and bitmasks", ds, vec![root("vrbase.Abc").dev(1)]));
    o
}
pub fn fixed(thorough: bool) -> Vec<Unit> {
    let mut ks: Vec<Scalar> = [8u8, 16, 32, 64].iter().flat_map(|w| [Scalar::U(*w), Scalar::I(*w)]).collect();
    ks.extend([Scalar::Bool, Scalar::F16, Scalar::F32, Scalar::F64]);
    let mut o = places("fx", "fixed-size numbers", &ks, true, thorough);
    let bits: Vec<Scalar> = [1u8, 2, 7, 9, 15, 17, 31, 33, 40, 63].iter().flat_map(|w| if *w == 1 { vec![Scalar::U(1)] } else { vec![Scalar::U(*w), Scalar::I(*w)] }).collect();
    o.extend(places("bf", "bit fields", &bits, false, thorough));
    o.extend(from(super::wire::units(thorough), &["ubits", "ibits", "dynbits", "dynexpr", "dynconst", "dynwide"]));
    o
}
pub fn texts(thorough: bool) -> Vec<Unit> {
    let mut o = places("tx", "strings and buffers", &[Scalar::Str, Scalar::Bytes, Scalar::Extern], false, thorough);
    o.extend(from(super::wire::units(thorough), &["blobs"]));
    o
}
pub fn packs(thorough: bool) -> Vec<Unit> {
    let mut o = from(super::wire::units(thorough), &["packu", "packi", "packv", "packs", "packq", "packj", "packb", "packedarr", "packedfix", "dynexpr"]);
    o.extend(from(places("vr", "variable-length integers", &VARS, true, thorough), &["vrpck"]));
    o.extend(from(fixed(thorough), &["fxpck", "bfpck"]));
    // places a packed array of integers can be
    let arr = |nm: &str, k: Scalar| {
        let (lo, hi) = k.range();
        f(nm, s(k)).arr().packed().vals(&[lo, hi, (lo + hi) / 2, (lo + hi) / 2 + 1])
    };
    let ks = [Scalar::U(8), Scalar::I(32), Scalar::U(64), Scalar::Var, Scalar::I(13)];
    let ds = vec![
        sub("Num", u(11)),
        un("Either", ks.iter().enumerate().map(|(i, k)| arr(&vn(i), *k)).collect()),
        ch("Pick", vec![("sel", u(8))], id("sel"), ks.iter().enumerate().map(|(i, k)| (vec![n(i as i128)], Some(arr(&vn(i), *k)))).collect(), None),
        st(
            "Abc",
            vec![
                f("sel", u(8)).vals(&[0, 1, 2, 3, 4]),
                f("pick", ra("Pick", vec![id("sel")])),
                f("either", r("Either")),
                arr("maybe", Scalar::I(64)).opt(),
                arr("cond", Scalar::U(16)).cond(bin(">", id("sel"), n(2))),
                f("subs", r("Num")).arr().packed().vals(&[3, 1000, 4]),
                f("fixs", i(16)).fixed(bin("+", id("sel"), n(1))).packed().vals(&[3, -1000, 4]),
                f("tail", u(1)),
            ],
        ),
    ];
    o.push(unit("pkplaces", "packed arrays in every place", ds, vec![root("pkplaces.Abc").dev(2).lens(&[2, 0, 1, 3])]));
    o
}
/// Lengths of every origin.
pub fn lengths(thorough: bool) -> Vec<Unit> {
    let w = super::wire::units(thorough);
    let mut o = from(w, &["plainarr", "packedarr", "exprlen", "nested", "recurse", "blobs", "builtin"]);
    o.extend(from(super::packed::units(thorough), &["pkkinds", "pknest", "pkinner", "pkinnerp", "pkinners", "pkdeep", "pkoptn", "pkenums", "pkunions", "pkchoice", "pkchoiced", "pkseveral", "pkrec"]));
    o.extend(super::params::units(thorough));
    o.extend(from(super::opt::units(thorough), &["optarr", "optnest"]));
    let ds = vec![
        st("Leaf", vec![f("a", u(8)), f("b", s(Scalar::Str))]),
        st("Par", vec![f("v", u(16)), f("xs", u(8)).fixed(id("k"))]).params(vec![("k", u(32))]),
        st(
            "Abc",
            vec![
                f("num", u(32)).vals(&[2, 0]),
                f("arr", u(8)).fixed(id("num")),
                f("big", s(Scalar::VarU)).vals(&[1, 3]),
                f("leaves", r("Leaf")).fixed(id("big")),
                f("cnt", s(Scalar::VarSize)).vals(&[2, 1]),
                f("words", s(Scalar::Str)).fixed(id("cnt")),
                f("pks", r("Leaf")).fixed(id("cnt")).packed(),
                f("neg", i(32)).vals(&[1, 2]),
                f("flts", s(Scalar::F64)).fixed(id("neg")),
                f("pars", ra("Par", vec![id("cnt")])).fixed(id("num")),
                f("ppars", ra("Par", vec![id("neg")])).arr().packed(),
            ],
        ),
    ];
    o.push(unit("lenfields", "array lengths that are fields", ds, vec![root("lenfields.Abc").dev(2)]));
    o
}
/// Whole documents for the entry points.
pub fn documents(thorough: bool) -> Vec<Unit> {
    let mut o = from(super::wire::units(thorough), &["builtin", "plainarr", "packedarr", "nested", "recurse", "blobs", "implicitb", "implicitw"]);
    o.extend(from(super::packed::units(thorough), &["pkkinds", "pkunions", "pkchoiced"]));
    o.extend(from(texts(thorough), &["txuni", "txopt", "txarr"]));
    o.extend(from(super::params::units(thorough), &["parstruct"]));
    o
}
fn from(us: Vec<Unit>, names: &[&str]) -> Vec<Unit> {
    us.into_iter().filter(|u| names.contains(&u.name.as_str())).collect()
}
