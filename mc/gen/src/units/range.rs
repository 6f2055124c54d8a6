//! C11: values the declared type cannot represent, in every place of a schema that holds them.
use super::*;

fn carrier(k: Scalar) -> (i128, i128) {
    let (lo, hi) = k.range();
    let w = match k {
        Scalar::U(n) | Scalar::I(n) => n as u32,
        Scalar::VarU16 | Scalar::Var16 => 16,
        Scalar::VarU32 | Scalar::Var32 | Scalar::VarSize => 32,
        _ => 64,
    };
    let w = w.next_power_of_two().max(8);
    if lo < 0 { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { let _ = hi; (0, (1i128 << w) - 1) }
}
/// Values around both ends of the range, as far as the Rust type holds them.
fn around(k: Scalar) -> Vec<i128> {
    let (lo, hi) = k.range();
    let (cl, ch) = carrier(k);
    let mut v = vec![];
    for x in [1.min(hi), hi, hi + 1, hi + 2, 2 * hi + 1, 2 * hi + 2, ch, lo, lo - 1, 2 * lo - 1, 2 * lo, cl, 0] {
        if x >= cl && x <= ch && !v.contains(&x) {
            v.push(x);
        }
    }
    v
}
fn tight() -> Vec<Scalar> {
    let mut v = vec![];
    for w in [1u8, 2, 3, 5, 7, 9, 12, 15, 17, 24, 31, 33, 48, 63] {
        v.push(Scalar::U(w));
        if w > 1 {
            v.push(Scalar::I(w));
        }
    }
    v.extend([Scalar::VarU16, Scalar::VarU32, Scalar::VarU64, Scalar::VarSize, Scalar::Var16, Scalar::Var32, Scalar::Var64]);
    v
}

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    // every type in every form of field that is not packed
    let forms = |k: Scalar, v: &[i128]| -> Vec<(&'static str, Decl)> {
        let e = || f("tail", u(3)).vals(&[5]);
        let x = |n: &str| f(n, s(k)).vals(v);
        vec![
            ("Plain", st("", vec![f("lead", u(5)).vals(&[9]), x("a"), e()])),
            ("Opt", st("", vec![x("a").opt(), e()])),
            ("Cond", st("", vec![f("c", u(1)).vals(&[1, 0]), x("a").cond(bin("==", id("c"), n(1))), e()])),
            ("Arr", st("", vec![x("a").arr().lens(&[0, 1, 2]), e()])),
            ("Fix", st("", vec![x("a").fixed(n(2)), e()])),
            ("Al", st("", vec![f("lead", u(3)).vals(&[1]), x("a").align(16), e()])),
            ("Uni", un("", vec![f("b", u(4)).vals(&[3]), x("a")])),
            ("Unis", un("", vec![f("b", u(4)).vals(&[3]), x("a").arr().lens(&[1, 2])])),
        ]
    };
    for (k, kind) in tight().into_iter().enumerate() {
        let name = format!("rg{}", letters(k));
        let v = around(kind);
        let mut ds = vec![];
        let mut rs = vec![];
        for (nm, d) in forms(kind, &v) {
            let mut d = d;
            d.name = nm.into();
            rs.push(root(&format!("{name}.{nm}")));
            ds.push(d);
        }
        ds.push(ch("Cho", vec![("c", u(8))], id("c"), vec![(vec![n(0)], Some(f("a", s(kind)).vals(&v))), (vec![n(1)], Some(f("b", s(kind)).vals(&v).arr().lens(&[1])))], Some(Some(f("d", s(kind)).vals(&v)))));
        rs.push(root(&format!("{name}.Cho")).with((0..3).map(|x| vec![Val::Int(x)]).collect()));
        // inside nested types, behind a subtype, as a parameter's holder
        ds.push(sub("Alias", s(kind)));
        ds.push(st("Inner", vec![f("a", r("Alias")).vals(&v)]));
        ds.push(st("Nest", vec![f("lead", u(1)).vals(&[1]), f("i", r("Inner")), f("iz", r("Inner")).arr().lens(&[0, 1]), f("p", r("Plain")).opt()]));
        rs.push(root(&format!("{name}.Nest")).dev(2));
        o.push(unit(&name, "values around the range of a type", ds, rs));
    }
    // packed arrays: whatever is accepted must come back
    for (k, kind) in tight().into_iter().enumerate().filter(|x| thorough || x.0 % 3 == 0 || matches!(x.1, Scalar::VarU16 | Scalar::Var64 | Scalar::VarSize)) {
        let name = format!("rp{}", letters(k));
        let v = around(kind);
        let ds = vec![
            st("Item", vec![f("a", s(kind)).vals(&v), f("b", u(4)).vals(&[3])]),
            st("Pk", vec![f("xs", s(kind)).vals(&v).arr().packed().lens(&[0, 1, 2]), f("tail", u(3)).vals(&[5])]),
            st("Pf", vec![f("xs", s(kind)).vals(&v).fixed(n(2)).packed(), f("tail", u(3)).vals(&[5])]),
            st("Pc", vec![f("xs", r("Item")).arr().packed().lens(&[0, 1, 2]), f("tail", u(3)).vals(&[5])]),
        ];
        o.push(unit(&name, "values around the range of a type in packed arrays", ds, vec![root(&format!("{name}.Pk")), root(&format!("{name}.Pf")), root(&format!("{name}.Pc"))]));
    }
    // widths that depend on the value of another field
    for (name, dynt, lo) in [("rgdynu", Ty::DynU(Box::new(id("w"))), 0i128), ("rgdyni", Ty::DynI(Box::new(id("w"))), -1)] {
        let vs: Vec<i128> = if lo == 0 { vec![0, 1, 2, 7, 8, 31, 32, 255, 256, (1 << 33) - 1, 1 << 33] } else { vec![0, -1, -2, 3, 4, -4, -5, 15, 16, -16, -17, 1 << 32, -(1 << 32) - 1] };
        let ds = vec![
            st("Abc", vec![f("w", u(8)).vals(&[1, 3, 5, 33]), f("a", dynt.clone()).vals(&vs), f("tail", u(3)).vals(&[5])]),
            st("Arr", vec![f("w", u(8)).vals(&[1, 3, 5, 33]), f("a", dynt.clone()).vals(&vs).arr().lens(&[1, 2]), f("o", dynt.clone()).vals(&vs[..3]).opt()]),
        ];
        o.push(unit(name, "values around a computed width", ds, vec![root(&format!("{name}.Abc")), root(&format!("{name}.Arr"))]));
    }
    // fixed and computed lengths
    let lens: &[usize] = &[0, 1, 2, 3, 4, 5];
    let leaf = || st("Leaf", vec![f("k", u(3)).vals(&[5])]);
    let elems: Vec<(&str, Ty)> = vec![("U", u(8)), ("B", u(3)), ("V", s(Scalar::VarU)), ("S", s(Scalar::Str)), ("O", s(Scalar::Bool)), ("F", s(Scalar::F32)), ("Y", s(Scalar::Bytes)), ("X", s(Scalar::Extern)), ("L", r("Leaf")), ("E", r("Kind")), ("M", r("Perm"))];
    let mut ds = vec![leaf(), en("Kind", u(3), &[("NONE", None, 0), ("FULL", None, 1)]), bm("Perm", u(3), &[("READ", None, 1)])];
    let mut rs = vec![];
    for (nm, t) in &elems {
        for packed in [false, true] {
            let pk = |x: Field| if packed { x.packed() } else { x };
            let a = format!("{}{nm}", if packed { "Pk" } else { "Fx" });
            ds.push(st(&a, vec![pk(f("xs", t.clone()).fixed(n(3)).lens(lens)), f("tail", u(3)).vals(&[5])]));
            ds.push(st(&format!("{a}c"), vec![f("n", u(3)).vals(&[0, 2, 5]), pk(f("xs", t.clone()).fixed(bin("+", id("n"), n(0))).lens(lens))]));
            ds.push(st(&format!("{a}o"), vec![pk(f("xs", t.clone()).fixed(n(2)).lens(lens)).opt(), f("tail", u(3)).vals(&[5])]));
            for q in ["", "c", "o"] {
                rs.push(root(&format!("rglen.{a}{q}")).alpha(1));
            }
        }
    }
    ds.push(un("Uni", vec![f("a", u(4)), f("xs", u(4)).fixed(n(2)).lens(lens)]));
    ds.push(ch("Cho", vec![("c", u(8))], id("c"), vec![(vec![n(0)], Some(f("a", u(8)).fixed(id("c")).lens(lens))), (vec![n(2)], Some(f("b", r("Leaf")).fixed(id("c")).lens(lens)))], None));
    ds.push(st("Par", vec![f("xs", u(4)).fixed(id("k")).lens(lens), f("z", u(2)).vals(&[1])]).params(vec![("k", u(8))]));
    rs.push(root("rglen.Uni").alpha(1));
    rs.push(root("rglen.Cho").alpha(1).with(vec![vec![Val::Int(0)], vec![Val::Int(2)]]));
    rs.push(root("rglen.Par").alpha(1).with((0..4).map(|x| vec![Val::Int(x)]).collect()));
    o.push(unit("rglen", "element counts of fixed-size arrays", ds, rs));
    // flags outside the bitmask's type
    let mut ds = vec![];
    let mut fs = vec![];
    for (k, w) in [1u8, 3, 7, 9, 15, 17, 31, 33, 63].into_iter().enumerate() {
        let nm = format!("Mask{}", letters(k));
        ds.push(bm(&nm, u(w), &[("READ", Some(n(1)), 1)]));
        fs.push(f(&vn(k), r(&nm)).vals(&around(Scalar::U(w))));
        ds.push(st(&format!("Abc{}", letters(k)), vec![f("a", r(&nm)).vals(&around(Scalar::U(w))), f("b", r(&nm)).vals(&[0, 1]).arr().lens(&[1]), f("tail", u(3)).vals(&[5])]));
    }
    let rs = (0..9).map(|k| root(&format!("rgmask.Abc{}", letters(k)))).collect();
    ds.push(st("All", fs));
    o.push(unit("rgmask", "flags outside the type of a bitmask", ds, rs));
    o
}
