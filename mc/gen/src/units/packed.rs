//! C23: packed arrays of compound types.
use super::*;

/// Array of the element declared last, and of the same elements in a wrapping structure.
fn arr(name: &str, what: &str, mut ds: Vec<Decl>, elem: Ty, lens: &[usize], alpha: usize, dev: usize) -> Unit {
    ds.push(st("Abc", vec![f("head", u(3)).vals(&[5]), f("xs", elem).arr().packed(), f("tail", u(3)).vals(&[5])]));
    unit(name, what, ds, vec![root(&format!("{name}.Abc")).alpha(alpha).lens(lens).dev(dev)])
}

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let d = |q: usize, t: usize| if thorough { t } else { q };
    let l3: &[usize] = &[1, 0, 2, 3];
    let l4: &[usize] = if thorough { &[2, 0, 1, 3, 4, 5] } else { &[2, 0, 1, 3, 4] };
    // one leaf of every packable kind
    for (nm, k) in [("pkub", Scalar::U(8)), ("pkuq", Scalar::U(64)), ("pkis", Scalar::I(16)), ("pkiq", Scalar::I(64)), ("pkbt", Scalar::U(5)), ("pkit", Scalar::I(37)), ("pkvu", Scalar::VarU), ("pkvi", Scalar::Var), ("pkvs", Scalar::VarSize), ("pkws", Scalar::Var16)] {
        o.push(arr(nm, "packed structures of one integer", vec![st("Elem", vec![f("v", s(k))])], r("Elem"), l4, d(4, 6), d(4, 5)));
    }
    // all kinds at once
    let fs = kinds().iter().enumerate().map(|(i, k)| f(&vn(i), s(*k))).collect();
    o.push(arr("pkkinds", "packed structures of every builtin type", vec![st("Elem", fs)], r("Elem"), l3, d(4, 6), 2));
    let fs = (1..=64).step_by(3).map(|w| f(&vn(w), if w % 2 == 0 { u(w as u8) } else { i(w as u8) })).collect();
    o.push(arr("pkbits", "packed structures of bit fields", vec![st("Elem", fs)], r("Elem"), l3, d(4, 6), 2));
    // two leaves with different deltas
    o.push(arr("pktwo", "packed structures of two integers", vec![st("Elem", vec![f("a", u(8)).vals(&[3, 4, 250]), f("b", i(32)).vals(&[-1, 70000, 5])])], r("Elem"), l3, 3, d(6, 6)));
    // nesting
    let leaf = || st("Leaf", vec![f("a", u(8)).vals(&[3, 4, 250]), f("s", s(Scalar::Str)), f("b", i(16)).vals(&[-1, 300])]);
    o.push(arr("pknest", "structures inside packed structures", vec![leaf(), st("Mid", vec![f("l", r("Leaf")), f("m", u(16)).vals(&[1000, 1001])]), st("Elem", vec![f("x", r("Mid")), f("y", r("Leaf")), f("z", u(4)).vals(&[1, 9])])], r("Elem"), l3, 2, d(4, 5)));
    o.push(arr("pkempty", "empty structures inside packed structures", vec![st("Empty", vec![]), st("Elem", vec![f("e", r("Empty")), f("v", u(8)).vals(&[3, 4]), f("g", r("Empty"))])], r("Elem"), l3, 2, 4));
    o.push(arr("pkempties", "packed empty structures", vec![st("Elem", vec![])], r("Elem"), l3, 2, 4));
    // inner arrays
    o.push(arr("pkinner", "arrays inside packed structures", vec![st("Elem", vec![f("v", u(8)).vals(&[3, 250]), f("xs", u(16)).arr().vals(&[1, 2, 900]), f("w", i(8)).vals(&[-1, 1])])], r("Elem"), &[1, 0, 2], 2, d(5, 7)));
    o.push(arr("pkinnerp", "packed arrays inside packed structures", vec![st("Elem", vec![f("v", u(8)).vals(&[3, 250]), f("xs", u(16)).arr().packed().vals(&[1, 2, 900]), f("w", i(8)).vals(&[-1, 1])])], r("Elem"), &[1, 0, 2], 2, d(5, 7)));
    o.push(arr("pkinners", "arrays of structures inside packed structures", vec![leaf(), st("Elem", vec![f("v", u(8)).vals(&[3, 250]), f("xs", r("Leaf")).arr(), f("w", i(8)).vals(&[-1, 1])])], r("Elem"), &[1, 0, 2], 2, d(4, 6)));
    o.push(arr("pkinnerf", "fixed arrays inside packed structures", vec![st("Elem", vec![f("k", u(2)).vals(&[2, 1]), f("xs", u(16)).fixed(id("k")).vals(&[1, 900]), f("ys", s(Scalar::Bool)).fixed(n(2)), f("zs", s(Scalar::Str)).arr()])], r("Elem"), &[1, 0, 2], 2, d(4, 5)));
    o.push(arr("pkdeep", "arrays of structures with arrays in packed structures", vec![st("Leaf", vec![f("a", u(8)).vals(&[3, 4]), f("xs", u(5)).arr().vals(&[1, 30])]), st("Elem", vec![f("v", u(8)).vals(&[3, 250]), f("ls", r("Leaf")).arr()])], r("Elem"), &[1, 0, 2], 2, d(5, 6)));
    // optionals and conditions
    o.push(arr("pkopt", "optional fields of packed structures", vec![st("Elem", vec![f("a", u(8)).opt().vals(&[3, 4, 250]), f("b", i(16)).opt().vals(&[-1, 300])])], r("Elem"), l3, 3, d(5, 6)));
    o.push(arr("pkoptn", "optional structures of packed structures", vec![leaf(), st("Elem", vec![f("a", r("Leaf")).opt(), f("b", u(8)).vals(&[1, 2]), f("c", r("Leaf")).arr().opt()])], r("Elem"), &[1, 0, 2, 3], 1, d(5, 6)));
    o.push(arr("pkcond", "conditional fields of packed structures", vec![st("Elem", vec![f("k", u(2)).vals(&[0, 1, 2]), f("a", u(8)).cond(bin("==", id("k"), n(1))).vals(&[3, 250]), f("b", u(8)).cond(bin("<", id("k"), n(2))).vals(&[7, 9])])], r("Elem"), l3, 3, d(6, 7)));
    o.push(arr("pkoptb", "optional plain fields of packed structures", vec![st("Elem", vec![f("a", s(Scalar::Str)).opt(), f("b", s(Scalar::Bool)).opt(), f("c", s(Scalar::F32)).opt(), f("d", u(8)).vals(&[1, 4])])], r("Elem"), &[1, 0, 2], 2, d(4, 5)));
    // enums and bitmasks
    let color = |k: Scalar| en("Color", s(k), &[("RED", None, 0), ("BLUE", None, 1), ("DARK", Some(n(6)), 6), ("LAST", Some(n(100)), 100)]);
    let perm = |k: Scalar| bm("Perm", s(k), &[("READ", None, 1), ("WRITE", None, 2), ("EXEC", Some(n(64)), 64)]);
    for (nm, k) in [("pkenum", Scalar::U(8)), ("pkenumi", Scalar::I(16)), ("pkenumv", Scalar::VarU), ("pkenumb", Scalar::U(11))] {
        o.push(arr(nm, "packed enums", vec![color(k)], r("Color"), l4, 4, d(4, 5)));
    }
    for (nm, k) in [("pkmask", Scalar::U(8)), ("pkmaskv", Scalar::VarU32), ("pkmaskb", Scalar::U(11))] {
        o.push(arr(nm, "packed bitmasks", vec![perm(k)], r("Perm"), l4, 4, d(4, 5)));
    }
    o.push(arr("pkenums", "enums and bitmasks of packed structures", vec![color(Scalar::U(8)), perm(Scalar::U(16)), st("Elem", vec![f("c", r("Color")), f("m", r("Perm")), f("o", r("Color")).opt(), f("q", r("Perm")).opt(), f("xs", r("Color")).arr(), f("v", u(8)).vals(&[3, 4])])], r("Elem"), &[1, 0, 2], 3, d(4, 5)));
    // choices and unions
    o.push(arr("pkunion", "packed unions", vec![un("Either", vec![f("a", u(8)).vals(&[3, 4, 250]), f("b", s(Scalar::Str)), f("c", i(16)).vals(&[-1, 300])])], r("Either"), l3, 2, d(5, 7)));
    o.push(arr("pkunions", "unions of packed structures", vec![leaf(), un("Either", vec![f("a", r("Leaf")), f("b", u(16)).arr().vals(&[1, 900]), f("c", r("Leaf")).arr(), f("d", u(8)).vals(&[1, 2])]), st("Elem", vec![f("u", r("Either")), f("v", u(8)).vals(&[3, 4])])], r("Elem"), &[1, 0, 2, 3], 1, d(4, 6)));
    let pick = || ch("Pick", vec![("k", u(8))], id("k"), vec![(vec![n(0)], Some(f("a", u(8)).vals(&[3, 4, 250]))), (vec![n(1), n(2)], Some(f("b", i(16)).vals(&[-1, 300]))), (vec![n(3)], None)], Some(Some(f("d", u(5)).vals(&[1, 2]))));
    o.push(arr("pkchoice", "choices of packed structures", vec![pick(), st("Elem", vec![f("k", u(8)).vals(&[0, 1, 3, 9]), f("p", ra("Pick", vec![id("k")])), f("v", u(8)).vals(&[3, 4])])], r("Elem"), l3, 3, d(5, 6)));
    o.push(arr("pkchoicep", "packed choices selected by the index", vec![pick()], ra("Pick", vec![Ex::Index]), &[1, 0, 2, 3, 4, 5], 3, d(5, 6)));
    o.push(arr("pkchoiced", "choices over compounds in packed structures", vec![
        leaf(),
        ch("Pick", vec![("k", u(8))], id("k"), vec![(vec![n(0)], Some(f("a", r("Leaf")))), (vec![n(1)], Some(f("b", r("Leaf")).arr())), (vec![n(2)], Some(f("c", u(16)).arr().packed().vals(&[1, 900])))], Some(Some(f("d", r("Leaf"))))),
        st("Elem", vec![f("k", u(8)).vals(&[0, 1, 2, 3]), f("p", ra("Pick", vec![id("k")]))]),
    ], r("Elem"), &[1, 0, 2, 3], 1, d(5, 6)));
    // subtypes
    o.push(arr("pksub", "packed subtypes", vec![sub("Num", u(11)), leaf(), sub("Alias", r("Leaf")), st("Elem", vec![f("a", r("Num")).vals(&[3, 1000]), f("l", r("Alias")), f("xs", r("Num")).arr().vals(&[1, 2])])], r("Elem"), &[1, 0, 2], 2, d(4, 5)));
    o.push(arr("pksubs", "a packed array of a subtype of a structure", vec![leaf(), sub("Alias", r("Leaf"))], r("Alias"), l3, 3, d(5, 6)));
    // dynamic bit fields and parameters
    o.push(arr("pkdyn", "bit fields sized by other fields of packed structures", vec![st("Elem", vec![f("w", u(6)).vals(&[9]), f("v", Ty::DynU(Box::new(id("w")))).vals(&[3, 4, 300]), f("i", Ty::DynI(Box::new(bin("+", id("w"), n(1))))).vals(&[-3, 4])])], r("Elem"), l3, 3, d(5, 6)));
    // fixed, optional and several arrays
    let t = vec![
        leaf(),
        st("Abc", vec![f("k", u(2)).vals(&[2, 0, 3]), f("a", r("Leaf")).fixed(id("k")).packed(), f("b", r("Leaf")).arr().packed().opt(), f("c", r("Leaf")).arr().packed(), f("d", u(8)).arr().packed().vals(&[5, 6]), f("tail", u(1))]),
    ];
    o.push(unit("pkseveral", "several packed arrays in one structure", t, vec![root("pkseveral.Abc").alpha(2).dev(d(4, 5))]));
    // recursion
    o.push(arr("pkrec", "packed recursive structures", vec![st("Node", vec![f("v", u(8)).vals(&[3, 4]), f("kids", r("Node")).arr().lens(&[0, 1, 2])])], r("Node"), &[1, 0, 2], 2, d(4, 5)));
    o
}
