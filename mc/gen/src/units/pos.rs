//! C15: alignments and offsets.
use super::*;

fn off(k: &str) -> Field {
    f(k, u(32)).vals(&[0, 0xdeadbeef])
}
pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    // every alignment; the start position supplies every preceding length
    let ds: Vec<Decl> = (1..=64u32).map(|a| st(&format!("Al{}", letters(a as usize)), vec![f("pre", u(3)).vals(&[5]), f("x", u(5)).align(a).vals(&[17]), f("post", u(2)).vals(&[2])])).collect();
    let rs = ds.iter().map(|d| root(&format!("alignall.{}", d.name)).spread()).collect();
    o.push(unit("alignall", "every alignment up to 64 bits", ds, rs));
    // every kind of field aligned
    for a in [8u32, 13] {
        let nm = if a == 8 { "alignkinds" } else { "alignkindo" };
        let mut fs = vec![];
        for (i, k) in kinds().iter().enumerate() {
            fs.push(f(&format!("p{}", letters(i)), u(1 + (i % 7) as u8)).vals(&[1]));
            fs.push(f(&vn(i), s(*k)).align(a));
        }
        o.push(unit(nm, "aligned fields of every builtin type", vec![st("Abc", fs)], vec![root(&format!("{nm}.Abc")).alpha(2).dev(1)]));
    }
    let leaf = || st("Leaf", vec![f("xa", u(5)).vals(&[9, 31]), f("xb", s(Scalar::Str))]);
    let d = vec![
        leaf(),
        en("Color", u(3), &[("RED", None, 0), ("BLUE", None, 1)]),
        bm("Perm", u(4), &[("READ", None, 1), ("WRITE", None, 2)]),
        un("Either", vec![f("ua", u(7)), f("ub", s(Scalar::Str))]),
        ch("Pick", vec![("sel", u(2))], id("sel"), vec![(vec![n(0)], Some(f("ca", u(9)))), (vec![n(1)], Some(f("cb", s(Scalar::Str))))], None),
        sub("Num", u(11)),
        st("Empty", vec![]),
        st(
            "Abc",
            vec![
                f("sel", u(2)).vals(&[1, 0]),
                f("a", r("Leaf")).align(8),
                f("b", r("Color")).align(16),
                f("c", r("Perm")).align(3),
                f("d", r("Either")).align(5),
                f("e", ra("Pick", vec![id("sel")])).align(8),
                f("g", r("Num")).align(32),
                f("h", r("Empty")).align(8),
                f("i", r("Leaf")).arr().align(8),
                f("j", u(5)).arr().align(64),
                f("k", u(16)).arr().packed().align(8),
                f("l", s(Scalar::Str)).fixed(n(2)).align(4),
                f("m", s(Scalar::Bool)).align(2),
                f("tail", u(1)),
            ],
        ),
    ];
    o.push(unit("alignnest", "aligned compounds and arrays", d, vec![root("alignnest.Abc").spread().alpha(2).dev(2)]));
    // alignments inside elements, members, cases
    let d = vec![
        st("Elem", vec![f("a", u(3)).vals(&[5, 0]), f("b", u(9)).align(8).vals(&[257, 1])]),
        un("Either", vec![f("ua", r("Elem")), f("ub", u(3)).vals(&[6])]),
        st("Abc", vec![f("xs", r("Elem")).arr(), f("one", r("Elem")), f("ei", r("Either")), f("es", r("Either")).arr(), f("tail", u(1))]),
    ];
    o.push(unit("alignelem", "aligned fields inside array elements", d, vec![root("alignelem.Abc").spread().dev(if thorough { 4 } else { 3 })]));
    // aligned elements of packed arrays
    let d = vec![
        st("Elem", vec![f("a", u(3)).vals(&[5, 0]), f("b", u(16)).align(8).vals(&[257, 1])]),
        st("Abc", vec![f("xs", r("Elem")).arr().packed(), f("tail", u(1))]),
    ];
    o.push(unit("alignpack", "aligned fields inside packed elements", d, vec![root("alignpack.Abc").spread().lens(&[1, 0, 2, 3])]));
    // conditional and optional
    let t = st("Abc", vec![f("act", s(Scalar::Bool)), f("a", u(5)).align(8).cond(id("act")).vals(&[3]), f("b", u(5)).align(16).cond(unary("!", id("act"))).vals(&[4]), f("c", s(Scalar::Str)).align(32).cond(id("act")), f("d", u(3)).vals(&[7])]);
    o.push(unit("aligncond", "aligned conditional fields", vec![t], vec![root("aligncond.Abc").spread()]));
    for (nm, reference) in [("alignopt", false), ("alignoptref", true)] {
        let t = st("Abc", vec![f("a", u(5)).align(8).opt().vals(&[3]), f("b", u(5)).align(16).opt().vals(&[4]), f("c", s(Scalar::Str)).align(32).opt(), f("e", u(5)).arr().align(8).opt(), f("d", u(3)).vals(&[7])]);
        let mut x = unit(nm, "aligned optional fields", vec![t], vec![root(&format!("{nm}.Abc")).alpha(2)]);
        x.reference = reference;
        o.push(x);
    }
    // offsets
    let t = st("Abc", vec![f("pre", u(3)).vals(&[5]), off("oa"), f("ma", u(3)).vals(&[6]), f("a", u(5)).offset(id("oa")).vals(&[19]), off("ob"), f("mb", u(2)).vals(&[1]), f("b", s(Scalar::Str)).offset(id("ob")), f("tail", u(2)).vals(&[2])]);
    o.push(unit("offplain", "fields with offsets", vec![t], vec![root("offplain.Abc").spread().dev(2)]));
    let mut fs = vec![];
    for (i, k) in [u(8), u(16), u(32), u(20), u(64), u(24)].iter().enumerate() {
        let _ = i;
        fs.push(k.clone());
    }
    let mut st_fs = vec![];
    for (i, k) in fs.into_iter().enumerate() {
        st_fs.push(f(&format!("o{}", letters(i)), k).vals(&[7, 0]));
        st_fs.push(f(&format!("g{}", letters(i)), u(1 + i as u8)).vals(&[1]));
        st_fs.push(f(&format!("x{}", letters(i)), u(3)).offset(id(&format!("o{}", letters(i)))).vals(&[5]));
    }
    o.push(unit("offtypes", "offset fields of several types", vec![st("Abc", st_fs)], vec![root("offtypes.Abc").dev(2)]));
    let d = vec![
        leaf(),
        un("Either", vec![f("ua", u(7)), f("ub", s(Scalar::Str))]),
        st(
            "Abc",
            vec![
                off("oa"),
                off("ob"),
                off("oc"),
                off("od"),
                f("m", u(3)).vals(&[6]),
                f("a", r("Leaf")).offset(id("oa")),
                f("ma", u(1)).vals(&[1]),
                f("b", u(5)).arr().offset(id("ob")),
                f("c", r("Either")).offset(id("oc")),
                f("mb", u(1)).vals(&[1]),
                f("d", u(16)).arr().packed().offset(id("od")),
                f("tail", u(2)).vals(&[2]),
            ],
        ),
    ];
    o.push(unit("offnest", "compounds and arrays with offsets", d, vec![root("offnest.Abc").alpha(2).dev(3)]));
    let d = vec![
        st("Head", vec![off("pos"), f("k", u(3)).vals(&[2])]),
        st("Abc", vec![f("head", r("Head")), f("a", u(5)).offset(dot(id("head"), "pos")).vals(&[19]), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("offmember", "an offset stored in another structure", d, vec![root("offmember.Abc")]));
    // indexed offsets
    for (i, (nm, ty, pk)) in [("idxscalar", u(5), false), ("idxstr", s(Scalar::Str), false), ("idxpacked", u(16), true), ("idxvar", s(Scalar::VarU), false)].into_iter().enumerate() {
        let _ = i;
        let mut x = f("xs", ty).fixed(n(3)).offset(Ex::Idx(Box::new(id("offs")), Box::new(Ex::Index)));
        x.packed = pk;
        let t = st("Abc", vec![f("offs", u(32)).fixed(n(3)).vals(&[0, 77]), f("m", u(3)).vals(&[6]), x, f("tail", u(2)).vals(&[2])]);
        o.push(unit(nm, "arrays with indexed offsets", vec![t], vec![root(&format!("{nm}.Abc")).alpha(3).dev(3)]));
    }
    let d = vec![leaf(), st("Abc", vec![f("offs", u(32)).arr().vals(&[0]).lens(&[2]), f("m", u(3)).vals(&[6]), f("xs", r("Leaf")).arr().lens(&[2]).offset(Ex::Idx(Box::new(id("offs")), Box::new(Ex::Index))), f("tail", u(2)).vals(&[2])])];
    o.push(unit("idxstruct", "structures with indexed offsets", d, vec![root("idxstruct.Abc").spread().alpha(2)]));
    let d = vec![
        st("Elem", vec![f("a", u(5)).vals(&[9, 31]), f("b", i(32)).vals(&[-4, 70000]), f("c", s(Scalar::Bool))]),
        st("Abc", vec![f("num", u(2)).vals(&[2, 0, 1, 3]), f("offs", u(32)).fixed(id("num")).vals(&[0]), f("m", u(3)).vals(&[6]), f("xs", r("Elem")).fixed(id("num")).packed().offset(Ex::Idx(Box::new(id("offs")), Box::new(Ex::Index))), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("idxpackst", "packed structures with indexed offsets", d, vec![root("idxpackst.Abc").spread().alpha(2).dev(4)]));
    for (nm, pk) in [("idxparam", false), ("idxparampk", true)] {
        let mut x = f("xs", ra("Elem", vec![id("k"), Ex::Index])).fixed(n(3)).offset(Ex::Idx(Box::new(id("offs")), Box::new(Ex::Index)));
        x.packed = pk;
        let mut y = f("ys", ra("Elem", vec![n(1), n(2)])).arr().lens(&[2]).offset(Ex::Idx(Box::new(id("offy")), Box::new(Ex::Index)));
        y.packed = pk;
        let d = vec![
            st("Elem", vec![f("a", u(5)).vals(&[9, 31]), f("b", u(7)).fixed(id("par")).vals(&[100, 3]), f("c", u(3)).cond(bin("==", id("pos"), n(1))).vals(&[5])]).params(vec![("par", u(8)), ("pos", u(32))]),
            st("Abc", vec![f("k", u(2)).vals(&[1, 0, 2]), f("offs", u(32)).fixed(n(3)).vals(&[0]), f("offy", u(32)).fixed(n(2)).vals(&[0]), f("m", u(3)).vals(&[6]), x, f("n", u(4)).vals(&[9]), y, f("tail", u(2)).vals(&[2])]),
        ];
        o.push(unit(nm, "parameterised structures with indexed offsets", d, vec![root(&format!("{nm}.Abc")).spread().alpha(2).dev(2)]));
    }
    // both
    let t = st("Abc", vec![f("pre", u(3)).vals(&[5]), off("oa"), f("ma", u(3)).vals(&[6]), f("a", u(5)).align(32).offset(id("oa")).vals(&[19]), f("tail", u(2)).vals(&[2])]);
    o.push(unit("offalign", "aligned fields with offsets", vec![t], vec![root("offalign.Abc").spread()]));
    // offsets of optional and conditional fields
    let t = st("Abc", vec![f("act", s(Scalar::Bool)), off("oa"), f("ma", u(2)).vals(&[1]), f("a", u(5)).offset(id("oa")).cond(id("act")).vals(&[19]), f("tail", u(2)).vals(&[2])]);
    o.push(unit("offcond", "a conditional field with an offset", vec![t], vec![root("offcond.Abc").spread()]));
    for (nm, reference) in [("offopt", false), ("offoptref", true)] {
        let t = st("Abc", vec![f("act", s(Scalar::Bool)), off("oa"), f("ma", u(2)).vals(&[1]), f("a", u(5)).offset(id("oa")).opt().vals(&[19]), f("tail", u(2)).vals(&[2])]);
        let mut x = unit(nm, "an optional field with an offset", vec![t], vec![root(&format!("{nm}.Abc"))]);
        x.reference = reference;
        o.push(x);
    }
    // elements that contain offsets
    let d = vec![
        st("Elem", vec![off("oa"), f("a", u(3)).vals(&[5, 0]), f("b", u(9)).offset(id("oa")).vals(&[257, 1])]),
        st("Abc", vec![f("m", u(3)).vals(&[6]), f("xs", r("Elem")).arr(), f("ys", r("Elem")).arr().packed(), f("tail", u(1))]),
    ];
    o.push(unit("offelem", "offsets inside array elements", d, vec![root("offelem.Abc").spread().dev(if thorough { 5 } else { 3 })]));
    // every alignment with and without an offset on every kind of field
    for a in [0u32, 1, 2, 3, 5, 7, 8, 12, 16, 24, 32, 33] {
        let nm = format!("offby{}", letters(a as usize));
        let mut fs = vec![f("act", s(Scalar::Bool))];
        let d = vec![leaf(), un("Either", vec![f("ua", u(7)), f("ub", s(Scalar::Str))])];
        let kinds: Vec<(Field, bool)> = vec![
            (f("xa", u(5)).vals(&[19]), true),
            (f("xb", s(Scalar::Str)), true),
            (f("xc", r("Leaf")), true),
            (f("xd", u(3)).arr().vals(&[5]), true),
            (f("xe", u(16)).arr().packed(), true),
            (f("xf", r("Either")), true),
            (f("xg", u(5)).cond(id("act")).vals(&[19]), true),
            (f("xh", s(Scalar::VarU)).fixed(n(2)), true),
            (f("xi", u(5)).vals(&[19]), false),
            (f("xj", r("Leaf")).arr().packed(), false),
        ];
        for (x, (mut y, offs)) in kinds.into_iter().enumerate() {
            if offs {
                fs.push(off(&format!("o{}", letters(x))));
                y = y.offset(id(&format!("o{}", letters(x))));
            }
            fs.push(f(&format!("g{}", letters(x)), u(1 + (x as u8 * 5 + a as u8) % 7)).vals(&[1]));
            if a > 0 {
                y = y.align(a);
            }
            fs.push(y);
        }
        for (x, packed) in [false, true].into_iter().enumerate() {
            fs.push(f(&format!("p{}", letters(x)), u(32)).fixed(n(2)).vals(&[0]));
            fs.push(f(&format!("q{}", letters(x)), u(3)).vals(&[1]));
            let mut y = f(&format!("y{}", letters(x)), u(5)).fixed(n(2)).vals(&[9, 31]).offset(Ex::Idx(Box::new(id(&format!("p{}", letters(x)))), Box::new(Ex::Index)));
            y.packed = packed;
            if a > 0 {
                y = y.align(a);
            }
            fs.push(y);
        }
        fs.push(f("tail", u(2)).vals(&[2]));
        let mut d = d;
        d.push(st("Abc", fs));
        o.push(unit(&nm, "alignments with offsets", d, vec![root(&format!("{nm}.Abc")).spread().alpha(2).dev(1)]));
    }
    o
}
