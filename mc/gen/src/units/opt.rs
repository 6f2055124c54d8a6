//! C13: optional and conditional fields.
use super::*;

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let k = if thorough { 3 } else { 2 };
    // every builtin type as an optional field between neighbours
    let mut fs = vec![f("head", u(3)).vals(&[5])];
    for (i, kd) in kinds().iter().enumerate() {
        if !BLOBS.contains(kd) {
            fs.push(f(&vn(i), s(*kd)).opt());
        }
    }
    fs.push(f("tail", u(2)).vals(&[2]));
    o.push(unit("optkinds", "an optional field of every builtin type", vec![st("Abc", fs)], vec![root("optkinds.Abc").alpha(6).dev(if thorough { 3 } else { 2 })]));
    let t = st("Abc", vec![f("a", s(Scalar::Extern)).opt(), f("b", s(Scalar::Bytes)).opt(), f("c", s(Scalar::Extern)).arr().opt(), f("d", s(Scalar::Bytes)).fixed(n(2)).opt(), f("tail", u(2)).vals(&[2])]);
    o.push(unit("optblobs", "optional buffers", vec![t], vec![root("optblobs.Abc").alpha(4).dev(2)]));
    // all subsets
    let subset = [u(8), s(Scalar::Bool), s(Scalar::Str), i(13), s(Scalar::VarU), s(Scalar::F32), u(1), s(Scalar::Var16)];
    let fs = subset.iter().enumerate().map(|(i, t)| f(&vn(i), t.clone()).opt()).collect();
    o.push(unit("optsubset", "every subset of optional fields", vec![st("Abc", fs)], vec![root("optsubset.Abc").alpha(1)]));
    // arrays
    let mut fs = vec![f("num", u(3)).vals(&[2, 0, 1])];
    for (i, t) in [u(5), s(Scalar::Str), i(16), s(Scalar::Bool), s(Scalar::VarU32)].iter().enumerate() {
        fs.push(f(&format!("p{}", letters(i)), t.clone()).arr().opt());
        fs.push(f(&format!("q{}", letters(i)), t.clone()).fixed(id("num")).opt());
        if !matches!(i, 1 | 3) {
            fs.push(f(&format!("r{}", letters(i)), t.clone()).arr().packed().opt());
            fs.push(f(&format!("s{}", letters(i)), t.clone()).fixed(n(3)).packed().opt());
        }
    }
    fs.push(f("tail", u(1)));
    o.push(unit("optarr", "optional arrays", vec![st("Abc", fs)], vec![root("optarr.Abc").alpha(3).dev(3)]));
    // nested compounds
    let leaf = || st("Leaf", vec![f("xa", u(5)), f("xb", s(Scalar::VarU)).opt(), f("xc", s(Scalar::Str)).opt()]);
    let color = || en("Color", u(3), &[("RED", None, 0), ("BLUE", None, 1), ("DARK", Some(n(6)), 6)]);
    let perm = || bm("Perm", u(4), &[("READ", None, 1), ("WRITE", None, 2), ("EXEC", Some(n(8)), 8)]);
    let d = vec![
        leaf(),
        color(),
        perm(),
        un("Either", vec![f("ua", u(7)), f("ub", s(Scalar::Str)), f("uc", r("Leaf"))]),
        ch("Pick", vec![("sel", u(2))], id("sel"), vec![(vec![n(0)], Some(f("ca", u(9)))), (vec![n(1)], Some(f("cb", s(Scalar::Str)))), (vec![n(2)], None)], None),
        sub("Wide", u(11)),
        sub("Alias", r("Leaf")),
        st("Empty", vec![]),
        st(
            "Abc",
            vec![
                f("sel", u(2)).vals(&[1, 0, 2]),
                f("a", r("Leaf")).opt(),
                f("b", r("Color")).opt(),
                f("c", r("Perm")).opt(),
                f("d", r("Either")).opt(),
                f("e", ra("Pick", vec![id("sel")])).opt(),
                f("g", r("Wide")).opt(),
                f("h", r("Alias")).opt(),
                f("i", r("Empty")).opt(),
                f("j", r("Leaf")).arr().opt(),
                f("k", r("Color")).arr().packed().opt(),
                f("l", r("Either")).arr().opt(),
                f("m", r("Wide")).arr().opt(),
                f("tail", u(1)),
            ],
        ),
    ];
    o.push(unit("optnest", "optional compounds, enums, bitmasks and subtypes", d, vec![root("optnest.Abc").alpha(3).dev(k + 1)]));
    let d = vec![
        st("Inner", vec![f("a", u(4)).opt(), f("b", s(Scalar::Str)).opt()]),
        st("Mid", vec![f("a", r("Inner")).opt(), f("b", u(3)).opt(), f("c", r("Inner")).opt()]),
        st("Abc", vec![f("a", r("Mid")).opt(), f("b", u(3)), f("c", r("Mid")).arr().opt()]),
    ];
    o.push(unit("optdeep", "optionals inside optionals", d, vec![root("optdeep.Abc").alpha(1).lens(&[0, 1]).dev(if thorough { 7 } else { 5 })]));
    let t = st("Node", vec![f("val", u(8)).vals(&[3, 250]), f("next", r("Node")).opt()]);
    let _ = t;
    // dynamic bit fields
    let t = st("Abc", vec![f("wid", u(6)).vals(&[5, 1, 63]), f("a", Ty::DynU(Box::new(id("wid")))).opt(), f("b", Ty::DynI(Box::new(bin("+", id("wid"), n(1))))).opt(), f("c", Ty::DynU(Box::new(id("wid")))).arr().opt(), f("tail", u(1))]);
    o.push(unit("optdyn", "optional bit fields sized by expressions", vec![t], vec![root("optdyn.Abc").alpha(3).dev(3)]));
    // conditions: one field of every type
    let mut fs = vec![f("act", s(Scalar::Bool)), f("sel", u(2)).vals(&[1, 0, 3])];
    for (i, kd) in kinds().iter().enumerate() {
        let c = match i % 4 {
            0 => id("act"),
            1 => unary("!", id("act")),
            2 => bin("==", id("sel"), n(1)),
            _ => bin("&&", id("act"), bin("<", id("sel"), n(3))),
        };
        fs.push(f(&vn(i), s(*kd)).cond(c));
    }
    fs.push(f("tail", u(2)).vals(&[2]));
    o.push(unit("condkinds", "a conditional field of every builtin type", vec![st("Abc", fs)], vec![root("condkinds.Abc").alpha(5).dev(k)]));
    // condition forms
    let d = vec![
        color(),
        perm(),
        konst("LIMIT", u(8), n(3)),
        st("Head", vec![f("kind", r("Color")), f("num", u(4)).vals(&[3, 0, 9]), f("mask", r("Perm")).vals(&[3, 0, 8, 11])]).func("big", s(Scalar::Bool), bin(">", id("num"), n(3))),
        st(
            "Abc",
            vec![
                f("head", r("Head")),
                f("xs", u(3)).arr().vals(&[1, 6]),
                f("flag", s(Scalar::Bool)),
                f("a", u(8)).cond(bin("==", dot(id("head"), "kind"), item("Color", "BLUE"))).vals(&[17]),
                f("b", u(8)).cond(bin("!=", dot(id("head"), "kind"), item("Color", "RED"))).vals(&[18]),
                f("c", u(8)).cond(bin(">=", dot(id("head"), "num"), id("LIMIT"))).vals(&[19]),
                f("d", u(8)).cond(Ex::IsSet(Box::new(dot(id("head"), "mask")), Box::new(item("Perm", "WRITE")))).vals(&[20]),
                f("e", u(8)).cond(bin("==", Ex::Par(Box::new(bin("&", dot(id("head"), "mask"), item("Perm", "EXEC")))), item("Perm", "EXEC"))).vals(&[21]),
                f("g", u(8)).cond(bin("<", Ex::Len(Box::new(id("xs"))), n(2))).vals(&[22]),
                f("h", u(8)).cond(call(dot(id("head"), "big"))).vals(&[23]),
                f("i", u(8)).cond(bin("||", id("flag"), bin("==", dot(id("head"), "num"), n(9)))).vals(&[24]),
                f("j", u(8)).cond(bin("==", Ex::ValOf(Box::new(dot(id("head"), "kind"))), n(6))).vals(&[25]),
                f("k", u(8)).cond(tern(id("flag"), bin("==", dot(id("head"), "num"), n(0)), bin("==", dot(id("head"), "num"), n(3)))).vals(&[26]),
                f("l", u(8)).cond(unary("!", Ex::Par(Box::new(bin("&&", id("flag"), bin(">", dot(id("head"), "num"), n(0))))))).vals(&[27]),
                f("tail", u(3)).vals(&[6]),
            ],
        ),
    ];
    o.push(unit("condforms", "conditions over enums, bitmasks, members, lengths, functions", d, vec![root("condforms.Abc").dev(if thorough { 6 } else { 4 })]));
    // conditional compounds and arrays
    let d = vec![
        leaf(),
        color(),
        un("Either", vec![f("ua", u(7)), f("ub", s(Scalar::Str))]),
        ch("Pick", vec![("sel", u(2))], id("sel"), vec![(vec![n(0)], Some(f("ca", u(9)))), (vec![n(1)], Some(f("cb", s(Scalar::Str))))], Some(None)),
        st(
            "Abc",
            vec![
                f("sel", u(2)).vals(&[1, 0, 2]),
                f("act", s(Scalar::Bool)),
                f("a", r("Leaf")).cond(id("act")),
                f("b", r("Color")).cond(bin("==", id("sel"), n(1))),
                f("c", r("Either")).cond(unary("!", id("act"))),
                f("d", ra("Pick", vec![id("sel")])).cond(bin("!=", id("sel"), n(2))),
                f("e", u(5)).arr().cond(id("act")),
                f("g", i(16)).fixed(id("sel")).cond(unary("!", id("act"))),
                f("h", u(32)).arr().packed().cond(bin("<", id("sel"), n(2))),
                f("i", r("Leaf")).arr().cond(id("act")),
                f("j", r("Leaf")).arr().packed().cond(id("act")),
                f("k", s(Scalar::Str)).arr().cond(bin("||", id("act"), bin("==", id("sel"), n(1)))),
                f("l", Ty::DynU(Box::new(bin("+", id("sel"), n(3))))).cond(id("act")),
                f("tail", u(3)).vals(&[6]),
            ],
        ),
    ];
    o.push(unit("condnest", "conditional compounds and arrays", d, vec![root("condnest.Abc").alpha(2).dev(k + 1)]));
    // conditions on fields that are conditional themselves
    let t = st(
        "Abc",
        vec![
            f("act", s(Scalar::Bool)),
            f("a", u(4)).cond(id("act")).vals(&[3, 0, 9]),
            f("b", u(4)).cond(bin("&&", id("act"), bin(">", id("a"), n(2)))).vals(&[7, 1]),
            f("c", s(Scalar::Bool)).cond(bin("&&", bin("&&", id("act"), bin(">", id("a"), n(2))), bin("==", id("b"), n(7)))),
            f("d", u(4)).cond(bin("||", unary("!", id("act")), bin("==", id("a"), n(0)))).vals(&[5]),
            f("tail", u(2)).vals(&[2]),
        ],
    );
    o.push(unit("condchain", "conditions on conditional fields", vec![t], vec![root("condchain.Abc")]));
    // mixtures and truth tables
    let mut fs = vec![f("a", s(Scalar::Bool)), f("b", s(Scalar::Bool)), f("c", s(Scalar::Bool))];
    let cs = [
        bin("&&", id("a"), bin("||", id("b"), id("c"))),
        bin("||", bin("&&", id("a"), id("b")), id("c")),
        bin("==", id("a"), id("b")),
        bin("!=", id("b"), id("c")),
        unary("!", Ex::Par(Box::new(bin("||", id("a"), id("c"))))),
        tern(id("a"), id("b"), id("c")),
        bin("&&", unary("!", id("a")), unary("!", id("b"))),
        Ex::B(true),
        Ex::B(false),
    ];
    for (i, c) in cs.into_iter().enumerate() {
        fs.push(f(&format!("x{}", letters(i)), u(3)).cond(c).vals(&[i as i128 % 7 + 1]));
        fs.push(f(&format!("y{}", letters(i)), u(2)).opt().vals(&[3]));
    }
    o.push(unit("condmix", "conditional and optional fields mixed", vec![st("Abc", fs)], vec![root("condmix.Abc").dev(if thorough { 12 } else { 6 })]));
    // parameters in conditions
    let d = vec![
        st("Part", vec![f("a", u(8)).cond(id("p")).vals(&[7]), f("b", u(8)).cond(bin(">", id("q"), n(2))).vals(&[8]), f("c", u(4)).opt().vals(&[9])]).params(vec![("p", s(Scalar::Bool)), ("q", u(4))]),
        st("Abc", vec![f("p", s(Scalar::Bool)), f("q", u(4)).vals(&[3, 2]), f("one", ra("Part", vec![id("p"), id("q")])), f("two", ra("Part", vec![unary("!", id("p")), n(0)])).opt(), f("arr", ra("Part", vec![id("p"), id("q")])).arr(), f("tail", u(2)).vals(&[1])]),
    ];
    o.push(unit("condparam", "conditions on parameters", d, vec![root("condparam.Abc"), root("condparam.Part").with(vec![vec![Val::Bool(true), Val::Int(9)], vec![Val::Bool(false), Val::Int(2)]])]));
    // packed elements
    let d = vec![
        st("Elem", vec![f("act", s(Scalar::Bool)), f("a", u(8)).opt().vals(&[3, 250]), f("b", i(16)).cond(id("act")).vals(&[-5, 90]), f("c", s(Scalar::Str)).opt(), f("d", u(16)).vals(&[1000, 1001])]),
        st("Abc", vec![f("head", u(3)).vals(&[5]), f("xs", r("Elem")).arr().packed(), f("tail", u(3)).vals(&[5])]),
    ];
    o.push(unit("optpacked", "optional and conditional fields of packed elements", d, vec![root("optpacked.Abc").alpha(1).lens(&[1, 0, 2, 3]).dev(if thorough { 5 } else { 4 })]));
    o
}
