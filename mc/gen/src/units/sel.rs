//! C14: choices and unions.
use super::*;

fn cs(l: Vec<Ex>, fl: Option<Field>) -> (Vec<Ex>, Option<Field>) {
    (l, fl)
}
/// A choice with its own parameter, and a structure that passes it.
fn pair(name: &str, what: &str, mut pre: Vec<Decl>, par: Ty, sels: &[i128], cases: Vec<(Vec<Ex>, Option<Field>)>, default: Option<Option<Field>>, thorough: bool) -> Unit {
    let boolean = par == s(Scalar::Bool);
    pre.push(ch("Pick", vec![("sel", par.clone())], id("sel"), cases, default));
    pre.push(st("Abc", vec![f("pre", u(3)).vals(&[5]), f("sel", par).vals(sels), f("pick", ra("Pick", vec![id("sel")])), f("post", u(2)).vals(&[2])]));
    if boolean {
        let k = pre.len() - 1;
        if let Kind::Struct { fields } = &mut pre[k].kind {
            fields[1].vals = None;
        }
    }
    let ps = if boolean { vec![vec![Val::Bool(true)], vec![Val::Bool(false)]] } else { sels.iter().map(|x| vec![Val::Int(*x)]).collect() };
    unit(name, what, pre, vec![root(&format!("{name}.Abc")).alpha(if thorough { 5 } else { 3 }), root(&format!("{name}.Pick")).alpha(4).with(ps)])
}

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let t = thorough;
    let st8 = || s(Scalar::Str);
    // selector types
    let ints: [(&str, Ty, [i128; 4]); 10] = [
        ("selub", u(8), [1, 0, 200, 255]),
        ("selus", u(16), [1, 0, 300, 65535]),
        ("seluw", u(32), [1, 0, 70000, u32::MAX as i128]),
        ("seluq", u(64), [1, 0, 1 << 40, i64::MAX as i128]),
        ("selib", i(8), [1, -1, 127, -128]),
        ("selis", i(16), [1, -1, 300, -300]),
        ("seliq", i(64), [1, -1, 1 << 40, -(1 << 40)]),
        ("selbt", u(3), [1, 0, 6, 7]),
        ("selit", i(13), [1, 0, -4096, 4095]),
        ("selvr", s(Scalar::VarU32), [1, 0, 200, 70000]),
    ];
    for (nm, ty, v) in ints {
        let cases = vec![cs(vec![n(v[0])], Some(f("a", u(8)))), cs(vec![n(v[1])], Some(f("b", st8()))), cs(vec![n(v[2])], None)];
        o.push(pair(nm, "a choice on an integer", vec![], ty, &v, cases, Some(Some(f("d", u(5)))), t));
    }
    o.push(pair("selbool", "a choice on a boolean", vec![], s(Scalar::Bool), &[], vec![cs(vec![Ex::B(true)], Some(f("a", u(8)))), cs(vec![Ex::B(false)], Some(f("b", st8())))], None, t));
    o.push(pair("selboolh", "a choice on a boolean with one case", vec![], s(Scalar::Bool), &[], vec![cs(vec![Ex::B(true)], Some(f("a", u(8))))], Some(None), t));
    // several labels, empty cases, defaults
    o.push(pair(
        "sellabels",
        "several labels for a case",
        vec![],
        u(8),
        &[1, 2, 3, 4, 5, 6, 9, 0],
        vec![cs(vec![n(1), n(2)], Some(f("a", u(8)))), cs(vec![n(3), n(4), n(5)], Some(f("b", st8()))), cs(vec![n(6), n(9)], None)],
        Some(Some(f("d", i(5)))),
        t,
    ));
    o.push(pair("selnodef", "no default", vec![], u(8), &[1, 2], vec![cs(vec![n(1)], Some(f("a", u(8)))), cs(vec![n(2)], None)], None, t));
    o.push(pair("selemptyd", "an empty default", vec![], u(8), &[1, 2, 7], vec![cs(vec![n(1)], Some(f("a", u(8)))), cs(vec![n(2)], Some(f("b", st8())))], Some(None), t));
    o.push(pair("selonlyd", "all content in the default", vec![], u(8), &[1, 2, 7], vec![cs(vec![n(1)], None), cs(vec![n(2)], None)], Some(Some(f("d", u(16)))), t));
    // enum and bitmask selectors
    let color = || en("Color", u(8), &[("RED", None, 0), ("BLUE", None, 1), ("DARK_GREEN", Some(n(7)), 7), ("LAST", None, 8)]);
    let perm = || bm("Perm", u(4), &[("READ", None, 1), ("WRITE", None, 2), ("BOTH", Some(n(3)), 3), ("NONE", Some(n(0)), 0)]);
    for (nm, qual) in [("selenum", true), ("selenumu", false)] {
        let l = |x: &str, v: i128| if qual { item("Color", x) } else { Ex::Lit(x.into(), v) };
        o.push(pair(
            nm,
            "a choice on an enum",
            vec![color()],
            r("Color"),
            &[0, 1, 7, 8],
            vec![cs(vec![l("RED", 0)], Some(f("a", u(8)))), cs(vec![l("BLUE", 1), l("DARK_GREEN", 7)], Some(f("b", st8())))],
            Some(Some(f("d", u(3)))),
            t,
        ));
        let l = |x: &str, v: i128| if qual { item("Perm", x) } else { Ex::Lit(x.into(), v) };
        o.push(pair(
            if qual { "selmask" } else { "selmasku" },
            "a choice on a bitmask",
            vec![perm()],
            r("Perm"),
            &[1, 2, 3, 0],
            vec![cs(vec![l("READ", 1)], Some(f("a", u(8)))), cs(vec![l("WRITE", 2), l("BOTH", 3)], Some(f("b", st8())))],
            Some(Some(f("d", u(3)))),
            t,
        ));
    }
    let exact = vec![cs(vec![item("Color", "RED")], Some(f("a", u(8)))), cs(vec![item("Color", "BLUE")], Some(f("b", st8()))), cs(vec![item("Color", "DARK_GREEN")], None), cs(vec![item("Color", "LAST")], Some(f("c", u(1))))];
    o.push(pair("selenumx", "a choice over all items of an enum", vec![color()], r("Color"), &[0, 1, 7, 8], exact, None, t));
    // subtypes as selector types
    o.push(pair("selsub", "a choice on a subtype", vec![sub("Kind", u(8))], r("Kind"), &[1, 2, 3], vec![cs(vec![n(1)], Some(f("a", u(8)))), cs(vec![n(2)], Some(f("b", st8())))], Some(None), t));
    for (nm, qual) in [("selsuben", true), ("selsubun", false)] {
        let l = |x: &str, v: i128| if qual { item("Color", x) } else { Ex::Lit(x.into(), v) };
        o.push(pair(
            nm,
            "a choice on a subtype of an enum",
            vec![color(), sub("Shade", r("Color"))],
            r("Shade"),
            &[0, 1, 7],
            vec![cs(vec![l("RED", 0)], Some(f("a", u(8)))), cs(vec![l("BLUE", 1)], Some(f("b", st8())))],
            Some(None),
            t,
        ));
    }
    // label expressions
    o.push(pair(
        "selexprs",
        "labels that are expressions",
        vec![konst("THREE", u(8), n(3)), konst("SIX", i(32), bin("*", id("THREE"), n(2)))],
        u(8),
        &[3, 6, 7, 16, 1],
        vec![cs(vec![id("THREE")], Some(f("a", u(8)))), cs(vec![id("SIX"), bin("+", id("SIX"), n(1))], Some(f("b", st8()))), cs(vec![Ex::Lit("0x10".into(), 16)], Some(f("c", u(3))))],
        Some(Some(f("d", u(3)))),
        t,
    ));
    // selector expressions
    let d = vec![
        st("Head", vec![f("kind", u(4)).vals(&[1, 0, 2]), f("more", u(4)).vals(&[1, 0])]).func("mixed", u(8), bin("+", id("kind"), id("more"))),
        ch("PickMember", vec![("head", r("Head"))], dot(id("head"), "kind"), vec![cs(vec![n(0)], Some(f("a", u(8)))), cs(vec![n(1)], Some(f("b", st8())))], Some(None)),
        st("Abc", vec![f("head", r("Head")), f("pick", ra("PickMember", vec![id("head")])), f("post", u(2)).vals(&[2])]),
    ];
    o.push(unit("selmember", "a selector that is a member of a parameter", d, vec![root("selmember.Abc")]));
    let d = vec![
        st("Head", vec![f("kind", u(4)).vals(&[1, 0, 2]), f("more", u(4)).vals(&[1, 0])]).func("mixed", u(8), bin("+", id("kind"), id("more"))),
        ch("PickCall", vec![("head", r("Head"))], call(dot(id("head"), "mixed")), vec![cs(vec![n(0)], Some(f("a", u(8)))), cs(vec![n(1)], Some(f("b", st8())))], Some(None)),
        st("Abc", vec![f("head", r("Head")), f("pick", ra("PickCall", vec![id("head")])), f("post", u(2)).vals(&[2])]),
    ];
    o.push(unit("selcall", "a selector that is a function of a parameter", d, vec![root("selcall.Abc")]));
    let d = vec![
        ch("PickSum", vec![("x", u(8)), ("y", u(8))], bin("+", id("x"), id("y")), vec![cs(vec![n(0)], Some(f("a", u(8)))), cs(vec![n(3)], Some(f("b", st8())))], Some(None)),
        st("Abc", vec![f("x", u(8)).vals(&[1, 0]), f("y", u(8)).vals(&[2, 0]), f("pick", ra("PickSum", vec![id("x"), id("y")])), f("post", u(2)).vals(&[2])]),
    ];
    o.push(unit("selsum", "a selector that is an expression", d, vec![root("selsum.Abc")]));
    let d = vec![
        ch("PickCmp", vec![("x", u(8)), ("y", u(8))], bin("<", id("x"), id("y")), vec![cs(vec![Ex::B(true)], Some(f("a", u(8)))), cs(vec![Ex::B(false)], Some(f("b", st8())))], None),
        st("Abc", vec![f("x", u(8)).vals(&[1, 0]), f("y", u(8)).vals(&[2, 0]), f("pick", ra("PickCmp", vec![id("x"), id("y")])), f("post", u(2)).vals(&[2])]),
    ];
    o.push(unit("selcmp", "a selector that is a comparison", d, vec![root("selcmp.Abc")]));
    let d = vec![
        ch("PickTwo", vec![("x", u(8)), ("y", u(8))], id("y"), vec![cs(vec![n(0)], Some(f("a", u(8)).fixed(id("x")))), cs(vec![n(1)], Some(f("b", Ty::DynU(Box::new(id("x"))))))], None),
        st("Abc", vec![f("x", u(8)).vals(&[2, 1]), f("y", u(8)).vals(&[1, 0]), f("pick", ra("PickTwo", vec![id("x"), id("y")])), f("post", u(2)).vals(&[2])]),
    ];
    o.push(unit("selpars", "members that use other parameters", d, vec![root("selpars.Abc")]));
    // member kinds
    let mut cases = vec![];
    let leaf = || st("Leaf", vec![f("xa", u(5)), f("xb", s(Scalar::VarU)).opt()]);
    let mut members = vec![];
    for (i, k) in kinds().iter().enumerate() {
        members.push(f(&vn(i), s(*k)));
    }
    members.push(f("za", u(5)).arr());
    members.push(f("zb", st8()).fixed(n(2)));
    members.push(f("zc", i(16)).arr().packed());
    members.push(f("zd", r("Leaf")));
    members.push(f("ze", r("Leaf")).arr());
    members.push(f("zf", r("Leaf")).arr().packed());
    members.push(f("zg", r("Color")));
    members.push(f("zh", r("Perm")));
    members.push(f("zi", r("Color")).arr());
    members.push(f("zj", r("Alias")));
    members.push(f("zk", r("Num")));
    members.push(f("zl", r("Num")).arr());
    for (i, m) in members.iter().enumerate() {
        cases.push(cs(vec![n(i as i128)], Some(m.clone())));
    }
    let sels: Vec<i128> = (0..members.len() as i128).collect();
    let pre = || vec![leaf(), color(), perm(), sub("Alias", r("Leaf")), sub("Num", u(11))];
    o.push(pair("selkinds", "a choice over every kind of member", pre(), u(8), &sels, cases, Some(None), t));
    let mut d = pre();
    d.push(un("Either", members));
    d.push(st("Abc", vec![f("pre", u(3)).vals(&[5]), f("one", r("Either")), f("post", u(2)).vals(&[2])]));
    o.push(unit("unikinds", "a union over every kind of member", d, vec![root("unikinds.Abc").alpha(if t { 5 } else { 3 }), root("unikinds.Either").alpha(4)]));
    // selectors of two bytes
    let d = vec![un("Many", (0..260).map(|i| f(&format!("m{}", letters(i)), u(if i % 2 == 0 { 8 } else { 3 }))).collect()), st("Abc", vec![f("pre", u(3)).vals(&[5]), f("one", r("Many")), f("post", u(2)).vals(&[2])])];
    o.push(unit("unimany", "a union of many members", d, vec![root("unimany.Abc").alpha(2)]));
    // containers
    let pick = || {
        ch(
            "Pick",
            vec![("sel", u(8))],
            id("sel"),
            vec![cs(vec![n(0)], Some(f("a", u(8)).vals(&[3, 200]))), cs(vec![n(1), n(2)], Some(f("b", st8()))), cs(vec![n(3)], None)],
            Some(Some(f("d", u(5)))),
        )
    };
    let either = || un("Either", vec![f("ua", u(7)).vals(&[3, 100]), f("ub", st8()), f("uc", i(32)).vals(&[-70000, 5])]);
    let d = vec![
        pick(),
        either(),
        st(
            "Abc",
            vec![
                f("sel", u(8)).vals(&[0, 1, 3, 9]),
                f("ca", ra("Pick", vec![id("sel")])).arr(),
                f("cb", ra("Pick", vec![id("sel")])).opt(),
                f("cc", ra("Pick", vec![n(2)])).fixed(n(2)),
                f("ua", r("Either")).arr(),
                f("ub", r("Either")).opt(),
                f("uc", r("Either")).fixed(n(2)),
                f("post", u(2)).vals(&[2]),
            ],
        ),
    ];
    o.push(unit("selcont", "arrays and optionals of choices and unions", d, vec![root("selcont.Abc").alpha(2).dev(3)]));
    let d = vec![
        pick(),
        either(),
        st("Abc", vec![f("sel", u(8)).vals(&[0, 1, 3, 9]), f("ca", ra("Pick", vec![id("sel")])).arr().packed(), f("ua", r("Either")).arr().packed(), f("post", u(2)).vals(&[2])]),
    ];
    o.push(unit("selpacked", "packed arrays of choices and unions", d, vec![root("selpacked.Abc").alpha(2).lens(&[1, 0, 2, 3]).dev(if t { 5 } else { 4 })]));
    // nesting
    let d = vec![
        pick(),
        either(),
        un("Outer", vec![f("oa", r("Either")), f("ob", ra("Pick", vec![n(1)])), f("oc", r("Either")).arr()]),
        ch("Deep", vec![("sel", u(8))], id("sel"), vec![cs(vec![n(0)], Some(f("xa", ra("Pick", vec![id("sel")])))), cs(vec![n(1)], Some(f("xb", ra("Pick", vec![bin("+", id("sel"), n(1))])))), cs(vec![n(2)], Some(f("xc", r("Either"))))], None),
        st("Abc", vec![f("sel", u(8)).vals(&[0, 1, 2]), f("x", ra("Deep", vec![id("sel")])), f("y", r("Outer")), f("post", u(2)).vals(&[2])]),
    ];
    o.push(unit("selnest", "choices and unions inside each other", d, vec![root("selnest.Abc").alpha(2)]));
    // functions and names
    let d = vec![
        un("theUnion", vec![f("firstMember", u(8)), f("second_member", st8()), f("THIRD", u(3))]),
        ch("the_choice", vec![("theSel", u(8))], id("theSel"), vec![cs(vec![n(0)], Some(f("firstMember", u(8)))), cs(vec![n(1)], Some(f("SECOND", st8())))], Some(Some(f("elseCase", u(3))))),
        st("Abc", vec![f("theSel", u(8)).vals(&[0, 1, 2]), f("theUnion", r("theUnion")), f("theChoice", ra("the_choice", vec![id("theSel")]))]),
    ];
    o.push(unit("selnames", "names that differ from their Rust spelling", d, vec![root("selnames.Abc").alpha(2)]));
    // unions with parameters
    let d = vec![
        un("Either", vec![f("ua", u(8)).fixed(id("k")), f("ub", Ty::DynU(Box::new(id("k"))))]).params(vec![("k", u(4))]),
        st("Abc", vec![f("k", u(4)).vals(&[2, 3]), f("one", ra("Either", vec![id("k")])), f("xs", ra("Either", vec![n(5)])).arr()]),
    ];
    o.push(unit("unipars", "a union with a parameter", d, vec![root("unipars.Abc").alpha(2)]));
    o
}
