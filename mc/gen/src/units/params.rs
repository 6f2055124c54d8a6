//! C21: type parameters.
use super::*;

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let dev = if thorough { 5 } else { 3 };
    // the parameter decides the length, the width, the presence
    let part = |ty: Ty| {
        st(
            "Part",
            vec![f("xs", u(4)).fixed(id("k")), f("w", Ty::DynU(Box::new(bin("+", id("k"), n(1))))), f("c", u(8)).cond(bin(">", id("k"), n(1))).vals(&[99])],
        )
        .params(vec![("k", ty)])
    };
    // parameter types
    for (nm, ty) in [("parub", u(8)), ("parus", u(16)), ("paruw", u(32)), ("paruq", u(64)), ("parib", i(8)), ("pariq", i(64)), ("parbt", u(3)), ("parit", i(5)), ("parvu", s(Scalar::VarU)), ("parvs", s(Scalar::VarSize)), ("parvi", s(Scalar::Var32))] {
        let d = vec![
            part(ty.clone()),
            st("Abc", vec![f("k", ty.clone()).vals(&[2, 0, 1, 3]), f("one", ra("Part", vec![id("k")])), f("opt", ra("Part", vec![id("k")])).opt(), f("arr", ra("Part", vec![id("k")])).arr(), f("tail", u(2)).vals(&[2])]),
        ];
        o.push(unit(nm, "integer parameters", d, vec![root(&format!("{nm}.Abc")).alpha(2).dev(dev), root(&format!("{nm}.Part")).with(vec![vec![Val::Int(0)], vec![Val::Int(3)]])]));
    }
    // the argument's type differs from the parameter's
    let mut ds = vec![];
    let mut fs = vec![];
    for (i, (pt, ft)) in [(u(8), u(16)), (u(16), u(8)), (u(64), u(3)), (i(32), u(8)), (u(8), i(32)), (s(Scalar::VarU), u(8)), (u(8), s(Scalar::VarU)), (u(3), u(64)), (i(64), i(5)), (u(32), s(Scalar::VarSize))].into_iter().enumerate() {
        let nm = format!("Part{}", letters(i));
        ds.push(st(&nm, vec![f("xs", u(4)).fixed(id("k")).vals(&[5]), f("w", Ty::DynU(Box::new(bin("+", id("k"), n(1))))).vals(&[1])]).params(vec![("k", pt)]));
        fs.push(f(&format!("k{}", letters(i)), ft).vals(&[2, 0]));
        fs.push(f(&format!("p{}", letters(i)), ra(&nm, vec![id(&format!("k{}", letters(i)))])));
        fs.push(f(&format!("q{}", letters(i)), ra(&nm, vec![id(&format!("k{}", letters(i)))])).arr().lens(&[1]));
    }
    ds.push(st("Abc", fs));
    o.push(unit("parmix", "arguments of other integer types", ds, vec![root("parmix.Abc").alpha(1).dev(2)]));
    // other parameter types
    let d = vec![
        st("Part", vec![f("a", u(8)).cond(id("act")).vals(&[7]), f("b", u(4)).cond(unary("!", id("act"))).vals(&[3])]).params(vec![("act", s(Scalar::Bool))]),
        st("Abc", vec![f("act", s(Scalar::Bool)), f("one", ra("Part", vec![id("act")])), f("not", ra("Part", vec![unary("!", id("act"))])), f("lit", ra("Part", vec![Ex::B(true)])), f("arr", ra("Part", vec![id("act")])).arr(), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parbool", "boolean parameters", d, vec![root("parbool.Abc")]));
    let color = || en("Color", u(3), &[("RED", None, 0), ("BLUE", None, 1), ("DARK", Some(n(6)), 6)]);
    let perm = || bm("Perm", u(4), &[("READ", None, 1), ("WRITE", None, 2), ("EXEC", Some(n(8)), 8)]);
    let d = vec![
        color(),
        st("Part", vec![f("a", u(8)).cond(bin("==", id("c"), item("Color", "BLUE"))).vals(&[7]), f("b", u(4)).cond(bin("!=", id("c"), item("Color", "DARK"))).vals(&[3])]).params(vec![("c", r("Color"))]),
        ch("Pick", vec![("c", r("Color"))], id("c"), vec![(vec![item("Color", "RED")], Some(f("x", u(5)))), (vec![item("Color", "BLUE")], None)], Some(Some(f("y", s(Scalar::Str))))),
        st("Abc", vec![f("c", r("Color")), f("one", ra("Part", vec![id("c")])), f("lit", ra("Part", vec![item("Color", "BLUE")])), f("arr", ra("Part", vec![id("c")])).arr(), f("pick", ra("Pick", vec![id("c")])), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parenum", "enum parameters", d, vec![root("parenum.Abc").alpha(4).dev(4)]));
    let d = vec![
        perm(),
        st("Part", vec![f("a", u(8)).cond(Ex::IsSet(Box::new(id("m")), Box::new(item("Perm", "READ")))).vals(&[7]), f("b", u(4)).cond(bin("==", id("m"), item("Perm", "EXEC"))).vals(&[3])]).params(vec![("m", r("Perm"))]),
        st("Abc", vec![f("m", r("Perm")).vals(&[1, 8, 0, 9]), f("one", ra("Part", vec![id("m")])), f("lit", ra("Part", vec![item("Perm", "EXEC")])), f("arr", ra("Part", vec![id("m")])).arr(), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parmask", "bitmask parameters", d, vec![root("parmask.Abc")]));
    let d = vec![
        st("Head", vec![f("k", u(3)).vals(&[2, 0]), f("act", s(Scalar::Bool))]).func("twice", u(8), bin("*", id("k"), n(2))),
        st("Part", vec![f("xs", u(4)).fixed(dot(id("h"), "k")), f("c", u(8)).cond(dot(id("h"), "act")).vals(&[9])]).params(vec![("h", r("Head"))]),
        st("Abc", vec![f("h", r("Head")), f("one", ra("Part", vec![id("h")])), f("arr", ra("Part", vec![id("h")])).arr(), f("opt", ra("Part", vec![id("h")])).opt(), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parstruct", "structures as parameters", d, vec![root("parstruct.Abc").alpha(2)]));
    let d = vec![
        st("Head", vec![f("k", u(3)).vals(&[2, 0])]).func("twice", u(8), bin("*", id("k"), n(2))),
        st("Part", vec![f("xs", u(4)).fixed(call(dot(id("h"), "twice"))).vals(&[4, 9])]).params(vec![("h", r("Head"))]),
        st("Abc", vec![f("h", r("Head")), f("one", ra("Part", vec![id("h")])), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parfunc", "functions of parameters", d, vec![root("parfunc.Abc").alpha(2)]));
    let d = vec![st("Part", vec![f("a", u(8)).cond(bin("==", id("t"), Ex::Str("yes".into()))).vals(&[7])]).params(vec![("t", s(Scalar::Str))]), st("Abc", vec![f("t", s(Scalar::Str)), f("one", ra("Part", vec![id("t")])), f("tail", u(2)).vals(&[2])])];
    o.push(unit("parstr", "string parameters", d, vec![root("parstr.Abc")]));
    // argument forms
    let d = vec![
        part(u(8)),
        konst("TWO", u(8), n(2)),
        st("Head", vec![f("k", u(3)).vals(&[2, 0])]).func("more", u(8), bin("+", id("k"), n(1))),
        st(
            "Abc",
            vec![
                f("h", r("Head")),
                f("k", u(4)).vals(&[1, 3]),
                f("xs", u(2)).fixed(n(2)).vals(&[1, 3]),
                f("a", ra("Part", vec![n(3)])),
                f("b", ra("Part", vec![id("TWO")])),
                f("c", ra("Part", vec![bin("+", id("k"), n(1))])),
                f("d", ra("Part", vec![dot(id("h"), "k")])),
                f("e", ra("Part", vec![Ex::Len(Box::new(id("xs")))])),
                f("g", ra("Part", vec![Ex::Idx(Box::new(id("xs")), Box::new(n(1)))])),
                f("i", ra("Part", vec![tern(bin(">", id("k"), n(2)), n(1), n(2))])),
                f("j", ra("Part", vec![call(dot(id("h"), "more"))])),
                f("l", ra("Part", vec![bin("%", bin("*", id("k"), n(3)), n(4))])).arr(),
                f("tail", u(2)).vals(&[2]),
            ],
        ),
    ];
    o.push(unit("parargs", "arguments that are constants, members, expressions", d, vec![root("parargs.Abc").alpha(2).dev(dev)]));
    let d = vec![part(u(8)), st("Abc", vec![f("k", u(4)).vals(&[1, 3]), f("a", ra("Part", vec![call(id("more"))])), f("tail", u(2)).vals(&[2])]).func("more", u(8), bin("+", id("k"), n(1)))];
    o.push(unit("parself", "arguments that call the structure's own function", d, vec![root("parself.Abc").alpha(2).dev(dev)]));
    // levels
    let d = vec![
        part(u(8)),
        st("Mid", vec![f("one", ra("Part", vec![id("m")])), f("arr", ra("Part", vec![bin("+", id("m"), n(1))])).arr(), f("opt", ra("Part", vec![id("m")])).opt()]).params(vec![("m", u(8))]),
        st("High", vec![f("one", ra("Mid", vec![id("h")])), f("arr", ra("Mid", vec![bin("*", id("h"), n(2))])).arr(), f("t", u(2)).vals(&[1])]).params(vec![("h", u(8)), ("unused", s(Scalar::Bool))]),
        st("Abc", vec![f("k", u(4)).vals(&[1, 0, 2]), f("one", ra("High", vec![id("k"), Ex::B(true)])), f("arr", ra("High", vec![n(1), Ex::B(false)])).arr(), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parlevels", "parameters passed down several levels", d, vec![root("parlevels.Abc").alpha(1).lens(&[1, 0, 2]).dev(dev), root("parlevels.High").alpha(1).dev(3).with(vec![vec![Val::Int(1), Val::Bool(true)], vec![Val::Int(0), Val::Bool(false)]])]));
    // the element index
    let d = vec![
        part(u(8)),
        ch("Pick", vec![("i", u(32))], id("i"), vec![(vec![n(0)], Some(f("x", u(5)).vals(&[9]))), (vec![n(2)], None)], Some(Some(f("y", s(Scalar::Str))))),
        st(
            "Abc",
            vec![
                f("k", u(2)).vals(&[1, 0]),
                f("a", ra("Part", vec![Ex::Index])).arr(),
                f("b", ra("Part", vec![bin("+", Ex::Index, id("k"))])).fixed(n(3)),
                f("c", ra("Pick", vec![Ex::Index])).arr(),
                f("d", ra("Part", vec![tern(bin("==", bin("%", Ex::Index, n(2)), n(0)), n(1), n(2))])).arr(),
                f("tail", u(2)).vals(&[2]),
            ],
        ),
    ];
    o.push(unit("parindex", "the element index as an argument", d, vec![root("parindex.Abc").alpha(1).lens(&[2, 0, 1, 3]).dev(dev)]));
    let d = vec![
        st("Item", vec![f("v", u(8)).vals(&[3]), f("xs", u(3)).fixed(id("k")).vals(&[6, 1])]).params(vec![("k", u(8))]),
        st("Abc", vec![f("ks", u(2)).fixed(n(3)).vals(&[1, 0, 2]), f("a", ra("Item", vec![Ex::Idx(Box::new(id("ks")), Box::new(Ex::Index))])).fixed(n(3)), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parelem", "another array's element selected by the index", d, vec![root("parelem.Abc").dev(4)]));
    let d = vec![
        st("Item", vec![f("v", u(8)).vals(&[3, 200]), f("xs", u(3)).fixed(id("k")).vals(&[6, 1]), f("y", Ty::DynU(Box::new(bin("+", id("k"), n(3))))).vals(&[7, 1])]).params(vec![("k", u(8))]),
        st("Abc", vec![f("k", u(2)).vals(&[1, 0, 2]), f("a", ra("Item", vec![id("k")])).arr().packed(), f("b", ra("Item", vec![bin("+", id("k"), n(1))])).fixed(n(2)).packed(), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parpacked", "parameterised elements of packed arrays", d, vec![root("parpacked.Abc").lens(&[1, 0, 2, 3]).dev(dev)]));
    let d = vec![
        st("Item", vec![f("v", u(8)).vals(&[3, 200]), f("xs", u(3)).fixed(id("k")).vals(&[6, 1])]).params(vec![("k", u(8))]),
        st("Abc", vec![f("a", ra("Item", vec![Ex::Index])).arr().packed(), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parpackidx", "the index as an argument in packed arrays", d, vec![root("parpackidx.Abc").lens(&[1, 0, 2, 3]).dev(dev)]));
    // nested packed elements with their own parameterised members
    let d = vec![
        st("Leaf", vec![f("v", u(8)).vals(&[3, 200]), f("c", i(16)).cond(bin(">", id("p"), n(1))).vals(&[-9, 8])]).params(vec![("p", u(8))]),
        st("Item", vec![f("n", u(2)).vals(&[1, 2]), f("l", ra("Leaf", vec![bin("+", id("n"), id("k"))])), f("ls", ra("Leaf", vec![id("n")])).arr()]).params(vec![("k", u(8))]),
        st("Abc", vec![f("k", u(2)).vals(&[0, 1]), f("a", ra("Item", vec![id("k")])).arr().packed(), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parpacknest", "parameters inside packed elements", d, vec![root("parpacknest.Abc").lens(&[1, 0, 2]).dev(dev)]));
    // several parameters of several types
    let d = vec![
        color(),
        st("Part", vec![f("a", u(8)).fixed(id("n")).vals(&[1]), f("b", u(8)).cond(bin("&&", id("act"), bin("==", id("c"), item("Color", "RED")))).vals(&[5]), f("d", Ty::DynI(Box::new(id("w")))).vals(&[-1])]).params(vec![("n", u(4)), ("act", s(Scalar::Bool)), ("c", r("Color")), ("w", u(16))]),
        st("Abc", vec![f("n", u(4)).vals(&[2, 0]), f("act", s(Scalar::Bool)), f("c", r("Color")), f("w", u(16)).vals(&[7, 33]), f("one", ra("Part", vec![id("n"), id("act"), id("c"), id("w")])), f("two", ra("Part", vec![id("w"), id("act"), id("c"), bin("+", id("n"), n(1))])).cond(bin("<", id("w"), n(8))), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parmany", "several parameters", d, vec![root("parmany.Abc").alpha(4)]));
    // subtypes of parameterised types, subtyped parameters
    let d = vec![
        sub("Count", u(8)),
        st("Part", vec![f("xs", u(4)).fixed(id("k"))]).params(vec![("k", r("Count"))]),
        sub("Alias", r("Part")),
        st("Abc", vec![f("k", r("Count")).vals(&[2, 0]), f("one", ra("Part", vec![id("k")])), f("two", ra("Alias", vec![id("k")])), f("arr", ra("Alias", vec![n(1)])).arr(), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parsub", "subtypes of parameterised types", d, vec![root("parsub.Abc").alpha(2)]));
    // names
    let d = vec![
        st("innerPart", vec![f("theData", u(4)).fixed(id("theCount"))]).params(vec![("theCount", u(8)), ("IsSet2", s(Scalar::Bool))]),
        st("Abc", vec![f("theCount", u(8)).vals(&[2, 0]), f("innerPart", ra("innerPart", vec![id("theCount"), Ex::B(true)])), f("partList", ra("innerPart", vec![id("theCount"), Ex::B(false)])).arr()]),
    ];
    o.push(unit("parnames", "names that differ from their Rust spelling", d, vec![root("parnames.Abc").alpha(2)]));
    // unions and choices as parameterised fields
    let d = vec![
        un("Either", vec![f("ua", u(8)).fixed(id("k")).vals(&[1, 2]), f("ub", Ty::DynU(Box::new(bin("+", id("k"), n(1))))), f("uc", ra("Part", vec![id("k")]))]).params(vec![("k", u(4))]),
        part(u(8)),
        ch("Pick", vec![("sel", u(8)), ("k", u(8))], id("sel"), vec![(vec![n(0)], Some(f("x", ra("Part", vec![id("k")])))), (vec![n(1)], Some(f("y", ra("Part", vec![bin("+", id("k"), id("sel"))])).arr())), (vec![n(2)], Some(f("z", ra("Either", vec![id("k")]))))], None),
        st("Abc", vec![f("k", u(2)).vals(&[1, 0]), f("sel", u(2)).vals(&[0, 1, 2]), f("p", ra("Pick", vec![id("sel"), id("k")])), f("e", ra("Either", vec![id("k")])), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("parchoice", "parameterised members of choices and unions", d, vec![root("parchoice.Abc").alpha(2).dev(dev)]));
    // every list of two or three arguments out of: a literal, a constant, a field, the index, an expression with it,
    // the own parameter, in every form of array
    let args: Vec<(&str, Ex)> = vec![("lit", n(1)), ("con", id("TWO")), ("fld", id("k")), ("idx", Ex::Index), ("sum", bin("+", Ex::Index, id("k"))), ("own", id("q"))];
    for (form, packed, offs) in [("plain", false, false), ("packed", true, false), ("offs", false, true), ("both", true, true)] {
        for (first, what) in args.iter().enumerate().map(|(j, a)| (Some(j), a.0)).chain([(None, "three")]) {
            let nm = format!("parlist{form}{what}");
            let np = if first.is_some() { 2 } else { 3 };
            let names = ["pa", "pb", "pc"];
            let mut body = vec![f("v", u(5)).vals(&[9, 31])];
            for (x, q) in names[..np].iter().enumerate() {
                body.push(f(&format!("xs{}", letters(x)), u(3 + x as u8)).fixed(id(q)).vals(&[5]));
            }
            body.push(f("z", u(6)).cond(bin(">", id("pb"), n(1))).vals(&[33]));
            let mut fs = vec![f("k", u(2)).vals(&[1, 0, 2])];
            let lists: Vec<Vec<Ex>> = match first {
                Some(j) => args.iter().map(|b| vec![args[j].1.clone(), b.1.clone()]).collect(),
                // every place of the index
                None => (0..8).map(|m| (0..3).map(|x| if m >> x & 1 > 0 { bin("+", Ex::Index, n(x as i128)) } else { args[[0, 2, 5][x]].1.clone() }).collect()).collect(),
            };
            for (x, l) in lists.into_iter().enumerate() {
                let mut y = f(&format!("f{}", letters(x)), ra("Part", l)).fixed(n(2));
                y.packed = packed;
                if offs {
                    fs.push(f(&format!("o{}", letters(x)), u(32)).fixed(n(2)).vals(&[0]));
                    fs.push(f(&format!("g{}", letters(x)), u(1)).vals(&[1]));
                    y = y.offset(Ex::Idx(Box::new(id(&format!("o{}", letters(x)))), Box::new(Ex::Index)));
                }
                fs.push(y);
            }
            fs.push(f("tail", u(2)).vals(&[2]));
            let d = vec![
                konst("TWO", u(8), n(2)),
                st("Part", body).params(names[..np].iter().map(|q| (*q, u(8))).collect()),
                st("Mid", fs).params(vec![("q", u(8))]),
                st("Abc", vec![f("h", u(3)).vals(&[3, 0]), f("m", ra("Mid", vec![id("h")])), f("ms", ra("Mid", vec![Ex::Index])).fixed(n(2))]),
            ];
            o.push(unit(&nm, "lists of arguments", d, vec![root(&format!("{nm}.Abc")).alpha(2).dev(1)]));
        }
    }
    o
}
