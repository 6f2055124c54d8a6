//! C12: structures of every field kind.
use super::*;

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let dev = if thorough { 2 } else { 1 };
    // every builtin type as a field, off byte boundaries
    let fs = kinds().iter().enumerate().map(|(i, k)| f(&vn(i), s(*k))).collect();
    o.push(unit("builtin", "a field of every builtin type", vec![st("Abc", fs)], vec![root("builtin.Abc").alpha(12).dev(dev)]));
    for (name, sg) in [("ubits", false), ("ibits", true)] {
        let fs = (1..=64).map(|w| f(&vn(w), if sg { i(w as u8) } else { u(w as u8) })).collect();
        o.push(unit(name, "bit fields of every width", vec![st("Abc", fs)], vec![root(&format!("{name}.Abc")).alpha(14).dev(1)]));
    }
    // arrays of every builtin type
    for (name, mode) in [("plainarr", 0), ("fixedarr", 1), ("packedarr", 2), ("packedfix", 3)] {
        let fs = kinds()
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let x = f(&vn(i), s(*k));
                match mode {
                    0 => x.arr(),
                    1 => x.fixed(n(2)),
                    2 => x.arr().packed(),
                    _ => x.fixed(n(3)).packed(),
                }
            })
            .collect();
        o.push(unit(name, "arrays of every builtin type", vec![st("Abc", fs)], vec![root(&format!("{name}.Abc")).alpha(4).lens(&[1, 0, 2, 3]).dev(2)]));
    }
    // one packable kind at a time with longer sequences
    for (name, k) in [("packu", Scalar::U(8)), ("packi", Scalar::I(16)), ("packv", Scalar::VarU), ("packs", Scalar::Var32), ("packq", Scalar::U(64)), ("packj", Scalar::I(64)), ("packb", Scalar::U(5))] {
        let t = st("Abc", vec![f("head", u(1)), f("arr", s(k)).arr().packed(), f("tail", u(8)).vals(&[0xa5])]);
        o.push(unit(name, "a packed array", vec![t], vec![root(&format!("{name}.Abc")).alpha(if thorough { 6 } else { 4 }).lens(&[1, 0, 2, 3, 4])]));
    }
    // length prefixes of two bytes, long packed runs
    let t = st(
        "Abc",
        vec![f("head", u(3)).vals(&[5]), f("arr", u(8)).arr().vals(&[7, 200]).lens(&[127, 128, 129]), f("tail", u(2)).vals(&[1])],
    );
    o.push(unit("lengths", "length prefixes of several bytes", vec![t], vec![root("lengths.Abc").dev(1)]));
    // lengths from expressions
    let t = st(
        "Abc",
        vec![
            f("num", u(4)).vals(&[2, 0, 1, 3]),
            f("arr", u(3)).fixed(id("num")).vals(&[5, 2]),
            f("brr", i(16)).fixed(bin("+", id("num"), n(1))).packed().vals(&[-3, 4000]),
            f("crr", s(Scalar::Str)).fixed(bin("*", id("num"), n(2))),
        ],
    );
    o.push(unit("exprlen", "array lengths from expressions", vec![t], vec![root("exprlen.Abc").alpha(2).dev(3)]));
    // bit<expr>
    let widths: Vec<i128> = (1..=64).collect();
    let t = st(
        "Abc",
        vec![
            f("wid", u(7)).vals(&widths),
            f("val", Ty::DynU(Box::new(id("wid")))),
            f("sgn", Ty::DynI(Box::new(id("wid")))),
            f("arr", Ty::DynU(Box::new(id("wid")))).arr(),
            f("tail", u(2)).vals(&[2]),
        ],
    );
    o.push(unit("dynbits", "bit fields sized by expressions", vec![t], vec![root("dynbits.Abc").alpha(5).dev(2).lens(&[2, 0])]));
    let t = st(
        "Abc",
        vec![
            f("wid", u(8)).vals(&[3, 1, 31, 62]),
            f("val", Ty::DynU(Box::new(bin("+", id("wid"), n(2))))),
            f("arr", Ty::DynU(Box::new(id("wid")))).arr().packed(),
            f("brr", Ty::DynI(Box::new(id("wid")))).fixed(n(2)).packed(),
            f("crr", Ty::DynI(Box::new(bin("+", id("wid"), n(1))))).arr(),
        ],
    );
    o.push(unit("dynexpr", "bit fields sized by arithmetic, packed", vec![t], vec![root("dynexpr.Abc").alpha(4).dev(2).lens(&[2, 0, 3])]));
    let t = st("Abc", vec![f("val", Ty::DynU(Box::new(id("WIDTH")))), f("arr", Ty::DynI(Box::new(bin("-", id("WIDTH"), n(2))))).arr(), f("tail", u(1))]);
    o.push(unit("dynconst", "bit fields sized by a constant", vec![konst("WIDTH", s(Scalar::U(8)), n(11)), t], vec![root("dynconst.Abc").alpha(5)]));
    let t = st("Abc", vec![f("wid", u(64)).vals(&[3, 40]), f("val", Ty::DynU(Box::new(id("wid")))), f("wis", i(16)).vals(&[7, 64]), f("vas", Ty::DynI(Box::new(id("wis"))))]);
    o.push(unit("dynwide", "bit fields sized by fields of other types", vec![t], vec![root("dynwide.Abc").alpha(5)]));
    // nested types and subtypes
    let d = vec![
        st("Leaf", vec![f("xa", u(5)), f("xb", s(Scalar::VarU))]),
        st("Empty", vec![]),
        sub("Alias", r("Leaf")),
        sub("Deeper", r("Alias")),
        sub("Width", u(11)),
        sub("Wider", r("Width")),
        sub("Text", s(Scalar::Str)),
        st("Mid", vec![f("flag", s(Scalar::Bool)), f("leaf", r("Leaf")), f("nil", r("Empty")), f("deep", r("Deeper"))]),
        st(
            "Abc",
            vec![
                f("pre", u(3)),
                f("mid", r("Mid")),
                f("leaves", r("Deeper")).arr(),
                f("fixl", r("Leaf")).fixed(n(2)),
                f("wid", r("Wider")),
                f("wids", r("Wider")).arr(),
                f("widp", r("Width")).arr().packed(),
                f("txt", r("Text")),
                f("txts", r("Text")).arr(),
                f("nils", r("Empty")).arr(),
                f("post", i(3)),
            ],
        ),
    ];
    o.push(unit("nested", "nested structures, subtypes and arrays of them", d, vec![root("nested.Abc").alpha(4).dev(2), root("nested.Empty")]));
    // recursion through an array
    let d = vec![st("Tree", vec![f("val", u(8)).vals(&[9, 250]), f("kids", r("Tree")).arr().lens(&[0, 1, 2])])];
    o.push(unit("recurse", "a structure that contains an array of itself", d, vec![root("recurse.Tree").lens(&[0, 1, 2]).dev(3)]));
    // names
    let d = vec![
        st("innerType", vec![f("theValue", u(7))]),
        st(
            "UPPERCase",
            vec![
                f("camelCase", u(3)),
                f("with_under", u(3)),
                f("num2", u(4)),
                f("type", u(8)),
                f("inner", r("innerType")),
                f("listOf3", r("innerType")).fixed(bin("+", id("camelCase"), n(0))),
                f("dyn2Val", Ty::DynU(Box::new(id("num2")))),
                f("self", s(Scalar::Bool)),
                f("optVal", s(Scalar::Str)).opt(),
            ],
        ),
    ];
    let mut d = d;
    if let Kind::Struct { fields } = &mut d[1].kind {
        fields[0].vals = Some(vec![1, 0, 2]);
        fields[2].vals = Some(vec![5, 1, 15]);
    }
    o.push(unit("names", "names that differ from their Rust spelling", d, vec![root("names.UPPERCase").alpha(2)]));
    // sequences of non-byte fields followed by blobs
    let t = st(
        "Abc",
        vec![
            f("pre", u(3)),
            f("txt", s(Scalar::Str)),
            f("ext", s(Scalar::Extern)),
            f("byt", s(Scalar::Bytes)),
            f("exts", s(Scalar::Extern)).arr(),
            f("byts", s(Scalar::Bytes)).arr(),
            f("flg", s(Scalar::Bool)),
        ],
    );
    o.push(unit("blobs", "strings and buffers off byte boundaries", vec![t], vec![root("blobs.Abc").alpha(5).dev(if thorough { 4 } else { 3 })]));
    // implicit arrays
    let t = st("Abc", vec![f("head", u(8)), f("arr", u(8)).implicit()]);
    o.push(unit("implicitb", "an implicit array at the end", vec![t], vec![root("implicitb.Abc").alpha(3).lens(&[2, 0, 1, 3])]));
    let t = st("Abc", vec![f("arr", i(32)).implicit()]);
    o.push(unit("implicitw", "an implicit array of wide elements", vec![t], vec![root("implicitw.Abc").alpha(3).lens(&[2, 0, 1, 3])]));
    let t = st("Abc", vec![f("head", u(3)), f("arr", i(13)).implicit()]);
    o.push(unit("implicitn", "an implicit array of odd elements", vec![t], vec![root("implicitn.Abc").alpha(3).lens(&[1, 0, 2])]));
    let t = st("Abc", vec![f("head", s(Scalar::Bool)), f("arr", s(Scalar::F32)).implicit().opt()]);
    o.push(unit("implicitf", "an optional implicit array", vec![t], vec![root("implicitf.Abc").alpha(3).lens(&[2, 0, 1, 3])]));
    o.extend(idents());
    o
}

/// Words of Rust that are names in zserio.
const WORDS: [&str; 44] = [
    "abstract", "as", "async", "await", "become", "box", "break", "continue", "crate", "do", "dyn", "else_", "final", "fn", "for", "impl", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "static", "super", "trait", "try", "typeof", "unsafe",
    "unsized", "use", "virtual", "where", "while", "yield", "self", "type", "gen", "raw", "macro_rules",
];
/// Names the generated code uses itself.
const INNER: [&str; 25] = [
    "reader", "writer", "context_node", "initial_value", "optional_value", "present", "end_position", "bit_position", "zs_item", "param_index", "item", "array", "value", "result", "node", "children", "element", "index", "selector_", "i", "x", "z_type", "clone", "length", "data",
];
/// Types, fields, functions and packages called like something in Rust or the generated code.
fn idents() -> Vec<Unit> {
    let mut o = vec![];
    let cap = |t: &str| format!("{}{}", t[..1].to_uppercase(), &t[1..]);
    // types
    let mut types: Vec<String> = WORDS.iter().map(|t| cap(t)).collect();
    types.extend(["Result", "BitReader", "BitWriter", "PackingContextNode", "DeltaContext", "Default", "Array", "Ok", "Err", "Some", "None", "Copy", "Clone", "Debug", "PartialEq", "Error", "Ztype", "Rc", "RefCell", "Std", "Core", "Usize", "Iterator", "From", "Into", "TryFrom", "Option", "String", "Vec", "Selector", "Main", "Test", "Lib"].map(String::from));
    for (j, kind) in ["struct", "union", "choice", "enum", "bitmask", "subtype"].iter().enumerate() {
        let mut ds = vec![st("Leaf", vec![f("v", u(9))])];
        let mut fs = vec![f("sel", u(8)).vals(&[0, 1, 2])];
        for (i, t) in types.iter().enumerate() {
            // the macro of the bitmask crate does not stand a type of that name
            if j == 4 && t == "PartialEq" {
                continue;
            }
            ds.push(match j {
                0 => st(t, vec![f("a", u(8)), f("b", s(Scalar::Str)).opt(), f("c", s(Scalar::Str)).arr(), f("d", s(Scalar::Bytes)), f("e", r("Leaf")).arr().packed()]).func("twice", u(16), bin("*", id("a"), n(2))),
                1 => un(t, vec![f("a", u(8)), f("b", s(Scalar::Str)), f("c", u(3)).arr()]),
                2 => ch(t, vec![("sel", u(8))], id("sel"), vec![(vec![n(0)], Some(f("a", u(8)))), (vec![n(1)], Some(f("b", s(Scalar::Str)).arr()))], Some(None)),
                3 => en(t, u(5), &[("RED", None, 0), ("BLUE", None, 1)]),
                4 => bm(t, u(5), &[("RED", None, 1), ("BLUE", None, 2)]),
                _ => sub(t, u(7)),
            });
            let ty = if j == 2 { ra(t, vec![id("sel")]) } else { r(t) };
            let x = f(&vn(i), ty);
            fs.push(match i % 4 {
                0 => x,
                1 => x.opt(),
                2 => x.arr().lens(&[1]),
                _ => x.arr().packed().lens(&[1, 2]),
            });
        }
        ds.push(st("Abc", fs));
        let nm = format!("idt{}", letters(j));
        o.push(unit(&nm, &format!("{kind} types called like Rust's or the generated code's own names"), ds, vec![root(&format!("{nm}.Abc")).alpha(2).dev(1)]));
    }
    // members, parameters, functions, items, cases
    for (j, ws) in [&WORDS[..], &INNER[..]].iter().enumerate() {
        let nm = |k: usize| format!("idm{}{}", letters(j), letters(k));
        let mem = |i: usize, w: &str| {
            let ty = [u(8), s(Scalar::Str), r("Leaf"), i_(16)][i % 4].clone();
            let x = f(w, ty);
            match i % 7 {
                0 | 1 => x,
                2 => x.opt(),
                3 => x.arr(),
                4 => x.arr().packed(),
                5 => x.cond(bin("==", id("sel"), n(1))),
                _ => x.fixed(n(2)),
            }
        };
        let leaf = || st("Leaf", vec![f("v", u(9))]);
        // strings and the like have no packed arrays
        let mem = |i: usize, w: &str| {
            let x = mem(i, w);
            if x.packed && !matches!(i % 4, 0 | 3) {
                f(w, u(8)).arr().packed()
            } else {
                x
            }
        };
        let mut fs = vec![f("sel", u(8)).vals(&[0, 1])];
        fs.extend(ws.iter().enumerate().map(|(i, w)| mem(i, w)));
        let nx = nm(0);
        o.push(unit(&nx, "fields", vec![leaf(), st("Abc", fs)], vec![root(&format!("{nx}.Abc")).alpha(2).lens(&[1, 0]).dev(1)]));
        let nx = nm(1);
        o.push(unit(&nx, "members of a union", vec![leaf(), un("Pick", ws.iter().enumerate().map(|(i, w)| f(w, [u(8), s(Scalar::Str), r("Leaf"), i_(16)][i % 4].clone())).collect()), st("Abc", vec![f("pick", r("Pick")), f("picks", r("Pick")).arr().packed()])], vec![root(&format!("{nx}.Abc")).alpha(1).lens(&[1, 0]).dev(2)]));
        let nx = nm(2);
        let cases = ws.iter().enumerate().map(|(i, w)| (vec![n(i as i128)], Some(f(w, [u(8), s(Scalar::Str), r("Leaf"), i_(16)][i % 4].clone())))).collect();
        o.push(unit(&nx, "members of a choice", vec![leaf(), ch("Pick", vec![("sel", u(8))], id("sel"), cases, None), st("Abc", vec![f("sel", u(8)).vals(&(0..ws.len() as i128).collect::<Vec<_>>()), f("pick", ra("Pick", vec![id("sel")]))])], vec![root(&format!("{nx}.Abc")).alpha(2)]));
        let nx = nm(3);
        let ps: Vec<(&str, Ty)> = ws.iter().map(|w| (*w, u(4))).collect();
        let part = st("Part", ws.iter().enumerate().map(|(i, w)| if i % 2 == 0 { f(&vn(i), u(3)).fixed(id(w)) } else { f(&vn(i), Ty::DynU(Box::new(bin("+", id(w), n(1))))) }).collect()).params(ps);
        let args = (0..ws.len()).map(|i| if i % 2 == 0 { id("k") } else { n(i as i128 % 5) }).collect::<Vec<_>>();
        o.push(unit(&nx, "parameters", vec![part, st("Abc", vec![f("k", u(4)).vals(&[1, 0, 2]), f("one", ra("Part", args.clone())), f("arr", ra("Part", args.clone())).arr(), f("pck", ra("Part", args)).arr().packed()])], vec![root(&format!("{nx}.Abc")).alpha(1).lens(&[1, 0]).dev(1)]));
        let nx = nm(4);
        let mut d = st("Abc", vec![f("k", u(4)).vals(&[1, 3])]);
        let mut fs = vec![f("abc", r("Abc"))];
        for (i, w) in ws.iter().enumerate() {
            d = d.func(w, u(16), bin("+", id("k"), n(i as i128)));
            fs.push(f(&vn(i), u(2)).cond(bin(">", call(dot(id("abc"), w)), n(i as i128 + 2))));
        }
        o.push(unit(&nx, "functions", vec![d, st("Outer", fs)], vec![root(&format!("{nx}.Abc")), root(&format!("{nx}.Outer")).dev(2).alpha(1)]));
        let nx = nm(5);
        let list: Vec<(&str, Option<Ex>, i128)> = ws.iter().enumerate().map(|(i, x)| (*x, None, i as i128)).collect();
        let bits: Vec<(&str, Option<Ex>, i128)> = ws.iter().enumerate().map(|(i, x)| (*x, None, 1i128 << i)).collect();
        let mut ds = vec![en("Kind", u(8), &list), bm("Mask", u(64), &bits)];
        ds.push(st("Abc", vec![f("e", r("Kind")), f("m", r("Mask")), f("ks", r("Kind")).arr().packed(), f("c", u(3)).cond(bin("==", id("e"), item("Kind", ws[1]))), f("d", u(3)).cond(Ex::IsSet(Box::new(id("m")), Box::new(item("Mask", ws[2]))))]));
        o.push(unit(&nx, "items of enums and bitmasks", ds, vec![root(&format!("{nx}.Abc")).alpha(60).lens(&[1]).dev(2)]));
        let nx = nm(6);
        let mut ds: Vec<Decl> = ws.iter().enumerate().map(|(i, w)| konst(&w.to_uppercase(), u(8), n(i as i128 % 6 + 1))).collect();
        ds.push(st("Abc", ws.iter().enumerate().map(|(i, w)| if i % 2 == 0 { f(&vn(i), u(3)).fixed(id(&w.to_uppercase())).vals(&[1]) } else { f(&vn(i), Ty::DynU(Box::new(id(&w.to_uppercase())))).vals(&[1, 0]) }).collect()));
        o.push(unit(&nx, "constants", ds, vec![root(&format!("{nx}.Abc")).dev(1)]));
    }
    o
}
fn i_(w: u8) -> Ty {
    s(Scalar::I(w))
}
