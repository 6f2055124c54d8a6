//! C24: schemas that are in the grammar but declare a name twice or refer to something that does not exist, each
//! beside the schema it was made from.
use crate::ast::letters;

pub struct Rule {
    /// the name of its package and directory
    pub name: String,
    pub what: String,
    pub text: String,
    /// other files of the schema: path, text
    pub more: Vec<(String, String)>,
    /// a well-formed one: shows that the others are refused for what they break
    pub good: bool,
}

/// What is declared everywhere.
const BASE: &str = "const uint8 KAY = 3; const uint8 LEN = 2; enum uint8 En { A, B = 7, C }; enum uint8 Fn { A, D }; bitmask uint8 Ma { X, Y }; subtype uint16 Su; struct Leaf { uint8 v; Ma m; function uint8 get() { return v; } }; struct Pa(uint8 p) { uint8 w[p]; }; struct Box<T> { T t; }; struct Two<T, U> { T t; U u; }; choice Ch(uint8 s) on s { case 1: uint8 a; default: ; }; union Un { uint8 a; bool b; }; union Tu<T, U> { T t; U u; }; choice Tc<T, U>(uint8 s) on s { case 1: T t; default: U u; };";

pub fn rules() -> Vec<Rule> {
    let mut o: Vec<Rule> = vec![];
    let mut n = 0;
    let mut adds = |fam: &str, good: bool, what: String, text: String, more: &[(&str, &str)]| {
        let name = format!("{fam}{}", letters(n));
        n += 1;
        let more = more.iter().map(|(p, t)| (p.to_string(), t.to_string())).collect();
        o.push(Rule { what, text: format!("package {name};\n{}\n", text.replace("PACKAGE", &name)), more, name, good });
    };
    // packages
    let pk = ("more/pk.zs", "package more.pk; import more.far.*; struct Leaf { uint8 v; }; const uint8 KAY = 3; enum uint8 En { A }; struct Uses { Far f; };");
    let far = ("more/far.zs", "package more.far; struct Far { uint8 v; }; const uint8 FARK = 3;");
    let dup = ("more/dup.zs", "package more.dup; struct Leaf { uint16 w; }; struct Other { bool b; };");
    let all = [pk, far, dup];
    for (what, imp, body, good) in [
        ("a package", "import more.pk.*;", "struct Abc { Leaf x; };", true),
        ("one type", "import more.pk.Leaf;", "struct Abc { Leaf x; };", true),
        ("one constant", "import more.pk.KAY;", "struct Abc { uint8 x[KAY]; };", true),
        ("two packages", "import more.pk.*; import more.dup.Other;", "struct Abc { Leaf x; Other y; };", true),
        ("two packages that declare one name, which is not used", "import more.pk.*; import more.dup.*;", "struct Abc { Other x; En e; };", true),
        ("nothing", "", "struct Abc { Leaf x; };", false),
        ("nothing for a constant", "", "struct Abc { uint8 x[KAY]; };", false),
        ("nothing for an item", "", "struct Abc { uint8 x if En.A == En.A; };", false),
        ("a type that is not there", "import more.pk.Nope;", "struct Abc { uint8 x; };", false),
        ("a used type that is not there", "import more.pk.Nope;", "struct Abc { Nope x; };", false),
        ("a package that is not there", "import more.nope.*;", "struct Abc { uint8 x; };", false),
        ("a package that is not there, for a type", "import more.nope.Leaf;", "struct Abc { Leaf x; };", false),
        ("a package of another place", "import nope.pk.Leaf;", "struct Abc { Leaf x; };", false),
        ("a directory", "import more.*;", "struct Abc { uint8 x; };", false),
        ("a type as a package", "import more.pk.Leaf.*;", "struct Abc { uint8 x; };", false),
        ("one name from two packages", "import more.pk.Leaf; import more.dup.Leaf;", "struct Abc { Leaf x; };", false),
        ("one name from two whole packages", "import more.pk.*; import more.dup.*;", "struct Abc { Leaf x; };", false),
        ("a field named by another package", "import more.pk.*;", "struct Abc { Leaf x; uint8 y[v]; };", false),
        ("the package by another name", "import more.pk.*;", "struct Abc { more.far.Leaf x; };", false),
        ("the package by its last name", "import more.pk.*;", "struct Abc { pk.Leaf x; };", false),
    ] {
        adds(if good { "ig" } else { "ib" }, good, format!("importing {what}"), format!("{imp} {body}"), &all);
    }
    for (what, path, text) in [
        ("a file of another package", "more/pk.zs", "package more.other; struct Leaf { uint8 v; };"),
        ("a file of a package of another depth", "more/pk.zs", "package pk; struct Leaf { uint8 v; };"),
        ("a file with an error in it", "more/pk.zs", "package more.pk; struct Leaf { uint8 v; }"),
        ("a file with an error at its start", "more/pk.zs", "pakcage more.pk; struct Leaf { uint8 v; };"),
        ("a file with an error in between", "more/pk.zs", "package more.pk; struct Mid { uint8 8; }; struct Leaf { uint8 v; };"),
        ("a file with an unknown name", "more/pk.zs", "package more.pk; struct Leaf { Nope v; };"),
        ("a file with an unknown name elsewhere", "more/pk.zs", "package more.pk; struct Leaf { uint8 v; }; struct Other { uint8 x[nope]; };"),
        ("a file with a name twice", "more/pk.zs", "package more.pk; struct Leaf { uint8 v; }; struct Other { uint8 v; uint8 v; };"),
    ] {
        adds("ib", false, format!("importing {what}"), "import more.pk.*; struct Abc { Leaf x; };".into(), &[(path, text)]);
    }
    let mut add = |fam: &str, good: bool, what: String, text: String| adds(fam, good, what, text, &[]);
    // two declarations of one name
    let decls = [
        ("structure", "struct NAME { uint8 a; };"), ("other structure", "struct NAME { uint16 b; string c; };"), ("template", "struct NAME<T> { T a; };"), ("parametrised", "struct NAME(uint8 p) { uint8 a[p]; };"),
        ("choice", "choice NAME(bool s) on s { case true: uint8 a; default: ; };"), ("union", "union NAME { uint8 a; uint16 b; };"), ("template union", "union NAME<T> { T a; uint16 b; };"),
        ("template choice", "choice NAME<T>(bool s) on s { case true: T a; default: ; };"), ("enum", "enum uint8 NAME { A, B };"), ("bitmask", "bitmask uint8 NAME { A, B };"), ("subtype", "subtype uint32 NAME;"),
        ("constant", "const uint8 NAME = 5;"), ("instantiation", "instantiate Box<uint8> NAME;"), ("other instantiation", "instantiate Two<uint8, bool> NAME;"),
    ];
    for (a, x) in decls {
        let base = format!("struct Box<T> {{ T t; }}; struct Two<T, U> {{ T t; U u; }}; {x}");
        add("dg", true, format!("{a} alone"), base.replace("NAME", "Abc"));
        for (b, y) in decls {
            add("db", false, format!("{a} and {b} of one name"), format!("{base} {y}").replace("NAME", "Abc"));
            add("db", false, format!("{a} and {b} of one name, apart and used"), format!("struct Box<T> {{ T t; }}; struct Two<T, U> {{ T t; U u; }}; {} struct Use {{ uint8 z; }}; {}", x, y).replace("NAME", "Abc"));
        }
    }
    // two members of one name
    for (what, t) in [
        ("fields of a structure", "struct Abc { uint8 a; MID uint8 b; };"),
        ("fields of different types", "struct Abc { uint8 a; MID string b; };"),
        ("optional fields", "struct Abc { optional uint8 a; MID optional uint8 b; };"),
        ("fields of a union", "union Abc { uint8 a; MID uint16 b; };"),
        ("cases of a choice", "choice Abc(uint8 s) on s { case 1: uint8 a; case 2: uint16 b; default: ; };"),
        ("case and default of a choice", "choice Abc(uint8 s) on s { case 1: uint8 a; default: uint16 b; };"),
        ("parameters", "struct Abc(uint8 a, uint8 b) { uint8 x[a]; };"),
        ("parameters of different types", "struct Abc(uint8 a, bool b) { uint8 x[1]; };"),
        ("parameter and field", "struct Abc(uint8 a) { uint8 b; };"),
        ("parameter and case", "choice Abc(uint8 a) on a { case 1: uint8 b; default: ; };"),
        ("functions", "struct Abc { uint8 x; function uint8 a() { return x; } function uint8 b() { return 1; } };"),
        ("items of an enum", "enum uint8 Abc { a, b };"),
        ("items of an enum, apart", "enum uint8 Abc { a = 3, other, b };"),
        ("values of an enum", "enum uint8 Abc { x = 1, y = VALUE };"),
        ("flags of a bitmask", "bitmask uint8 Abc { a, b };"),
    ] {
        for mid in ["", "int16 mid;"] {
            if mid.is_empty() || t.contains("MID") {
                let t = t.replace("MID", mid);
                add("mg", true, format!("{what} of different names"), t.replace("VALUE", "2"));
                add("mb", false, format!("{what} of one name or value"), t.replace(" b;", " a;").replace(" b,", " a,").replace(" b)", " a)").replace(" b(", " a(").replace(" b }", " a }").replace("VALUE", "1"));
            }
        }
    }
    // names of types: HOLE in every place a type can be named
    let types = [
        ("field", "struct Abc { HOLE x; };", "Leaf"), ("optional field", "struct Abc { optional HOLE x; };", "Leaf"), ("array", "struct Abc { HOLE x[]; };", "Leaf"), ("packed array", "struct Abc { packed HOLE x[]; };", "Leaf"),
        ("fixed array", "struct Abc { HOLE x[2]; };", "Su"), ("second field", "struct Abc { uint8 y; HOLE x; };", "En"), ("parameter", "struct Abc(HOLE p) { uint8 x; };", "Leaf"),
        ("case", "choice Abc(uint8 s) on s { case 1: HOLE a; default: ; };", "Leaf"), ("default", "choice Abc(uint8 s) on s { case 1: uint8 b; default: HOLE a; };", "Leaf"), ("choice parameter", "choice Abc(HOLE s) on s { case 1: uint8 b; default: ; };", "Su"),
        ("union", "union Abc { uint8 b; HOLE a; };", "Leaf"), ("subtype", "subtype HOLE Abc; struct Bcd { Abc x; };", "Leaf"), ("constant", "const HOLE ABC = 1;", "Su"), ("enum", "enum HOLE Abc { A };", "Su"), ("bitmask", "bitmask HOLE Abc { A };", "Su"),
        ("template argument", "struct Abc { Box<HOLE> x; };", "Leaf"), ("second template argument", "struct Abc { Two<uint8, HOLE> x; };", "Leaf"), ("nested template argument", "struct Abc { Box<Box<HOLE>> x; };", "Leaf"),
        ("instantiation", "instantiate Box<HOLE> Abc; struct Bcd { Abc x; };", "Leaf"), ("inside of a template", "struct Abc<T> { T a; HOLE b; }; struct Bcd { Abc<uint8> x; };", "Leaf"), ("with arguments", "struct Abc { HOLE(1) x; };", "Pa"),
        ("array with arguments", "struct Abc { HOLE(1) x[]; };", "Pa"), ("template", "struct Abc { HOLE<uint8> x; };", "Box"), ("instantiated template", "instantiate HOLE<uint8> Abc; struct Bcd { Abc x; };", "Box"), ("function", "struct Abc { Leaf l; function HOLE f() { return l; } };", "Leaf"),
    ];
    for (what, t, good) in types {
        add("tg", true, format!("type of {what}"), format!("{BASE} {t}").replace("HOLE", good));
        let mut bads: Vec<String> = vec!["Nope".into(), good.to_lowercase(), good.to_uppercase(), format!("{good}x"), good[..1].into(), format!("Nope.{good}"), format!("nope.{good}"), format!("PACKAGE.nope.{good}"), "PACKAGE.Nope".into(), format!("{good}.{good}"), "v".into(), "KAY".into(), "A".into()];
        if what.contains("template") {
            bads.push("T".into());
        }
        bads.retain(|b| !(what == "inside of a template" && b == "T"));
        for b in bads {
            add("tb", false, format!("type of {what}: {b} instead of {good}"), format!("{BASE} {t}").replace("HOLE", &b));
        }
    }
    // names of values
    let values = [
        ("condition", "struct Abc { uint8 f; Leaf l; En e; uint8 x if HOLE == 1; };", "f"), ("array length", "struct Abc { uint8 f; Leaf l; uint8 x[HOLE]; };", "f"), ("constant array length", "struct Abc { uint8 x[HOLE]; };", "LEN"),
        ("width", "struct Abc { uint8 f; Leaf l; bit<HOLE> x; };", "f"), ("function", "struct Abc { uint8 f; Leaf l; function uint8 fun() { return HOLE; } };", "f"), ("argument", "struct Abc { uint8 f; Leaf l; Pa(HOLE) x; };", "f"),
        ("argument of an array", "struct Abc { uint8 f; Leaf l; Pa(HOLE) x[]; };", "f"), ("argument of an optional", "struct Abc { uint8 f; Leaf l; optional Pa(HOLE) x; };", "f"), ("argument of a case", "choice Abc(uint8 f, Leaf l) on f { case 1: Pa(HOLE) x; default: ; };", "f"),
        ("argument of a union member", "union Abc(uint8 f, Leaf l) { Pa(HOLE) x; bool y; };", "f"), ("selector", "choice Abc(uint8 f, Leaf l) on HOLE { case 1: uint8 x; default: ; };", "f"), ("constant", "const uint8 ABC = HOLE;", "KAY"),
        ("enum value", "enum uint8 Abc { P = HOLE, Q = 77 };", "KAY"), ("bitmask value", "bitmask uint8 Abc { P = HOLE, Q = 64 };", "KAY"), ("operand", "struct Abc { uint8 f; Leaf l; uint8 x if 1 + HOLE * 2 == 1; };", "f"),
        ("ternary", "struct Abc { uint8 f; Leaf l; function uint8 fun() { return f > 2 ? HOLE : f; } };", "f"), ("offset", "struct Abc { uint8 f; Leaf l; HOLE: uint8 x; };", "f"), ("label", "choice Abc(uint8 f) on f { case HOLE: uint8 x; default: ; };", "KAY"),
        ("second label", "choice Abc(uint8 f) on f { case 9: case HOLE: uint8 x; default: ; };", "KAY"), ("numbits", "struct Abc { uint8 f; Leaf l; bit<numbits(HOLE)> x; };", "f"), ("function of a template", "struct Abc<T> { T f; Leaf l; function uint8 fun() { return HOLE; } }; struct Bcd { Abc<uint8> x; };", "f"),
        ("condition in a template", "struct Abc<T> { T f; Leaf l; uint8 x if HOLE == 1; }; struct Bcd { Abc<uint8> x; };", "f"),
    ];
    for (what, t, good) in values {
        add("vg", true, format!("value in {what}"), format!("{BASE} {t}").replace("HOLE", good));
        let mut bads = vec!["nope".to_string(), format!("{good}x"), "En.NOPE".into(), "Nope.A".into(), "nope.A".into(), "PACKAGE.NOPE".into(), "PACKAGE.nope.KAY".into(), "Ma.Z".into(), "nope()".into(), "valueof(En.NOPE)".into(), "lengthof(nope)".into(), "D".into(), "En.KAY".into(), "Ma.KAY".into(), "En.D".into(), "En.A.A".into(), "En.a".into(), "En.b".into(), "Ma.x".into(), "En.AB".into(), "En.A1".into(), "EN.A".into(), "en.A".into(), "KAY.KAY".into(), "valueof(KAY)".into()];
        if t.contains("Leaf l") {
            bads.extend(["l.nope", "l.nope()", "l.v.nope", "l.get.nope", "v", "get()", "Leaf.v", "w", "f.v", "f.f", "l.f", "l.KAY", "l.En.A", "l.Leaf", "e.A", "l.m.X.X", "l.get().v"].map(String::from));
        }
        bads.push(if good == "f" { "F".into() } else { good.to_lowercase() });
        bads.dedup();
        for b in bads {
            add("vb", false, format!("value in {what}: {b} instead of {good}"), format!("{BASE} {t}").replace("HOLE", &b));
        }
    }
    // numbers of arguments
    for (what, t, good, bads) in [
        ("template arguments", "struct Abc { HOLE x; };", "Box<uint8>", vec!["Box", "Box<uint8, uint8>", "Leaf<uint8>", "En<uint8>", "Su<uint8>", "Un<uint8>"]),
        ("two template arguments", "struct Abc { HOLE x; };", "Two<uint8, bool>", vec!["Two", "Two<uint8>", "Two<uint8, bool, bool>", "Two<Two<uint8>, bool>", "Box<Two>"]),
        ("template arguments in an array", "struct Abc { HOLE x[]; };", "Two<uint8, bool>", vec!["Two", "Two<uint8>", "Two<uint8, bool, bool>"]),
        ("template arguments of an instantiation", "instantiate HOLE Abc; struct Bcd { Abc x; };", "Two<uint8, bool>", vec!["Two", "Two<uint8>", "Two<uint8, bool, bool>", "Leaf"]),
        ("template arguments of a union", "struct Abc { HOLE x; };", "Tu<uint8, bool>", vec!["Tu", "Tu<uint8>", "Tu<uint8, bool, bool>", "Tu<uint8, Tu<bool>>"]),
        ("template arguments of a choice", "struct Abc { HOLE x; };", "Tc<uint8, bool>(1)", vec!["Tc(1)", "Tc<uint8>(1)", "Tc<uint8, bool, bool>(1)", "Tc<uint8, bool>", "Tc<uint8, bool>(1, 2)", "Tu<uint8, Tc<bool>(1)>"]),
        ("template arguments of an instantiated union", "instantiate HOLE Abc; struct Bcd { Abc x; };", "Tu<uint8, bool>", vec!["Tu", "Tu<uint8>", "Tu<uint8, bool, bool>"]),
        ("template arguments of an instantiated choice", "instantiate HOLE Abc; struct Bcd { Abc(1) x; };", "Tc<uint8, bool>", vec!["Tc", "Tc<uint8>", "Tc<uint8, bool, bool>"]),
        ("template arguments of a packed array of unions", "struct Abc { packed HOLE x[]; };", "Tu<uint8, bool>", vec!["Tu", "Tu<uint8>", "Tu<uint8, bool, bool>"]),
        ("template arguments inside of a template", "struct Abc<T> { HOLE x; }; struct Bcd { Abc<uint8> a; };", "Tu<T, bool>", vec!["Tu", "Tu<T>", "Tu<T, bool, T>"]),
        ("template arguments of a subtype", "subtype HOLE Abc; struct Bcd { Abc x; };", "Two<uint8, bool>", vec!["Two", "Two<uint8>", "Two<uint8, bool, bool>"]),
        ("arguments", "struct Abc { HOLE x; };", "Pa(1)", vec!["Pa", "Pa(1, 2)", "Leaf(1)", "Un(1)", "Box<uint8>(1)", "Ch", "Ch(1, 2)"]),
        ("arguments in an array", "struct Abc { HOLE x[]; };", "Pa(1)", vec!["Pa", "Pa(1, 2)", "Leaf(1)", "Ch"]),
        ("arguments of an optional", "struct Abc { optional HOLE x; };", "Pa(1)", vec!["Pa", "Pa(1, 2)", "Leaf(1)", "Ch"]),
        ("arguments of a case", "choice Abc(uint8 s) on s { case 1: HOLE x; default: ; };", "Pa(1)", vec!["Pa", "Pa(1, 2)", "Leaf(1)", "Ch"]),
        ("arguments of a union member", "union Abc { HOLE x; bool y; };", "Pa(1)", vec!["Pa", "Pa(1, 2)", "Leaf(1)", "Ch"]),
    ] {
        add("ag", true, what.to_string(), format!("{BASE} {t}").replace("HOLE", good));
        for b in bads {
            add("ab", false, format!("{what}: {b} instead of {good}"), format!("{BASE} {t}").replace("HOLE", b));
        }
    }
    o
}
