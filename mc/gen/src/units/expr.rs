//! C16: schema expressions.
use super::*;

fn len(e: Ex) -> Ex {
    Ex::Len(Box::new(e))
}
fn numbits(e: Ex) -> Ex {
    Ex::NumBits(Box::new(e))
}
fn valueof(e: Ex) -> Ex {
    Ex::ValOf(Box::new(e))
}
fn isset(a: Ex, b: Ex) -> Ex {
    Ex::IsSet(Box::new(a), Box::new(b))
}
fn at(a: Ex, i: Ex) -> Ex {
    Ex::Idx(Box::new(a), Box::new(i))
}
fn lit(t: &str, v: i128) -> Ex {
    Ex::Lit(t.into(), v)
}
fn bl() -> Ty {
    s(Scalar::Bool)
}
fn wide() -> Ty {
    i(64)
}
fn st32() -> Ty {
    i(32)
}
/// A unit with one structure whose functions are the expressions.
fn fam(name: &str, what: &str, fields: Vec<Field>, fs: Vec<(Ty, Ex)>) -> Unit {
    let mut d = st("Abc", fields);
    for (k, (t, e)) in fs.into_iter().enumerate() {
        d = d.func(&format!("fn{}", letters(k)), t, e);
    }
    unit(name, what, vec![d], vec![root(&format!("{name}.Abc")).alpha(6)])
}
const ARITH: [&str; 8] = ["+", "-", "*", "&", "|", "^", "<<", ">>"];
const CMP: [&str; 6] = ["==", "!=", "<", "<=", ">", ">="];

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let small: &[i128] = &[2, 0, 1, 3];
    let abc = || vec![f("a", st32()).vals(small), f("b", st32()).vals(small), f("c", st32()).vals(small)];
    // flat and grouped pairs of operators
    let mut fs = vec![];
    let mut gs = vec![];
    for p in ARITH {
        for q in ARITH {
            fs.push((wide(), bin(q, bin(p, id("a"), id("b")), id("c"))));
            fs.push((wide(), bin(p, id("a"), bin(q, id("b"), id("c")))));
            gs.push((wide(), bin(p, Ex::Par(Box::new(bin(q, id("a"), id("b")))), Ex::Par(Box::new(bin(p, id("b"), id("c")))))));
        }
    }
    o.push(fam("pairs", "all pairs of integer operators, grouped both ways", abc(), fs));
    o.push(fam("groups", "parenthesised operands on both sides", abc(), gs));
    // three levels over a smaller operator set
    let set: &[&str] = if thorough { &["+", "-", "*", "&", "<<", "|"] } else { &["+", "-", "*", "&"] };
    let mut fs = vec![];
    for p in set {
        for q in set {
            for r in set {
                fs.push((wide(), bin(r, bin(q, bin(p, id("a"), id("b")), id("c")), id("a"))));
                fs.push((wide(), bin(p, id("a"), bin(q, id("b"), bin(r, id("c"), id("b"))))));
                fs.push((wide(), bin(q, bin(p, id("a"), id("b")), bin(r, id("c"), id("b")))));
            }
        }
    }
    o.push(fam("triples", "all triples of integer operators", abc(), fs));
    // division and remainder
    let fs = ["/", "%"]
        .iter()
        .flat_map(|p| {
            let mut v = vec![(wide(), bin(p, id("a"), id("b")))];
            for q in ["+", "-", "*", "/", "%"] {
                v.push((wide(), bin(q, bin(p, id("a"), id("b")), id("c"))));
                v.push((wide(), bin(q, id("c"), bin(p, id("a"), id("b")))));
                v.push((wide(), bin(p, bin(q, id("a"), id("b")), id("c"))));
                v.push((wide(), bin(p, id("a"), bin(q, id("b"), id("c")))));
            }
            v
        })
        .collect();
    o.push(fam("divide", "division and remainder", vec![f("a", st32()).vals(&[17, 8, 1, 0]), f("b", st32()).vals(&[3, 1, 5]), f("c", st32()).vals(&[2, 7])], fs));
    // signs
    let fs = vec![
        (wide(), unary("-", id("a"))),
        (wide(), unary("+", id("a"))),
        (wide(), unary("-", unary("-", id("a")))),
        (wide(), bin("+", unary("-", id("a")), id("b"))),
        (wide(), bin("*", unary("-", id("a")), unary("-", id("b")))),
        (wide(), unary("-", Ex::Par(Box::new(bin("+", id("a"), id("b")))))),
        (wide(), bin("-", id("a"), n(-5))),
        (wide(), bin("-", id("a"), unary("-", id("b")))),
        (wide(), n(-7)),
        (bl(), bin("<", id("a"), n(-1))),
        (bl(), bin("==", unary("-", id("a")), id("b"))),
    ];
    o.push(fam("signs", "unary plus and minus", vec![f("a", st32()).vals(&[5, -3, 0]), f("b", st32()).vals(&[1, -4])], fs));
    o.push(fam("invert", "bitwise complement", vec![f("a", st32()).vals(&[5, -3, 0]), f("b", st32()).vals(&[1, -4])], vec![
        (wide(), unary("~", id("a"))),
        (wide(), bin("&", unary("~", id("a")), id("b"))),
        (wide(), bin("+", unary("~", id("a")), n(1))),
        (wide(), unary("~", unary("~", id("a")))),
    ]));
    o.push(fam("inverts", "bitwise complement of unsigned operands", vec![f("a", u(8)).vals(&[5, 255, 0])], vec![(wide(), unary("~", id("a"))), (wide(), bin("&", unary("~", id("a")), n(15)))]));
    // comparisons of equal types
    let mut fs = vec![];
    for c in CMP {
        fs.push((bl(), bin(c, id("a"), id("b"))));
        fs.push((bl(), bin(c, bin("+", id("a"), id("c")), bin("*", id("b"), n(2)))));
        fs.push((bl(), bin(c, bin("<<", id("a"), n(1)), id("b"))));
        fs.push((bl(), bin(c, id("a"), n(2))));
        fs.push((bl(), bin(c, n(1), id("b"))));
        fs.push((bl(), bin(c, Ex::Par(Box::new(bin("&", id("a"), id("b")))), id("c"))));
        fs.push((bl(), unary("!", Ex::Par(Box::new(bin(c, id("a"), id("b")))))));
        for l in ["&&", "||"] {
            fs.push((bl(), bin(l, bin(c, id("a"), id("b")), bin(c, id("b"), id("c")))));
        }
    }
    o.push(fam("compare", "comparisons of integers", abc(), fs));
    o.push(fam("chained", "comparison results compared", abc(), vec![
        (bl(), bin("==", bin("<", id("a"), id("b")), bin("<", id("b"), id("c")))),
        (bl(), bin("!=", bin("<=", id("a"), id("b")), Ex::B(true))),
        (bl(), bin("==", bin("==", id("a"), id("b")), Ex::B(false))),
    ]));
    let bf = || vec![f("p", bl()), f("q", bl()), f("r", bl()), f("t", bl())];
    let mut fs = vec![];
    for l in ["&&", "||", "==", "!="] {
        for m in ["&&", "||"] {
            fs.push((bl(), bin(m, bin(l, id("p"), id("q")), id("r"))));
            fs.push((bl(), bin(m, id("p"), bin(l, id("q"), id("r")))));
            fs.push((bl(), bin(l, Ex::Par(Box::new(bin(m, id("p"), id("q")))), id("r"))));
            fs.push((bl(), bin(m, unary("!", id("p")), bin(l, id("q"), id("r")))));
            fs.push((bl(), unary("!", Ex::Par(Box::new(bin(m, id("p"), bin(l, id("q"), id("r"))))))));
            fs.push((bl(), bin(m, bin(l, id("p"), id("q")), bin(l, id("r"), id("t")))));
        }
    }
    fs.push((bl(), unary("!", unary("!", id("p")))));
    o.push(fam("logic", "logical operators", bf(), fs));
    // ternaries
    o.push(fam("choose", "the ternary operator", vec![f("a", st32()).vals(small), f("b", st32()).vals(small), f("p", bl()), f("q", bl())], vec![
        (wide(), tern(id("p"), id("a"), id("b"))),
        (wide(), tern(bin("<", id("a"), id("b")), bin("+", id("a"), n(10)), bin("*", id("b"), n(3)))),
        (wide(), tern(id("p"), id("a"), tern(id("q"), id("b"), n(77)))),
        (wide(), tern(id("p"), tern(id("q"), n(1), n(2)), n(3))),
        (wide(), tern(bin("||", id("p"), id("q")), n(1), n(2))),
        (bl(), tern(id("p"), id("q"), unary("!", id("q")))),
        (wide(), tern(Ex::Par(Box::new(tern(id("p"), id("q"), Ex::B(true)))), id("a"), id("b"))),
    ]));
    o.push(fam("choosein", "ternaries as operands", vec![f("a", st32()).vals(small), f("b", st32()).vals(small), f("p", bl()), f("q", bl())], vec![
        (wide(), bin("+", Ex::Par(Box::new(tern(id("p"), id("a"), id("b")))), n(1))),
        (wide(), bin("*", n(3), Ex::Par(Box::new(tern(id("p"), id("a"), id("b")))))),
        (bl(), bin("==", Ex::Par(Box::new(tern(id("p"), id("a"), id("b")))), n(2))),
        (wide(), bin("-", Ex::Par(Box::new(tern(id("p"), n(1), n(2)))), Ex::Par(Box::new(tern(id("q"), n(3), n(4)))))),
    ]));
    // operand types
    for (name, t, vs) in [
        ("opua", u(8), vec![200, 0, 1, 255, 7]),
        ("opub", u(16), vec![65535, 0, 1, 300]),
        ("opuc", u(32), vec![4294967295, 0, 1, 70000]),
        ("opud", u(64), vec![1 << 40, 0, 1, (1 << 62) + 1]),
        ("opue", u(5), vec![31, 0, 1, 9]),
        ("opuf", u(33), vec![(1 << 33) - 1, 0, 1, 9]),
        ("opsa", i(8), vec![-128, 0, 1, 127]),
        ("opsb", i(16), vec![-32768, 0, 1, 32767]),
        ("opsc", i(32), vec![-2147483648, 0, 1, 2147483647]),
        ("opsd", i(64), vec![-(1 << 62), 0, 1, 1 << 61]),
        ("opse", i(5), vec![-16, 0, 1, 15]),
        ("opva", s(Scalar::VarU16), vec![32767, 0, 1, 300]),
        ("opvb", s(Scalar::VarU32), vec![(1 << 29) - 1, 0, 1]),
        ("opvc", s(Scalar::VarU64), vec![1 << 50, 0, 1]),
        ("opvd", s(Scalar::VarU), vec![1 << 50, 0, 1]),
        ("opve", s(Scalar::VarSize), vec![(1 << 31) - 1, 0, 1]),
        ("opvf", s(Scalar::Var16), vec![-16383, 0, 1, 16383]),
        ("opvg", s(Scalar::Var32), vec![-70000, 0, 1, 70000]),
        ("opvh", s(Scalar::Var64), vec![-(1 << 50), 0, 1]),
        ("opvi", s(Scalar::Var), vec![-(1 << 50), 0, 1]),
    ] {
        let mut fs = vec![];
        for c in CMP {
            fs.push((bl(), bin(c, id("a"), id("b"))));
        }
        for c in ["+", "*", "&", "|", "^"] {
            fs.push((wide(), bin(c, id("a"), id("b"))));
        }
        fs.push((wide(), bin("-", id("a"), id("b"))));
        fs.push((t.clone(), id("a")));
        fs.push((wide(), bin("+", id("a"), n(1))));
        fs.push((wide(), bin("*", n(2), id("a"))));
        fs.push((bl(), bin(">", id("a"), n(1))));
        fs.push((wide(), bin(">>", id("a"), n(1))));
        o.push(fam(name, "operands of one type", vec![f("a", t.clone()).vals(&vs), f("b", t).vals(&vs)], fs));
    }
    // operands of two types
    let tys: Vec<(Ty, Vec<i128>)> = vec![(u(8), vec![200, 0, 3]), (u(16), vec![300, 1]), (u(32), vec![70000, 2]), (u(64), vec![1 << 40, 3]), (i(8), vec![-5, 3]), (i(16), vec![-300, 2]), (i(32), vec![-70000, 1]), (i(64), vec![-(1 << 40), 3]), (u(5), vec![19, 2]), (i(11), vec![-700, 3]), (s(Scalar::VarSize), vec![4000, 1]), (s(Scalar::Var32), vec![-4000, 1])];
    for (k, (t, vs)) in tys.iter().enumerate() {
        let mut fields = vec![f("a", t.clone()).vals(vs)];
        let mut fs = vec![];
        for (j, (w, ws)) in tys.iter().enumerate() {
            if j == k {
                continue;
            }
            let nm = format!("b{}", letters(j));
            fields.push(f(&nm, w.clone()).vals(ws));
            for c in ["+", "-", "*"] {
                fs.push((wide(), bin(c, id("a"), id(&nm))));
            }
        }
        let mut un = fam(&format!("mixa{}", letters(k)), "arithmetic on operands of two types", fields.clone(), fs);
        un.roots[0].dev = 2;
        o.push(un);
        let mut fs = vec![];
        for (j, _) in tys.iter().enumerate() {
            if j != k {
                for c in ["==", "<", ">="] {
                    fs.push((bl(), bin(c, id("a"), id(&format!("b{}", letters(j))))));
                }
            }
        }
        let mut un = fam(&format!("mixc{}", letters(k)), "comparison of operands of two types", fields.clone(), fs);
        un.roots[0].dev = 2;
        o.push(un);
        let mut fs = vec![];
        for (j, _) in tys.iter().enumerate() {
            if j != k {
                for c in ["&", "|", "^"] {
                    fs.push((wide(), bin(c, id("a"), id(&format!("b{}", letters(j))))));
                }
            }
        }
        let mut un = fam(&format!("mixb{}", letters(k)), "bitwise operations on operands of two types", fields, fs);
        un.roots[0].dev = 2;
        o.push(un);
    }
    // operators with values
    o.push(unit(
        "lens",
        "lengthof",
        vec![
            st("Abc", vec![f("xs", u(8)).arr(), f("ys", s(Scalar::Str)).fixed(n(2)), f("num", u(8)).vals(&[2, 0, 1])])
                .func("one", u(32), len(id("xs")))
                .func("two", u(32), len(id("ys")))
                .func("cmp", bl(), bin(">", len(id("xs")), n(1)))
                .func("sum", u(32), bin("+", len(id("xs")), len(id("ys"))))
                .func("dif", bl(), bin("==", len(id("xs")), bin("-", n(3), n(1)))),
        ],
        vec![root("lens.Abc").alpha(2)],
    ));
    o.push(unit(
        "lensmix",
        "lengthof with operands of other types",
        vec![
            st("Abc", vec![f("xs", u(8)).arr(), f("num", u(8)).vals(&[2, 0, 1])])
                .func("mix", u(32), bin("*", len(id("xs")), id("num")))
                .func("cmp", bl(), bin("==", len(id("xs")), id("num")))
                .func("ter", bl(), tern(bin(">", len(id("xs")), n(0)), bin("==", id("num"), n(1)), Ex::B(false))),
        ],
        vec![root("lensmix.Abc").alpha(2)],
    ));
    let nb: Vec<i128> = (0..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX as i128, 1 << 32, 1 << 62]).collect();
    o.push(unit(
        "bitcount",
        "numbits",
        vec![st("Abc", vec![f("x", u(64)).vals(&nb)]).func("nb", u(8), numbits(id("x"))).func("np", u(8), bin("+", numbits(id("x")), n(1)))],
        vec![root("bitcount.Abc")],
    ));
    o.push(unit(
        "bitcounts",
        "numbits of other operands",
        vec![st("Abc", vec![f("x", u(8)).vals(&[5, 0, 255, 16]), f("y", u(32)).vals(&[7, 70000])])
            .func("na", u(8), numbits(id("x")))
            .func("nb", u(8), numbits(id("y")))
            .func("nc", u(8), numbits(bin("+", id("y"), n(1))))
            .func("nd", u(8), numbits(n(9)))],
        vec![root("bitcounts.Abc")],
    ));
    let color = || en("Color", u(8), &[("RED", Some(n(2)), 2), ("GREEN", None, 3), ("BLUE", Some(n(200)), 200)]);
    let perm = || bm("Perm", u(8), &[("READ", Some(n(1)), 1), ("WRITE", Some(n(2)), 2), ("EXEC", Some(n(8)), 8), ("RW", Some(n(3)), 3)]);
    o.push(unit(
        "enums",
        "expressions over enums",
        vec![
            color(),
            st("Abc", vec![f("c", r("Color")), f("d", r("Color")), f("x", u(8)).vals(&[3, 2])])
                .func("eq", bl(), bin("==", id("c"), id("d")))
                .func("ne", bl(), bin("!=", id("c"), item("Color", "GREEN")))
                .func("get", r("Color"), id("d"))
                .func("con", r("Color"), item("Color", "BLUE"))
                .func("both", bl(), bin("&&", bin("==", id("c"), item("Color", "RED")), bin("==", id("d"), item("Color", "RED")))),
        ],
        vec![root("enums.Abc")],
    ));
    o.push(unit(
        "enumval",
        "valueof",
        vec![
            color(),
            st("Abc", vec![f("c", r("Color")), f("x", u(8)).vals(&[3, 2])]).func("val", u(8), valueof(id("c"))).func("vac", u(8), valueof(item("Color", "BLUE"))),
        ],
        vec![root("enumval.Abc")],
    ));
    o.push(unit(
        "enumvals",
        "valueof inside other expressions",
        vec![
            color(),
            st("Abc", vec![f("c", r("Color")), f("x", u(8)).vals(&[3, 2])])
                .func("add", u(16), bin("+", valueof(id("c")), n(1)))
                .func("cmp", bl(), bin("<", valueof(id("c")), n(3)))
                .func("cmq", bl(), bin("==", valueof(id("c")), id("x"))),
        ],
        vec![root("enumvals.Abc")],
    ));
    o.push(unit(
        "flagset",
        "isset",
        vec![
            perm(),
            st("Abc", vec![f("m", r("Perm")).vals(&[3, 0, 1, 2, 8, 9, 10, 11])])
                .func("ra", bl(), isset(id("m"), item("Perm", "READ")))
                .func("rd", bl(), bin("&&", isset(id("m"), item("Perm", "READ")), unary("!", isset(id("m"), item("Perm", "EXEC")))))
                .func("re", bl(), bin("||", isset(id("m"), item("Perm", "WRITE")), isset(id("m"), item("Perm", "EXEC")))),
        ],
        vec![root("flagset.Abc")],
    ));
    o.push(unit(
        "flagops",
        "operators on bitmasks",
        vec![
            perm(),
            st("Abc", vec![f("m", r("Perm")).vals(&[3, 0, 1, 10]), f("k", r("Perm")).vals(&[1, 0, 11])])
                .func("eq", bl(), bin("==", id("m"), id("k")))
                .func("ne", bl(), bin("!=", id("m"), item("Perm", "RW")))
                .func("and", r("Perm"), bin("&", id("m"), id("k")))
                .func("or", r("Perm"), bin("|", id("m"), id("k")))
                .func("xor", r("Perm"), bin("^", id("m"), id("k")))
                .func("tst", bl(), bin("==", Ex::Par(Box::new(bin("&", id("m"), item("Perm", "WRITE")))), item("Perm", "WRITE"))),
        ],
        vec![root("flagops.Abc")],
    ));
    o.push(unit("flagval", "valueof of bitmasks", vec![perm(), st("Abc", vec![f("m", r("Perm")).vals(&[3, 0, 1, 10])]).func("val", u(8), valueof(id("m")))], vec![root("flagval.Abc")]));
    o.push(unit("flagvals", "valueof of bitmasks inside other expressions", vec![perm(), st("Abc", vec![f("m", r("Perm")).vals(&[3, 0, 1, 10])]).func("add", u(16), bin("+", valueof(id("m")), n(1))).func("vit", u(8), valueof(item("Perm", "RW")))], vec![root("flagvals.Abc")]));
    // floats
    let fl = |nm: &str| f(nm, s(Scalar::F64));
    let mut fs = vec![];
    for c in ["+", "-", "*", "/"] {
        fs.push((s(Scalar::F64), bin(c, id("a"), id("b"))));
        fs.push((s(Scalar::F64), bin(c, bin("+", id("a"), Ex::F(0.5)), id("b"))));
        fs.push((s(Scalar::F64), bin(c, id("a"), Ex::Par(Box::new(bin("-", id("b"), id("a")))))));
    }
    fs.push((s(Scalar::F64), unary("-", id("a"))));
    fs.push((s(Scalar::F64), Ex::F(2.25)));
    fs.push((s(Scalar::F64), Ex::F(3.0)));
    fs.push((bl(), bin("<", id("a"), id("b"))));
    fs.push((bl(), bin(">=", id("a"), Ex::F(1.5))));
    o.push(fam("floats", "floating point expressions", vec![fl("a"), fl("b")], fs));
    o.push(fam("floatmix", "floating point expressions of several widths", vec![fl("a"), f("b", s(Scalar::F32)), f("c", u(8)).vals(&[3, 0]), f("d", i(16)).vals(&[-3, 0])], vec![
        (s(Scalar::F64), bin("+", id("a"), id("b"))),
        (s(Scalar::F64), bin("*", id("a"), id("c"))),
        (s(Scalar::F64), bin("-", id("d"), id("a"))),
        (s(Scalar::F32), bin("+", id("b"), id("c"))),
    ]));
    // strings
    o.push(unit(
        "texts",
        "string expressions",
        vec![
            konst("GREETING", s(Scalar::Str), Ex::Str("hi".into())),
            st("Abc", vec![f("a", s(Scalar::Str)), f("b", s(Scalar::Str))])
                .func("fa", s(Scalar::Str), id("a"))
                .func("fb", s(Scalar::Str), bin("+", id("a"), id("b")))
                .func("fc", s(Scalar::Str), bin("+", bin("+", id("a"), Ex::Str("-".into())), id("b"))),
        ],
        vec![root("texts.Abc")],
    ));
    o.push(unit(
        "textcons",
        "string constants in functions",
        vec![
            konst("GREETING", s(Scalar::Str), Ex::Str("hi".into())),
            st("Abc", vec![f("a", s(Scalar::Str))])
                .func("fa", s(Scalar::Str), Ex::Str("plain".into()))
                .func("fb", s(Scalar::Str), id("GREETING"))
                .func("fc", s(Scalar::Str), bin("+", id("GREETING"), id("a"))),
        ],
        vec![root("textcons.Abc")],
    ));
    o.push(unit("textcat", "concatenated string constants", vec![konst("ONE", s(Scalar::Str), Ex::Str("hi".into())), konst("TWO", s(Scalar::Str), bin("+", id("ONE"), Ex::Str(" you".into()))), st("Abc", vec![f("a", u(8))])], vec![root("textcat.Abc")]));
    // literals
    o.push(fam("literals", "spellings of literals", vec![f("a", u(8)).vals(&[1])], vec![
        (wide(), lit("0x1F", 31)),
        (wide(), lit("0XfF", 255)),
        (wide(), lit("017", 15)),
        (wide(), lit("0", 0)),
        (wide(), lit("2147483647", 2147483647)),
        (wide(), lit("0x7fffffff", 0x7fffffff)),
        (bl(), Ex::B(true)),
        (bl(), Ex::B(false)),
    ]));
    o.push(fam("literalb", "binary literals", vec![f("a", u(8)).vals(&[1])], vec![(wide(), lit("101b", 5)), (wide(), lit("11111111B", 255)), (wide(), bin("+", lit("10b", 2), id("a")))]));
    o.push(fam("literall", "literals beyond 32 bits", vec![f("a", u(8)).vals(&[1])], vec![(wide(), lit("4294967296", 1 << 32)), (wide(), lit("0xFFFFFFFFFF", 0xFFFFFFFFFF)), (u(64), lit("18446744073709551615", u64::MAX as i128))]));
    o.push(fam("literalm", "literals at the 32-bit limits", vec![f("a", u(8)).vals(&[1])], vec![(wide(), lit("2147483648", 1 << 31)), (wide(), lit("4294967295", (1 << 32) - 1)), (wide(), n(-2147483648))]));
    // names
    o.push(unit(
        "access",
        "members, elements, parameters, functions",
        vec![
            konst("LIMIT", u(8), n(3)),
            st("Leaf", vec![f("v", i(32)).vals(&[4, -9]), f("w", u(8)).vals(&[1, 2])]).func("twice", i(32), bin("*", id("v"), n(2))),
            st("Mid", vec![f("leaf", r("Leaf")), f("k", i(32)).vals(&[7])]).func("deep", i(32), dot(id("leaf"), "v")),
            st("Abc", vec![f("mid", r("Mid")), f("xs", i(32)).fixed(n(3)).vals(&[5, 6]), f("ls", r("Leaf")).fixed(n(2)), f("theValue", i(32)).vals(&[2, 1])])
                .func("fa", i(32), dot(dot(id("mid"), "leaf"), "v"))
                .func("fb", i(32), at(id("xs"), n(1)))
                .func("fc", i(32), dot(at(id("ls"), n(1)), "v"))
                .func("fd", i(32), bin("+", at(id("xs"), n(0)), at(id("xs"), n(2))))
                .func("fe", i(32), call(id("fb")))
                .func("ff", i(32), bin("+", call(id("fa")), call(id("fe"))))
                .func("fg", i(32), bin("*", id("theValue"), id("theValue")))
                .func("getValue", i(32), id("theValue"))
                .func("fh", i(32), bin("-", call(id("getValue")), dot(id("mid"), "k"))),
        ],
        vec![root("access.Abc").dev(3)],
    ));
    o.push(unit(
        "accesscon",
        "constants in expressions",
        vec![
            konst("LIMIT", i(32), n(3)),
            konst("BYTE", u(8), n(250)),
            st("Abc", vec![f("a", i(32)).vals(&[2, 3, 4]), f("b", u(8)).vals(&[5, 1])])
                .func("fa", i(32), bin("+", id("a"), id("LIMIT")))
                .func("fb", bl(), bin("<", id("a"), id("LIMIT")))
                .func("fc", i(32), bin("-", id("LIMIT"), n(5)))
                .func("fd", u(16), bin("-", id("BYTE"), id("b"))),
        ],
        vec![root("accesscon.Abc")],
    ));
    o.push(unit(
        "accesscall",
        "functions of members",
        vec![
            st("Leaf", vec![f("v", i(32)).vals(&[4, -9])]).func("twice", i(32), bin("*", id("v"), n(2))),
            st("Abc", vec![f("leaf", r("Leaf"))]).func("fa", i(32), call(dot(id("leaf"), "twice"))).func("fb", i(32), bin("+", call(dot(id("leaf"), "twice")), n(1))),
        ],
        vec![root("accesscall.Abc")],
    ));
    o.push(unit(
        "accessidx",
        "elements selected by fields",
        vec![st("Abc", vec![f("k", u(8)).vals(&[1, 0, 2]), f("xs", i(32)).fixed(n(3)).vals(&[5, 6])]).func("fa", i(32), at(id("xs"), id("k"))).func("fb", i(32), at(id("xs"), bin("-", n(2), id("k"))))],
        vec![root("accessidx.Abc")],
    ));
    o.push(unit(
        "accesspar",
        "parameters in expressions",
        vec![
            st("Abc", vec![f("v", i(32)).vals(&[4, -9])])
                .params(vec![("p", i(32)), ("q", bl())])
                .func("fa", i(32), bin("+", id("v"), id("p")))
                .func("fb", bl(), bin("&&", id("q"), bin("<", id("p"), id("v"))))
                .func("fc", i(32), tern(id("q"), id("p"), id("v"))),
        ],
        vec![root("accesspar.Abc").with(vec![vec![Val::Int(3), Val::Bool(true)], vec![Val::Int(-3), Val::Bool(false)], vec![Val::Int(90), Val::Bool(true)]])],
    ));
    // casts of results
    let mut fs = vec![];
    for t in [u(8), u(16), u(32), u(64), i(8), i(16), i(32), i(64), u(5), i(13), s(Scalar::VarU32), s(Scalar::Var)] {
        fs.push((t.clone(), bin("+", id("a"), id("b"))));
        fs.push((t, id("a")));
    }
    o.push(fam("returns", "result types of functions", vec![f("a", st32()).vals(&[5, -3, 100000, 15]), f("b", st32()).vals(&[1, -1])], fs));
    // constants
    o.push(unit(
        "consts",
        "constants computed from constants",
        vec![
            konst("AONE", i(32), n(5)),
            konst("BTWO", i(32), bin("+", id("AONE"), n(2))),
            konst("CSIX", i(32), bin("*", id("BTWO"), Ex::Par(Box::new(bin("-", id("AONE"), n(9)))))),
            konst("DSHF", i(32), bin("<<", n(1), id("BTWO"))),
            konst("EAND", i(32), bin("&", id("DSHF"), lit("0xF0", 0xf0))),
            konst("FNEG", i(32), unary("-", id("AONE"))),
            konst("GBOOL", bl(), bin("<", id("AONE"), id("BTWO"))),
            konst("HTXT", s(Scalar::Str), Ex::Str("abc".into())),
            konst("IFLT", s(Scalar::F64), Ex::F(1.5)),
            konst("JMOD", i(32), bin("%", n(17), id("AONE"))),
            konst("KDIV", i(32), bin("/", n(17), id("AONE"))),
            konst("LNOT", bl(), unary("!", id("GBOOL"))),
            st("Abc", vec![f("a", i(32)).fixed(bin("-", id("BTWO"), id("AONE"))).vals(&[1, 2]), f("b", u(8)).cond(bin(">", id("CSIX"), n(0))).vals(&[3]), f("c", u(8)).cond(id("GBOOL")).vals(&[4])]),
        ],
        vec![root("consts.Abc")],
    ));
    o.push(unit(
        "lenlong",
        "lengthof beyond 16 bits",
        vec![
            st("Abc", vec![f("xs", u(1)).arr().lens(&[0, 255, 256, 65535, 65536, 65537, 70001]).vals(&[1]), f("ys", u(8)).arr().lens(&[1, 256, 65537]).vals(&[7]), f("zs", u(2)).fixed(n(65538)).vals(&[1])])
                .func("na", u(32), len(id("xs")))
                .func("nb", i(64), bin("*", len(id("ys")), n(65536)))
                .func("nc", bl(), bin("<", len(id("zs")), len(id("xs")))),
        ],
        vec![root("lenlong.Abc")],
    ));
    let leaf = || st("Leaf", vec![f("v", i(32)).vals(&[4, -9]), f("w", u(8)).vals(&[1, 2])]).func("twice", i(32), bin("*", id("v"), n(2))).func("plus", i(32), bin("+", call(id("twice")), id("w")));
    o.push(unit(
        "accessdeep",
        "functions of members of members and of elements",
        vec![
            leaf(),
            st("Mid", vec![f("leaf", r("Leaf")), f("ls", r("Leaf")).fixed(n(2))]).func("deep", i(32), call(dot(id("leaf"), "plus"))),
            st("Abc", vec![f("mid", r("Mid")), f("ms", r("Mid")).fixed(n(1)), f("ls", r("Leaf")).fixed(n(2)), f("k", u(1)).vals(&[1, 0])])
                .func("fa", i(32), call(dot(dot(id("mid"), "leaf"), "twice")))
                .func("fb", i(32), call(dot(id("mid"), "deep")))
                .func("fc", i(32), call(dot(at(id("ls"), n(1)), "plus")))
                .func("fd", i(32), call(dot(at(id("ls"), id("k")), "twice")))
                .func("fe", i(32), dot(dot(at(id("ms"), n(0)), "leaf"), "v"))
                .func("fg", i(32), dot(at(dot(id("mid"), "ls"), n(1)), "v"))
                .func("fh", i(32), bin("-", call(dot(at(dot(at(id("ms"), n(0)), "ls"), id("k")), "plus")), call(id("fa"))))
                .func("fi", u(32), len(dot(id("mid"), "ls"))),
        ],
        vec![root("accessdeep.Abc").dev(2)],
    ));
    o.push(unit(
        "accessuni",
        "functions of unions and their members",
        vec![
            leaf(),
            un("Either", vec![f("ua", i(32)).vals(&[3, -5]), f("ub", r("Leaf"))]).func("one", i(32), n(1)).func("ga", i(32), bin("*", id("ua"), n(3))).func("gb", i(32), dot(id("ub"), "v")),
            st("Abc", vec![f("e", r("Either")), f("es", r("Either")).fixed(n(1))])
                .func("fa", i(32), call(dot(id("e"), "one")))
                .func("fb", i(32), call(dot(id("e"), "ga")))
                .func("fc", i(32), call(dot(at(id("es"), n(0)), "gb"))),
        ],
        vec![root("accessuni.Abc"), root("accessuni.Either")],
    ));
    o.push(unit(
        "accessunim",
        "members of unions",
        vec![
            leaf(),
            un("Either", vec![f("ua", i(32)).vals(&[3, -5]), f("ub", r("Leaf"))]),
            st("Abc", vec![f("e", r("Either"))]).func("fa", i(32), dot(id("e"), "ua")).func("fb", i(32), dot(dot(id("e"), "ub"), "v")).func("fc", i(32), call(dot(dot(id("e"), "ub"), "twice"))),
        ],
        vec![root("accessunim.Abc")],
    ));
    o.push(unit(
        "accesscho",
        "functions of choices and their members",
        vec![
            leaf(),
            ch("Pick", vec![("sel", u(2))], id("sel"), vec![(vec![n(0)], Some(f("ca", i(32)).vals(&[3, -5]))), (vec![n(1)], Some(f("cb", r("Leaf"))))], Some(None)).func("one", i(32), bin("+", id("sel"), n(1))).func("ga", i(32), bin("*", id("ca"), n(3))).func("gb", i(32), dot(id("cb"), "v")),
            st("Abc", vec![f("k", u(2)).vals(&[0, 1, 2]), f("p", ra("Pick", vec![id("k")])), f("ps", ra("Pick", vec![id("k")])).fixed(n(1))])
                .func("fa", i(32), call(dot(id("p"), "one")))
                .func("fb", i(32), call(dot(id("p"), "ga")))
                .func("fc", i(32), call(dot(at(id("ps"), n(0)), "gb")))
                .func("fd", i(32), dot(id("p"), "ca"))
                .func("fe", i(32), dot(dot(id("p"), "cb"), "v"))
                .func("fg", i(32), dot(id("p"), "sel")),
        ],
        vec![root("accesscho.Abc"), root("accesscho.Pick").with(vec![vec![Val::Int(0)], vec![Val::Int(1)], vec![Val::Int(3)]])],
    ));
    o.push(unit(
        "accessopt",
        "optional and conditional members in expressions",
        vec![
            leaf(),
            st("Abc", vec![f("has", bl()), f("a", i(32)).cond(id("has")).vals(&[3]), f("leaf", r("Leaf")).cond(id("has")), f("b", i(32)).cond(bin("&&", id("has"), bin(">", id("a"), n(2)))).vals(&[8])])
                .func("fa", i(32), tern(id("has"), id("a"), n(0)))
                .func("fb", i(32), tern(id("has"), dot(id("leaf"), "v"), n(-1)))
                .func("fc", i(32), tern(bin("&&", id("has"), bin("<", id("a"), id("b"))), bin("+", id("a"), id("b")), n(5))),
        ],
        vec![root("accessopt.Abc")],
    ));
    // what functions return
    for (nm, t, e) in [
        ("retstr", s(Scalar::Str), id("txt")),
        ("retbool", bl(), id("flag")),
        ("retenum", r("Color"), id("col")),
        ("retitem", r("Color"), item("Color", "BLUE")),
        ("retmask", r("Perm"), id("per")),
        ("retflag", r("Perm"), item("Perm", "WRITE")),
        ("retflags", r("Perm"), bin("|", item("Perm", "WRITE"), item("Perm", "READ"))),
        ("retleaf", r("Leaf"), id("leaf")),
        ("retsub", r("Num"), id("num")),
        ("retfa", s(Scalar::F16), id("fa")),
        ("retfb", s(Scalar::F32), id("fb")),
        ("retfc", s(Scalar::F64), id("fc")),
        ("retfd", s(Scalar::F64), bin("+", id("fb"), id("fa"))),
        ("rettern", r("Color"), tern(id("flag"), id("col"), item("Color", "RED"))),
        ("retelem", i(32), at(id("xs"), n(1))),
        ("retdyn", u(12), id("dynw")),
        ("retvar", s(Scalar::VarU), id("var")),
        ("retneg", s(Scalar::Var16), unary("-", id("small"))),
        ("retlong", u(64), id("big")),
        ("retconst", s(Scalar::Str), id("GREETING")),
        ("retcol", r("Color"), id("FAVOURITE")),
        ("retbytes", s(Scalar::Bytes), id("blob")),
        ("retext", s(Scalar::Extern), id("ext")),
        ("retsubstr", r("Text"), id("txt")),
        ("retsubstrb", r("Text"), bin("+", id("txt"), id("GREETING"))),
        ("retuni", r("Either"), id("uni")),
        ("retelemleaf", r("Leaf"), at(id("leaves"), n(1))),
        ("retelemstr", s(Scalar::Str), at(id("strs"), n(0))),
        ("rettermleaf", r("Leaf"), tern(id("flag"), id("leaf"), at(id("leaves"), n(0)))),
        ("rettermstr", s(Scalar::Str), tern(id("flag"), id("txt"), Ex::Str("none".into()))),
        ("rettermbytes", s(Scalar::Bytes), tern(id("flag"), id("blob"), id("blob"))),
        ("retpar", r("Leaf"), Ex::Par(Box::new(id("leaf")))),
        ("retsubleaf", r("LeafToo"), id("leaf")),
    ] {
        o.push(unit(
            nm,
            "a function that returns it",
            vec![
                leaf(),
                en("Color", u(8), &[("RED", None, 0), ("BLUE", Some(n(9)), 9)]),
                bm("Perm", u(8), &[("READ", None, 1), ("WRITE", None, 2)]),
                sub("Num", u(11)),
                sub("Text", s(Scalar::Str)),
                sub("LeafToo", r("Leaf")),
                un("Either", vec![f("ua", i(32)).vals(&[3]), f("ub", r("Leaf"))]),
                konst("GREETING", s(Scalar::Str), Ex::Str("hello".into())),
                konst("FAVOURITE", r("Color"), item("Color", "BLUE")),
                st(
                    "Abc",
                    vec![
                        f("txt", s(Scalar::Str)),
                        f("flag", bl()),
                        f("col", r("Color")),
                        f("per", r("Perm")),
                        f("leaf", r("Leaf")),
                        f("num", r("Num")),
                        f("fa", s(Scalar::F16)),
                        f("fb", s(Scalar::F32)),
                        f("fc", s(Scalar::F64)),
                        f("xs", i(32)).fixed(n(2)),
                        f("dynw", Ty::DynU(Box::new(n(12)))),
                        f("var", s(Scalar::VarU)),
                        f("small", i(8)),
                        f("big", u(64)),
                        f("blob", s(Scalar::Bytes)),
                        f("ext", s(Scalar::Extern)),
                        f("uni", r("Either")),
                        f("leaves", r("Leaf")).fixed(n(2)),
                        f("strs", s(Scalar::Str)).fixed(n(1)),
                    ],
                )
                .func("get", t.clone(), e.clone()),
                st("Outer", vec![f("abc", r("Abc"))]).func("get", t, call(dot(id("abc"), "get"))),
            ],
            vec![root(&format!("{nm}.Abc")).dev(1), root(&format!("{nm}.Outer")).dev(1)],
        ));
    }
    // names of a declaration hide those of its package
    let hide = |name: &str, ty: Ty| {
        st(name, vec![f("limit", ty.clone()).vals(&[3, 0, 1]), f("xs", u(8)).fixed(id("limit")).vals(&[1]), f("y", u(8)).cond(bin("<", id("limit"), id("other"))).vals(&[2]), f("LIMITS", u(8)).vals(&[4, 5])])
            .func("fa", i(32), bin("+", id("limit"), id("other")))
            .func("fb", i(32), bin("+", id("LIMITS"), id("limit")))
    };
    o.push(unit(
        "hiding",
        "members and parameters named like constants and types",
        vec![
            konst("limit", i(32), n(7)),
            konst("LIMITS", i(32), n(70)),
            konst("other", i(32), n(2)),
            konst("selp", i(32), n(2)),
            hide("Abc", u(4)),
            st("Defo", vec![f("ys", u(8)).fixed(id("other")).vals(&[1]), f("zs", u(8)).fixed(id("selp")).vals(&[1])]).params(vec![("other", u(8))]).func("fa", i(32), bin("*", id("other"), id("limit"))).func("fb", i(32), id("selp")),
            ch("Ghi", vec![("selp", u(8))], id("selp"), vec![(vec![n(0)], Some(f("a", u(3)))), (vec![id("limit")], Some(f("other", u(4)))), (vec![n(2)], Some(f("c", u(5))))], None).func("fa", i(32), bin("+", id("selp"), id("limit"))),
            st("Jkl", vec![f("other", u(8)).vals(&[3, 0]), f("one", ra("Defo", vec![id("other")])), f("two", ra("Ghi", vec![id("limit")])), f("three", ra("Ghi", vec![id("selp")]))]),
        ],
        vec![
            root("hiding.Abc"),
            root("hiding.Defo").with(vec![vec![Val::Int(1)], vec![Val::Int(2)], vec![Val::Int(3)]]),
            root("hiding.Ghi").with(vec![vec![Val::Int(0)], vec![Val::Int(7)], vec![Val::Int(2)]]),
            root("hiding.Jkl"),
        ],
    ));
    // expressions known when the schema is compiled: every operator over smaller, equal and greater operands
    let mut ds = vec![];
    let mut fs: Vec<(Ty, Ex)> = vec![];
    let mut add = |t: Ty, e: Ex, fs: &mut Vec<(Ty, Ex)>| {
        ds.push(konst(&format!("K{}", letters(ds.len()).to_ascii_uppercase()), t.clone(), e.clone()));
        fs.push((t, e));
    };
    for op in CMP {
        for (a, b) in [(2, 3), (3, 3), (4, 3)] {
            add(bl(), bin(op, n(a), n(b)), &mut fs);
            add(st32(), tern(Ex::Par(Box::new(bin(op, n(a), n(b)))), n(11), n(22)), &mut fs);
        }
        for (a, b) in [(1.5, 2.5), (2.5, 2.5), (2.5, 1.5)] {
            add(bl(), bin(op, Ex::F(a), Ex::F(b)), &mut fs);
            add(st32(), tern(Ex::Par(Box::new(bin(op, Ex::F(a), Ex::F(b)))), n(11), n(22)), &mut fs);
        }
        add(bl(), bin(op, n(2), Ex::F(2.0)), &mut fs);
        add(bl(), bin(op, Ex::F(2.5), n(2)), &mut fs);
    }
    for op in ["==", "!="] {
        for (a, b) in [("x", "x"), ("x", "y")] {
            add(bl(), bin(op, Ex::Str(a.into()), Ex::Str(b.into())), &mut fs);
            add(st32(), tern(Ex::Par(Box::new(bin(op, Ex::Str(a.into()), Ex::Str(b.into())))), n(11), n(22)), &mut fs);
        }
        for (a, b) in [(true, true), (true, false), (false, true), (false, false)] {
            add(bl(), bin(op, Ex::B(a), Ex::B(b)), &mut fs);
            add(st32(), tern(Ex::Par(Box::new(bin(op, Ex::B(a), Ex::B(b)))), n(11), n(22)), &mut fs);
        }
    }
    for op in ["&&", "||"] {
        for (a, b) in [(true, true), (true, false), (false, true), (false, false)] {
            add(bl(), bin(op, Ex::B(a), Ex::B(b)), &mut fs);
            add(st32(), tern(Ex::Par(Box::new(bin(op, Ex::B(a), Ex::B(b)))), n(11), n(22)), &mut fs);
        }
    }
    for op in ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"] {
        add(st32(), bin(op, n(13), n(5)), &mut fs);
        add(wide(), bin(op, lit("0x123456789", 0x123456789), n(12)), &mut fs);
        add(st32(), tern(bin(">", bin(op, n(13), n(5)), n(8)), n(11), n(22)), &mut fs);
    }
    for op in ["-", "+", "~"] {
        add(st32(), unary(op, n(5)), &mut fs);
        add(st32(), tern(bin("<", unary(op, n(5)), n(0)), n(11), n(22)), &mut fs);
    }
    for b in [true, false] {
        add(bl(), unary("!", Ex::B(b)), &mut fs);
        add(st32(), tern(unary("!", Ex::B(b)), n(11), n(22)), &mut fs);
    }
    for k in [1, 2, 3, 4, 5, 8, 9, 255, 256, 257, 65536, 65537] {
        add(u(8), numbits(n(k)), &mut fs);
        add(st32(), tern(bin("==", numbits(n(k)), n(8)), n(11), n(22)), &mut fs);
    }
    for op in ["+", "-", "*", "/"] {
        add(s(Scalar::F64), bin(op, Ex::F(7.5), Ex::F(2.5)), &mut fs);
        add(s(Scalar::F64), bin(op, Ex::F(7.5), n(2)), &mut fs);
        add(s(Scalar::F32), bin(op, n(7), Ex::F(2.5)), &mut fs);
    }
    add(s(Scalar::Str), bin("+", Ex::Str("ab".into()), Ex::Str("cd".into())), &mut fs);
    add(s(Scalar::Str), tern(Ex::B(false), Ex::Str("ab".into()), Ex::Str("cd".into())), &mut fs);
    ds.push(st("Abc", vec![f("a", u(8))]));
    o.push(unit("foldconst", "constants of every operator", ds, vec![root("foldconst.Abc")]));
    o.push(fam("foldfunc", "functions of literals", vec![f("a", u(8)).vals(&[1])], fs));
    // constants over items, of other constants, and where they matter: lengths, widths, conditions, items, labels
    let en_ = || en("Color", u(8), &[("RED", None, 0), ("BLUE", Some(n(9)), 9), ("TEAL", Some(n(9 + 1)), 10)]);
    let bm_ = || bm("Perm", u(8), &[("READ", None, 1), ("WRITE", None, 2)]);
    let mut ds = vec![en_(), bm_()];
    for op in CMP {
        for (a, b) in [("RED", "BLUE"), ("BLUE", "BLUE"), ("BLUE", "RED")] {
            let e = bin(op, valueof(item("Color", a)), valueof(item("Color", b)));
            ds.push(konst(&format!("K{}", letters(ds.len()).to_ascii_uppercase()), bl(), e.clone()));
            ds.push(konst(&format!("K{}", letters(ds.len()).to_ascii_uppercase()), st32(), tern(Ex::Par(Box::new(e)), n(11), n(22))));
        }
    }
    ds.push(konst("KSUM", st32(), bin("+", valueof(item("Color", "BLUE")), valueof(item("Perm", "WRITE")))));
    ds.push(st("Abc", vec![f("a", u(8))]));
    o.push(unit("folditems", "constants over items", ds, vec![root("folditems.Abc")]));
    for (k, op) in CMP.iter().enumerate() {
        let nm = format!("foldin{}", letters(k));
        let mut ds = vec![konst("LOW", i(32), n(2)), konst("TOP", i(32), n(3)), konst("ALSO", i(32), n(3))];
        let mut fl = vec![f("a", u(8)).vals(&[7])];
        for (j, (x, y)) in [("LOW", "TOP"), ("TOP", "ALSO"), ("TOP", "LOW")].into_iter().enumerate() {
            let c = || bin(op, id(x), id(y));
            ds.push(konst(&format!("IS{}", letters(j).to_ascii_uppercase()), bl(), c()));
            ds.push(konst(&format!("LEN{}", letters(j).to_ascii_uppercase()), i(32), tern(Ex::Par(Box::new(c())), n(1), n(2))));
            fl.push(f(&format!("xs{}", letters(j)), u(8)).fixed(tern(Ex::Par(Box::new(c())), n(1), n(2))).vals(&[1]));
            fl.push(f(&format!("ys{}", letters(j)), u(8)).fixed(id(&format!("LEN{}", letters(j).to_ascii_uppercase()))).vals(&[1]));
            fl.push(f(&format!("zs{}", letters(j)), u(8)).cond(c()).vals(&[1]));
            fl.push(f(&format!("vs{}", letters(j)), u(8)).cond(id(&format!("IS{}", letters(j).to_ascii_uppercase()))).vals(&[1]));
            fl.push(f(&format!("ws{}", letters(j)), Ty::DynU(Box::new(bin("+", n(3), id(&format!("LEN{}", letters(j).to_ascii_uppercase()))))) ).vals(&[1]));
        }
        ds.push(st("Abc", fl));
        o.push(unit(&nm, "folded conditions, lengths and widths", ds, vec![root(&format!("{nm}.Abc"))]));
    }
    o
}
