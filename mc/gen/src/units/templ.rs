//! C20: templates. Every instantiation must behave like the declaration written out by hand.
use super::*;

/// The text of a template: the shape with its parameters in place of types.
pub fn tmpl(d: Decl, params: &str) -> Decl {
    let t = d.zs().replacen(&format!(" {}", d.name), &format!(" {}<{}>", d.name, params), 1);
    sub(&format!("Tmpl{}", d.name), u(8)).text(&t).unbound()
}
/// What an instantiation means; it is not printed.
pub fn inst(d: Decl) -> Decl {
    d.text("")
}
pub fn raw(k: usize, t: &str) -> Decl {
    sub(&format!("Raw{k}"), u(8)).text(&format!("{t}\n")).unbound()
}
/// How the name of an instantiation mentions a type.
fn tag(t: &str) -> String {
    t.chars().filter(|c| c.is_ascii_alphanumeric()).collect()
}
/// Reference to an instantiation.
pub fn tr(base: &str, args: &[&str]) -> Ty {
    let name = format!("{base}{}", args.iter().map(|a| tag(a)).collect::<String>());
    rt(&format!("{base}<{}>", args.join(", ")), &name)
}
fn tra(base: &str, args: &[&str], ex: Vec<Ex>) -> Ty {
    match tr(base, args) {
        Ty::Ref(a, b, _) => Ty::Ref(a, b, ex),
        x => x,
    }
}
fn nm(base: &str, args: &[&str]) -> String {
    format!("{base}{}", args.iter().map(|a| tag(a)).collect::<String>())
}
fn p(t: &str) -> Ty {
    rt(t, t)
}
fn color() -> Decl {
    en("Color", u(3), &[("RED", None, 0), ("BLUE", None, 1), ("DARK", Some(n(6)), 6)])
}
fn shade() -> Decl {
    en("Shade", u(5), &[("LIGHT", Some(n(2)), 2), ("RED", Some(n(9)), 9)])
}
fn perm() -> Decl {
    bm("Perm", u(4), &[("READ", None, 1), ("WRITE", None, 2), ("EXEC", Some(n(8)), 8)])
}
fn leaf() -> Decl {
    st("Leaf", vec![f("k", u(3)).vals(&[2, 5]), f("t", s(Scalar::Str))])
}
fn either() -> Decl {
    un("Either", vec![f("a", u(5)).vals(&[9]), f("b", s(Scalar::VarU)).vals(&[300])])
}
/// every use of a type in a structure
fn bx(name: &str, t: Ty) -> Decl {
    st(name, vec![f("one", t.clone()), f("some", t.clone()).opt(), f("many", t.clone()).arr().lens(&[0, 2]), f("fix", t).fixed(n(1)), f("end", u(2)).vals(&[2])])
}

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let dev = if thorough { 5 } else { 3 };
    // every kind of builtin argument
    let mut args: Vec<(String, Ty)> = kinds().into_iter().map(|k| (k.zs(), s(k))).collect();
    for w in [1u8, 3, 4, 5, 7, 13, 31, 63] {
        for ty in [u(w), i(w)] {
            if !args.iter().any(|x| x.1 == ty) {
                args.push((ty.zs(), ty));
            }
        }
    }
    let mut ds = vec![tmpl(bx("Box", p("T")), "T")];
    let mut fs = vec![];
    let mut roots = vec![];
    for (k, (t, ty)) in args.iter().enumerate() {
        let n = nm("Box", &[t]);
        ds.push(inst(bx(&n, ty.clone())));
        fs.push(f(&vn(k), tr("Box", &[t])).opt());
        roots.push(root(&format!("tpkind.{n}")).dev(dev));
    }
    ds.push(st("Abc", fs));
    roots.push(root("tpkind.Abc").alpha(1).dev(2));
    o.push(unit("tpkind", "builtin template arguments", ds, roots));
    // arrays of instantiations, packed
    let pk = |name: &str, t: Ty| st(name, vec![f("one", t.clone()), f("many", t).arr().packed().lens(&[0, 2]), f("end", u(2)).vals(&[2])]);
    let mut ds = vec![tmpl(pk("Box", p("T")), "T")];
    let mut fs = vec![];
    for (k, (t, ty)) in args.iter().enumerate().filter(|x| matches!(x.1 .1, Ty::S(Scalar::U(_) | Scalar::I(_) | Scalar::VarU | Scalar::Var))) {
        ds.push(inst(pk(&nm("Box", &[t]), ty.clone())));
        fs.push(f(&vn(k), tr("Box", &[t])).arr().packed().lens(&[0, 1, 2]));
    }
    ds.push(st("Abc", fs));
    o.push(unit("tppack", "packed arrays of instantiations", ds, vec![root("tppack.Abc").alpha(2).dev(dev)]));
    // user-defined arguments
    let mut ds = vec![color(), perm(), leaf(), either(), sub("Small", u(3)), sub("Hue", r("Color")), sub("Twig", r("Leaf")), tmpl(bx("Box", p("T")), "T")];
    let mut fs = vec![];
    let mut roots = vec![];
    for (k, t) in ["Color", "Perm", "Leaf", "Either", "Small", "Hue", "Twig"].iter().enumerate() {
        ds.push(inst(bx(&nm("Box", &[t]), r(t))));
        fs.push(f(&vn(k), tr("Box", &[t])).opt());
        roots.push(root(&format!("tpuser.{}", nm("Box", &[t]))).alpha(2).dev(dev));
    }
    ds.push(st("Abc", fs));
    roots.push(root("tpuser.Abc").alpha(1).dev(2));
    o.push(unit("tpuser", "user-defined template arguments", ds, roots));
    // two parameters, the same template with swapped arguments
    let pair = |name: &str, a: Ty, b: Ty| st(name, vec![f("a", a.clone()), f("b", b.clone()), f("xas", a).arr().lens(&[0, 2]), f("xbs", b).fixed(n(2))]);
    let combos = [["uint8", "string"], ["string", "uint8"], ["uint8", "uint8"], ["bool", "varint"], ["Color", "uint16"], ["uint16", "Color"], ["Leaf", "Leaf"]];
    let ty_of = |t: &str| args.iter().find(|x| x.0 == t).map(|x| x.1.clone()).unwrap_or_else(|| r(t));
    let mut ds = vec![color(), leaf(), tmpl(pair("Pair", p("A"), p("B")), "A, B")];
    let mut fs = vec![];
    let mut roots = vec![];
    for (k, c) in combos.iter().enumerate() {
        ds.push(inst(pair(&nm("Pair", c), ty_of(c[0]), ty_of(c[1]))));
        fs.push(f(&vn(k), tr("Pair", c)).opt());
        roots.push(root(&format!("tppair.{}", nm("Pair", c))).alpha(2).dev(dev));
    }
    ds.push(st("Abc", fs));
    roots.push(root("tppair.Abc").alpha(1).dev(2));
    o.push(unit("tppair", "two template parameters", ds, roots));
    // more parameters; every pair of argument lists differs in one place or in the order only
    let three = |name: &str, t: [Ty; 3]| st(name, vec![f("a", t[0].clone()), f("b", t[1].clone()), f("c", t[2].clone()), f("xcs", t[2].clone()).arr().lens(&[0, 2]), f("xas", t[0].clone()).fixed(n(2))]);
    let four = |name: &str, t: [Ty; 4]| st(name, vec![f("a", t[0].clone()).opt(), f("b", t[1].clone()).arr().lens(&[1, 0]), f("c", t[2].clone()), f("d", t[3].clone())]);
    let mut ds = vec![color(), leaf(), tmpl(three("Triple", [p("A"), p("B"), p("C")]), "A, B, C"), tmpl(four("Quad", [p("K"), p("L"), p("M"), p("N")]), "K, L, M, N")];
    let mut fs = vec![];
    let mut roots = vec![];
    let pairs = combos;
    let combos = [
        ["uint8", "uint8", "uint8"],
        ["uint8", "uint8", "uint16"],
        ["uint8", "uint16", "uint8"],
        ["uint16", "uint8", "uint8"],
        ["uint8", "uint8", "string"],
        ["uint8", "Leaf", "Color"],
        ["uint8", "Color", "Leaf"],
        ["Leaf", "uint8", "Color"],
        ["Leaf", "Color", "varint"],
        ["Leaf", "Color", "Leaf"],
    ];
    for (k, c) in combos.iter().enumerate() {
        ds.push(inst(three(&nm("Triple", c), c.map(ty_of))));
        fs.push(f(&format!("t{}", letters(k)), tr("Triple", c)).opt());
        roots.push(root(&format!("tpmore.{}", nm("Triple", c))).alpha(2).dev(2));
    }
    let combos = [["uint8", "uint8", "uint8", "uint8"], ["uint8", "uint8", "uint8", "bool"], ["uint8", "uint8", "bool", "uint8"], ["uint8", "Leaf", "Color", "Leaf"], ["uint8", "Leaf", "Color", "Color"]];
    for (k, c) in combos.iter().enumerate() {
        ds.push(inst(four(&nm("Quad", c), c.map(ty_of))));
        fs.push(f(&format!("q{}", letters(k)), tr("Quad", c)).opt());
        roots.push(root(&format!("tpmore.{}", nm("Quad", c))).alpha(2).dev(2));
    }
    ds.push(st("Abc", fs));
    roots.push(root("tpmore.Abc").alpha(1).dev(2));
    o.push(unit("tpmore", "three and four template parameters", ds, roots));
    // templates as arguments; different nestings are different types
    let wrap = |name: &str, t: Ty| st(name, vec![f("one", t.clone()), f("many", t).arr().lens(&[0, 2]), f("end", u(2)).vals(&[2])]);
    let mut ds = vec![leaf(), tmpl(bx("Box", p("T")), "T"), tmpl(wrap("Wrap", p("T")), "T")];
    let mut fs = vec![];
    let mut roots = vec![];
    for (k, t) in ["uint8", "uint16", "Leaf"].iter().enumerate() {
        let bt = format!("Box<{t}>");
        ds.push(inst(bx(&nm("Box", &[t]), ty_of(t))));
        ds.push(inst(wrap(&nm("Wrap", &[&bt]), tr("Box", &[t]))));
        let wt = format!("Wrap<{bt}>");
        ds.push(inst(wrap(&nm("Wrap", &[&wt]), tr("Wrap", &[&bt]))));
        fs.push(f(&format!("w{}", letters(k)), tr("Wrap", &[&bt])).opt());
        fs.push(f(&format!("x{}", letters(k)), tr("Wrap", &[&wt])).opt());
        fs.push(f(&format!("b{}", letters(k)), tr("Box", &[t])).opt());
        roots.push(root(&format!("tpnest.{}", nm("Wrap", &[&bt]))).alpha(2).dev(2));
    }
    ds.push(st("Abc", fs));
    roots.push(root("tpnest.Abc").alpha(1).dev(2));
    o.push(unit("tpnest", "instantiations as template arguments", ds, roots));
    // templates that use templates
    let mut ds = vec![tmpl(bx("Box", p("T")), "T"), tmpl(wrap("Wrap", rt("Box<T>", "")), "T"), tmpl(wrap("Both", rt("Wrap<V>", "")), "V"), tmpl(st("Mix", vec![f("a", rt("Box<T>", "")), f("b", rt("Box<uint8>", "")), f("c", rt("Box<V>", "")), f("d", p("V"))]), "V, T")];
    let mut fs = vec![];
    for (k, t) in ["uint8", "uint16", "string"].iter().enumerate() {
        ds.push(inst(bx(&nm("Box", &[t]), ty_of(t))));
        ds.push(inst(wrap(&nm("Wrap", &[t]), tr("Box", &[t]))));
        ds.push(inst(wrap(&nm("Both", &[t]), tr("Wrap", &[t]))));
        ds.push(inst(st(&nm("Mix", &[t, "string"]), vec![f("a", tr("Box", &["string"])), f("b", tr("Box", &["uint8"])), f("c", tr("Box", &[t])), f("d", ty_of(t))])));
        fs.push(f(&format!("w{}", letters(k)), tr("Both", &[t])).opt());
        fs.push(f(&format!("x{}", letters(k)), tr("Mix", &[t, "string"])).opt());
        fs.push(f(&format!("y{}", letters(k)), tr("Wrap", &[t])).opt());
    }
    ds.push(st("Abc", fs));
    o.push(unit("tpchain", "templates that use templates", ds, vec![root("tpchain.Abc").alpha(2).dev(2)]));
    // unions and choices
    let uni = |name: &str, a: Ty, b: Ty| un(name, vec![f("a", a.clone()), f("b", b.clone()), f("xas", a).arr().lens(&[0, 2]), f("c", u(3)).vals(&[5])]);
    let cho = |name: &str, a: Ty, b: Ty| {
        ch(name, vec![("sel", u(8))], id("sel"), vec![(vec![n(0)], Some(f("a", a.clone()))), (vec![n(1), n(2)], Some(f("bs", b.clone()).arr().lens(&[0, 2]))), (vec![n(3)], None)], Some(Some(f("b", b))))
    };
    let mut ds = vec![color(), leaf(), tmpl(uni("Uni", p("A"), p("B")), "A, B"), tmpl(cho("Cho", p("A"), p("B")), "A, B")];
    let mut fs = vec![f("sel", u(8)).vals(&[0, 1, 3, 4])];
    let mut roots = vec![];
    for (k, c) in pairs.iter().enumerate() {
        ds.push(inst(uni(&nm("Uni", c), ty_of(c[0]), ty_of(c[1]))));
        ds.push(inst(cho(&nm("Cho", c), ty_of(c[0]), ty_of(c[1]))));
        fs.push(f(&format!("u{}", letters(k)), tr("Uni", c)).opt());
        fs.push(f(&format!("c{}", letters(k)), tra("Cho", c, vec![id("sel")])).opt());
        roots.push(root(&format!("tpsel.{}", nm("Uni", c))).alpha(2));
        roots.push(root(&format!("tpsel.{}", nm("Cho", c))).alpha(2).with([0, 1, 2, 3, 4].iter().map(|x| vec![Val::Int(*x)]).collect()));
    }
    ds.push(st("Abc", fs));
    roots.push(root("tpsel.Abc").alpha(1).dev(2));
    o.push(unit("tpsel", "templates of unions and choices", ds, roots));
    // explicit instantiations
    let mut ds = vec![leaf(), tmpl(bx("Box", p("T")), "T"), tmpl(uni("Uni", p("A"), p("B")), "A, B"), tmpl(cho("Cho", p("A"), p("B")), "A, B")];
    ds.push(raw(0, "instantiate Box<uint8> Small;\ninstantiate Box<Leaf> Leaves;\ninstantiate Uni<uint8, Leaf> Any;\ninstantiate Cho<string, bit:3> Sel;\ninstantiate Box<Box<int16>> Deep;"));
    ds.push(inst(bx("Small", u(8))));
    ds.push(inst(bx("Leaves", r("Leaf"))));
    ds.push(inst(uni("Any", u(8), r("Leaf"))));
    ds.push(inst(cho("Sel", s(Scalar::Str), u(3))));
    ds.push(inst(bx("Boxint16", i(16))));
    ds.push(inst(bx("Deep", tr("Box", &["int16"]))));
    ds.push(st("Abc", vec![f("sel", u(8)).vals(&[0, 1, 4]), f("a", r("Small")), f("b", r("Leaves")).opt(), f("c", r("Any")), f("d", ra("Sel", vec![id("sel")])), f("e", r("Deep")).opt(), f("fs", r("Small")).arr().lens(&[0, 1])]));
    let all = |un: &str, l: &[&str]| l.iter().map(|x| root(&format!("{un}.{x}")).alpha(2).dev(2)).collect::<Vec<_>>();
    o.push(unit("tpinst", "explicit instantiations", ds.clone(), all("tpinst", &["Abc", "Small", "Leaves", "Any", "Deep"])));
    // the same through subtypes
    for d in ds.iter_mut() {
        if let Some(t) = &d.text {
            d.text = Some(t.replace("instantiate ", "subtype "));
        }
    }
    o.push(unit("tpsub", "subtypes of instantiations", ds, all("tpsub", &["Abc", "Small", "Leaves", "Any", "Deep"])));
    // named and unnamed uses of the same instantiation
    let mut ds = vec![tmpl(bx("Box", p("T")), "T")];
    ds.push(raw(0, "instantiate Box<uint8> Small;"));
    ds.push(inst(bx("Small", u(8))));
    ds.push(inst(bx("Boxuint16", u(16))));
    // the reference compiler gives both the explicit name; the wire is the same
    ds.push(st("Abc", vec![f("a", r("Small")), f("b", tr("Box", &["uint16"])), f("c", r("Small")).arr().lens(&[1])]));
    o.push(unit("tpboth", "named and unnamed instantiations", ds, all("tpboth", &["Abc", "Small"])));
    // type parameters of templates
    let par = |name: &str, t: Ty, k: Ty| st(name, vec![f("xs", t.clone()).fixed(id("k")), f("o", t).cond(bin(">", id("k"), n(1))), f("w", Ty::DynU(Box::new(bin("+", id("k"), n(1))))).vals(&[1])]).params(vec![("k", k)]).func("twice", u(32), bin("*", id("k"), n(2)));
    let mut ds = vec![leaf(), tmpl(par("Par", p("T"), u(8)), "T"), tmpl(par("Pat", p("T"), p("K")), "T, K")];
    let mut fs = vec![f("k", u(8)).vals(&[2, 0, 1])];
    let mut roots = vec![];
    for (k, t) in ["uint16", "string", "Leaf", "bit:3"].iter().enumerate() {
        ds.push(inst(par(&nm("Par", &[t]), ty_of(t), u(8))));
        fs.push(f(&format!("p{}", letters(k)), tra("Par", &[t], vec![id("k")])).opt());
        fs.push(f(&format!("r{}", letters(k)), tra("Par", &[t], vec![id("k")])).arr().lens(&[0, 1]));
        for kt in ["uint8", "uint32", "varsize", "bit:5"] {
            ds.push(inst(par(&nm("Pat", &[t, kt]), ty_of(t), ty_of(kt))));
            fs.push(f(&format!("q{}{}", letters(k), tag(kt).replace(|c: char| c.is_ascii_digit(), "x")), tra("Pat", &[t, kt], vec![id("k")])).opt());
        }
        roots.push(root(&format!("tppar.{}", nm("Par", &[t]))).alpha(2).with(vec![vec![Val::Int(0)], vec![Val::Int(2)]]));
    }
    ds.push(st("Abc", fs));
    roots.push(root("tppar.Abc").alpha(1).dev(2));
    o.push(unit("tppar", "templates with type parameters", ds, roots));
    // the parameter of a choice or union is a template parameter
    let chp = |name: &str, k: Ty, t: Ty| ch(name, vec![("sel", k)], id("sel"), vec![(vec![n(0)], Some(f("a", t.clone()))), (vec![n(1)], None)], Some(Some(f("b", t))));
    let unp = |name: &str, k: Ty, t: Ty| un(name, vec![f("a", t.clone()), f("bs", t).fixed(id("cnt"))]).params(vec![("cnt", k)]);
    let mut ds = vec![tmpl(chp("Cho", p("K"), p("T")), "K, T"), tmpl(unp("Uni", p("K"), p("T")), "K, T")];
    let mut fs = vec![f("k", u(8)).vals(&[2, 0, 1])];
    for (k, c) in [["uint8", "string"], ["uint16", "bit:7"], ["varsize", "uint8"], ["bit:4", "bool"]].iter().enumerate() {
        ds.push(inst(chp(&nm("Cho", c), ty_of(c[0]), ty_of(c[1]))));
        ds.push(inst(unp(&nm("Uni", c), ty_of(c[0]), ty_of(c[1]))));
        fs.push(f(&format!("c{}", letters(k)), tra("Cho", c, vec![id("k")])));
        fs.push(f(&format!("u{}", letters(k)), tra("Uni", c, vec![id("k")])));
    }
    ds.push(st("Abc", fs));
    o.push(unit("tpchpar", "parameters of templated choices and unions", ds, vec![root("tpchpar.Abc").alpha(2).dev(3)]));
    // labels that only the instantiation can resolve
    let lab = |name: &str, k: Ty, label: Ex| ch(name, vec![("sel", k)], id("sel"), vec![(vec![label], Some(f("a", u(3)).vals(&[5])))], Some(Some(f("b", s(Scalar::Str)))));
    let red = |v: i128| Ex::Lit("RED".into(), v);
    let ds = vec![
        color(),
        shade(),
        tmpl(lab("Cho", p("K"), red(0)), "K"),
        inst(lab("ChoColor", r("Color"), red(0))),
        inst(lab("ChoShade", r("Shade"), red(9))),
        st("Abc", vec![f("c", r("Color")), f("d", r("Shade")), f("x", tra("Cho", &["Color"], vec![id("c")])), f("y", tra("Cho", &["Shade"], vec![id("d")]))]),
    ];
    o.push(unit("tplabel", "labels of templated selectors", ds, vec![root("tplabel.Abc").alpha(4)]));
    // functions and conditions whose operand types differ between instantiations
    let fun = |name: &str, t: Ty| st(name, vec![f("a", t.clone()).vals(&[1, 3]), f("b", t.clone()).vals(&[2, 0]), f("c", u(4)).cond(bin(">", id("a"), id("b"))).vals(&[7]), f("xs", u(2)).fixed(bin("+", id("a"), n(1))).vals(&[1])]).func("sum", i(64), bin("+", bin("*", id("a"), n(3)), id("b"))).func("own", t, id("a"));
    let mut ds = vec![tmpl(fun("Fun", p("T")), "T")];
    let mut fs = vec![];
    let mut roots = vec![];
    for (k, t) in ["uint8", "int8", "uint16", "int32", "varuint", "bit:3", "int:7", "int64", "varsize"].iter().enumerate() {
        ds.push(inst(fun(&nm("Fun", &[t]), ty_of(t))));
        fs.push(f(&vn(k), tr("Fun", &[t])).opt());
        roots.push(root(&format!("tpfun.{}", nm("Fun", &[t]))));
    }
    ds.push(st("Abc", fs));
    roots.push(root("tpfun.Abc").alpha(1).dev(2));
    o.push(unit("tpfun", "functions and conditions of templates", ds, roots));
    // members of the argument in expressions
    let mem = |name: &str, t: Ty| st(name, vec![f("h", t), f("xs", u(2)).fixed(dot(id("h"), "k")).vals(&[1]), f("c", u(4)).cond(bin("==", dot(id("h"), "k"), n(2))).vals(&[7])]).func("kk", u(32), dot(id("h"), "k"));
    let ds = vec![
        leaf(),
        st("Wide", vec![f("x", u(2)), f("k", i(32)).vals(&[2, 0])]),
        tmpl(mem("Mem", p("T")), "T"),
        inst(mem("MemLeaf", r("Leaf"))),
        inst(mem("MemWide", r("Wide"))),
        st("Abc", vec![f("a", tr("Mem", &["Leaf"])), f("b", tr("Mem", &["Wide"]))]),
    ];
    o.push(unit("tpmem", "members of a template argument", ds, vec![root("tpmem.Abc").alpha(2).dev(3), root("tpmem.MemLeaf"), root("tpmem.MemWide")]));
    // items of the argument in expressions
    let itm = |name: &str, t: &str, tn: Ty| st(name, vec![f("h", tn), f("c", u(4)).cond(bin("==", id("h"), item(t, "RED"))).vals(&[7])]);
    let ds = vec![color(), shade(), tmpl(itm("Itm", "T", p("T")), "T"), inst(itm("ItmColor", "Color", r("Color"))), inst(itm("ItmShade", "Shade", r("Shade"))), st("Abc", vec![f("a", tr("Itm", &["Color"])), f("b", tr("Itm", &["Shade"]))])];
    o.push(unit("tpitem", "items of a template argument", ds, vec![root("tpitem.Abc").alpha(4)]));
    // offsets and alignments in templates: each instantiation has its own offset field
    let offs = |name: &str, t: Ty| st(name, vec![f("head", u(3)).vals(&[5]), f("off", u(32)).vals(&[0]), f("body", t.clone()).offset(id("off")), f("gap", u(1)).vals(&[1]), f("more", t).align(8)]);
    let mut ds = vec![leaf(), tmpl(offs("Off", p("T")), "T")];
    let mut fs = vec![];
    let mut roots = vec![];
    for (k, t) in ["uint8", "string", "Leaf"].iter().enumerate() {
        ds.push(inst(offs(&nm("Off", &[t]), ty_of(t))));
        fs.push(f(&vn(k), tr("Off", &[t])));
        roots.push(root(&format!("tpoff.{}", nm("Off", &[t]))).alpha(2));
    }
    ds.push(st("Abc", fs));
    roots.push(root("tpoff.Abc").alpha(1).dev(2));
    o.push(unit("tpoff", "offsets and alignments in templates", ds, roots));
    // a template that holds instantiations of itself
    let tree = |name: &str, t: Ty, own: Ty| st(name, vec![f("v", t), f("kids", own).arr().lens(&[0, 1])]);
    let ds = vec![
        tmpl(tree("Tree", p("T"), rt("Tree<T>", "")), "T"),
        inst(tree("Treeuint8", u(8), tr("Tree", &["uint8"]))),
        inst(tree("Treestring", s(Scalar::Str), tr("Tree", &["string"]))),
        st("Abc", vec![f("a", tr("Tree", &["uint8"])), f("b", tr("Tree", &["string"]))]),
    ];
    o.push(unit("tptree", "templates that hold themselves", ds, vec![root("tptree.Abc").alpha(1).lens(&[0, 1]).dev(3)]));
    // the same declaration is the user of its own instantiation
    let ds = vec![tmpl(wrap("Wrap", p("T")), "T"), inst(wrap("WrapAbc", r("Abc"))), st("Abc", vec![f("v", u(3)), f("ws", tr("Wrap", &["Abc"])).arr().lens(&[0, 1])])];
    o.push(unit("tpself", "a structure as argument of its own fields", ds, vec![root("tpself.Abc").alpha(1).lens(&[0, 1]).dev(2)]));
    // an implicit instantiation and a declaration that would get its name
    let ds = vec![
        st("Leaf", vec![f("v", u(5))]),
        st("BoxLeaf", vec![f("q", u(9))]),
        tmpl(wrap("Box", p("T")), "T"),
        inst(wrap("BoxLeafInstance", r("Leaf"))),
        st("Abc", vec![f("x", rt("Box<Leaf>", "BoxLeafInstance")), f("y", r("BoxLeaf"))]),
    ];
    o.push(unit("tpclash", "declarations named like an instantiation", ds, vec![root("tpclash.Abc").alpha(2)]));
    // instantiations whose generated names coincide: where one argument ends and the next one
    // starts, where the template's own name ends, nested instantiations and declarations or
    // explicit instantiations of the same name
    let two = |name: &str, a: Ty, b: Ty| st(name, vec![f("p", a), f("qs", b.clone()).arr().lens(&[0, 2]), f("q", b)]);
    let small = || vec![st("Ka", vec![f("x", u(3)).vals(&[5])]), st("KaKb", vec![f("x", u(9)).vals(&[300])]), st("Kb", vec![f("x", s(Scalar::Str))]), st("KbKb", vec![f("x", u(17)).vals(&[70000]), f("y", u(1)).vals(&[1])])];
    let mut ds = small();
    ds.extend([
        tmpl(two("Tw", p("P"), p("Q")), "P, Q"),
        inst(two("TwKaKbKb", r("Ka"), r("KbKb"))),
        inst(two("TwKaKbKbInstance", r("KaKb"), r("Kb"))),
        st("Abc", vec![f("a", rt("Tw<Ka, KbKb>", "TwKaKbKb")), f("b", rt("Tw<KaKb, Kb>", "TwKaKbKbInstance")), f("c", rt("Tw<Ka, KbKb>", "TwKaKbKb")).arr().lens(&[1])]),
        st("Bcd", vec![f("b", rt("Tw<KaKb, Kb>", "TwKaKbKbInstance")).opt(), f("a", rt("Tw<Ka, KbKb>", "TwKaKbKb")).arr().packed().lens(&[2])]),
    ]);
    o.push(unit("tpglue", "instantiations whose names coincide", ds, vec![root("tpglue.Abc").alpha(2).dev(dev), root("tpglue.Bcd").alpha(2).dev(dev)]));
    let mut ds = small();
    ds.extend([
        tmpl(wrap("Wrap", p("T")), "T"),
        tmpl(wrap("WrapKa", p("T")), "T"),
        inst(wrap("WrapKaKb", r("KaKb"))),
        inst(wrap("WrapKaKbInstance", r("Kb"))),
        st("Abc", vec![f("a", rt("Wrap<KaKb>", "WrapKaKb")), f("b", rt("WrapKa<Kb>", "WrapKaKbInstance"))]),
    ]);
    o.push(unit("tpgluebase", "instantiations of templates whose names begin alike", ds, vec![root("tpgluebase.Abc").alpha(2)]));
    let mut ds = small();
    ds.extend([
        st("WrapKa", vec![f("odd", u(11)).vals(&[1030])]),
        tmpl(wrap("Wrap", p("T")), "T"),
        tmpl(wrap("Hold", p("T")), "T"),
        inst(wrap("WrapKaInstance", r("Ka"))),
        inst(wrap("HoldWrapKa", r("WrapKa"))),
        inst(wrap("HoldWrapKaInstance", r("WrapKaInstance"))),
        st("Abc", vec![f("a", rt("Hold<WrapKa>", "HoldWrapKa")), f("b", rt("Hold<Wrap<Ka>>", "HoldWrapKaInstance")), f("c", rt("Wrap<Ka>", "WrapKaInstance"))]),
    ]);
    o.push(unit("tpgluenest", "nested instantiations and declarations of one name", ds, vec![root("tpgluenest.Abc").alpha(2)]));
    let mut ds = small();
    ds.extend([
        tmpl(wrap("Wrap", p("T")), "T"),
        raw(0, "instantiate Wrap<Ka> WrapKb;"),
        inst(wrap("WrapKb", r("Ka"))),
        inst(wrap("WrapKbInstance", r("Kb"))),
        st("Abc", vec![f("a", r("WrapKb")), f("b", rt("Wrap<Kb>", "WrapKbInstance"))]),
    ]);
    o.push(unit("tpglueexp", "explicit instantiations named like others", ds, vec![root("tpglueexp.Abc").alpha(2)]));
    // a template parameter hides a type; parameters of the same name in other templates
    let ds = vec![
        st("T", vec![f("z", u(3))]),
        tmpl(wrap("Wrap", p("T")), "T"),
        tmpl(wrap("Keep", p("T")), "V"),
        inst(wrap("Wrapuint8", u(8))),
        inst(wrap("WrapT", r("T"))),
        inst(wrap("Keepuint16", r("T"))),
        st("Abc", vec![f("a", tr("Wrap", &["uint8"])), f("b", tr("Wrap", &["T"])), f("c", tr("Keep", &["uint16"])), f("d", r("T"))]),
    ];
    o.push(unit("tphide", "template parameters that hide types", ds, vec![root("tphide.Abc").alpha(2).dev(3)]));
    // instantiations in every place that can hold a type
    let ds = vec![
        tmpl(wrap("Wrap", p("T")), "T"),
        inst(wrap("Wrapuint8", u(8))),
        inst(wrap("Wrapuint16", u(16))),
        un("Uni", vec![f("a", tr("Wrap", &["uint8"])), f("bs", tr("Wrap", &["uint16"])).arr().lens(&[0, 1])]),
        ch("Cho", vec![("sel", u(8))], id("sel"), vec![(vec![n(0)], Some(f("a", tr("Wrap", &["uint16"])))), (vec![n(1)], Some(f("b", tr("Wrap", &["uint8"])).arr().lens(&[0, 1])))], Some(Some(f("c", tr("Wrap", &["uint8"]))))),
        st("Abc", vec![f("s", u(8)).vals(&[0, 1, 2]), f("u", r("Uni")), f("c", ra("Cho", vec![id("s")])), f("o", tr("Wrap", &["uint8"])).opt(), f("i", tr("Wrap", &["uint8"])).cond(bin("==", id("s"), n(1))), f("x", tr("Wrap", &["uint16"])).fixed(id("s"))]),
    ];
    o.push(unit("tpplace", "places of instantiations", ds, vec![root("tpplace.Abc").alpha(2).dev(3)]));
    // ... in parameters and function results
    let ds = vec![
        tmpl(wrap("Wrap", p("T")), "T"),
        inst(wrap("Wrapuint8", u(8))),
        st("Par", vec![f("xs", u(2)).fixed(Ex::Len(Box::new(dot(id("w"), "many")))).vals(&[1])]).params(vec![("w", tr("Wrap", &["uint8"]))]),
        st("Abc", vec![f("w", tr("Wrap", &["uint8"])), f("pp", ra("Par", vec![id("w")]))]),
    ];
    o.push(unit("tpparam", "instantiations as parameter types", ds, vec![root("tpparam.Abc").alpha(2).dev(3)]));
    // templates of another package: what they mention means what it means there
    for (k, (imp, text)) in [("tpx{}lib.*", "Box"), ("tpx{}lib.Box", "Box"), ("tpx{}lib.*", "tpx{}lib.Box")].iter().enumerate() {
        for same in [false, true] {
            let un = format!("tpx{}{}", letters(k), if same { "s" } else { "d" });
            let sfx = un[3..].to_string();
            let lib = format!("{un}lib");
            let bx = |name: &str, t: Ty, lf: Ty| st(name, vec![f("one", t.clone()), f("leaf", lf), f("len", u(8)).fixed(id("CNT")), f("many", t).arr().lens(&[0, 2])]);
            let fill = |t: &str| t.replace("tpx{}", &format!("tpx{sfx}"));
            let name = |a: &str| format!("Box{a}");
            let rf = |a: &str| rt(&format!("{}<{a}>", fill(text)), &name(a));
            // fields of the instantiation live in the package that uses it, the types they name in the library
            let lf = rt("Leaf", &format!("{lib}.Leaf"));
            let mut ds = vec![];
            if same {
                ds.push(st("Leaf", vec![f("v", u(9))]));
                ds.push(konst("CNT", u(8), n(3)));
            }
            let mk = |nm: &str, t: Ty| {
                let mut d = bx(nm, t, lf.clone());
                if let Kind::Struct { fields } = &mut d.kind {
                    fields[2].ar = Ar::Fixed(n(1));
                }
                inst(d)
            };
            ds.push(mk(&name("uint8"), u(8)));
            ds.push(mk(&name("string"), s(Scalar::Str)));
            let mut fs = vec![f("a", rf("uint8")), f("b", rf("string")), f("c", rf("uint8")).arr().lens(&[1])];
            if same {
                ds.push(mk(&name("Leaf"), r("Leaf")));
                fs.push(f("d", rf("Leaf")));
                fs.push(f("own", r("Leaf")));
            }
            ds.push(st("Abc", fs));
            let user = Pkg { name: un.clone(), imports: vec![fill(imp)], decls: ds };
            let mut lds = vec![st("Leaf", vec![f("v", u(5))]), konst("CNT", u(8), n(1)), tmpl(bx("Box", p("T"), r("Leaf")), "T")];
            lds.push(mk(&name("uint16"), u(16)));
            lds.push(st("Inside", vec![f("x", tr("Box", &["uint16"])), f("l", r("Leaf"))]));
            let libp = pkg(&lib, lds);
            let mut x = unit(&un, "templates of another package", vec![], vec![root(&format!("{un}.Abc")).alpha(2).dev(3), root(&format!("{lib}.Inside")).alpha(2)]);
            x.pkgs = vec![user, libp];
            o.push(x);
        }
    }
    // one template instantiated alike in several packages
    let mut pkgs = vec![pkg("tpmanylib", vec![tmpl(bx("Box", p("T")), "T"), inst(bx("Boxuint8", u(8))), st("Own", vec![f("x", tr("Box", &["uint8"]))])])];
    for q in ["tpmanya", "tpmanyb"] {
        let mut d = vec![st("Leaf", vec![f("v", u(if q == "tpmanya" { 5 } else { 9 }))]), inst(bx("Boxuint8", u(8))), inst(bx("BoxLeaf", r("Leaf")))];
        d.push(st("Abc", vec![f("x", tr("Box", &["uint8"])), f("y", tr("Box", &["Leaf"]))]));
        let mut pp = pkg(q, d);
        pp.imports = vec!["tpmanylib.*".into()];
        pkgs.push(pp);
    }
    let mut x = unit("tpmany", "the same instantiation in several packages", vec![], ["tpmanylib.Own", "tpmanya.Abc", "tpmanyb.Abc"].iter().map(|r| root(r).alpha(2).dev(2)).collect());
    x.pkgs = pkgs;
    o.push(x);
    // arguments of the same name from two packages
    let q = |k: &str, w: u8| pkg(k, vec![st("Leaf", vec![f("v", u(w))])]);
    // only the second one needs its package
    let name = |k: &str| if k == "a" { "BoxLeaf".to_string() } else { "Boxtptwob_Leaf".to_string() };
    let mut main = pkg("tptwo", vec![
        tmpl(bx("Box", p("T")), "T"),
        inst(bx(&name("a"), rt("tptwoa.Leaf", "tptwoa.Leaf"))),
        inst(bx(&name("b"), rt("tptwob.Leaf", "tptwob.Leaf"))),
        st("Abc", vec![f("x", rt("Box<tptwoa.Leaf>", &name("a"))), f("y", rt("Box<tptwob.Leaf>", &name("b")))]),
    ]);
    main.imports = vec!["tptwoa.Leaf".into(), "tptwob.Leaf".into()];
    let mut x = unit("tptwo", "arguments of the same name from two packages", vec![], vec![root("tptwo.Abc").alpha(2).dev(2)]);
    x.pkgs = vec![main, q("tptwoa", 5), q("tptwob", 9)];
    o.push(x);
    // a declaration whose name is that of a template followed by that of its argument
    let ds = vec![
        st("Leaf", vec![f("v", u(5))]),
        st("BoxLeaf", vec![f("q", u(9))]),
        tmpl(wrap("Box", p("T")), "T"),
        raw(0, "instantiate Box<Leaf> Leaves;"),
        inst(wrap("Leaves", r("Leaf"))),
        st("Abc", vec![f("x", r("Leaves")), f("y", r("BoxLeaf"))]),
    ];
    o.push(unit("tpname", "names that look like instantiations", ds, vec![root("tpname.Abc").alpha(2)]));
    o
}
