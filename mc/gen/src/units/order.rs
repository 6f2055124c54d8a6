//! C18: schemas for the orders a compiler may meet. A family is a schema and its variants: the same
//! packages with imports and declarations in another order (named <base>_v<k>).
use super::*;

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            o.push(q);
        }
    }
    o.sort();
    o
}
pub fn is_variant(n: &str) -> bool {
    n.contains("_v")
}
fn base_of(n: &str) -> &str {
    n.split("_v").next().unwrap()
}
pub fn is_base(us: &[Unit], n: &str) -> bool {
    us.iter().any(|x| is_variant(&x.name) && base_of(&x.name) == n)
}
pub fn families(us: &[Unit]) -> Vec<(String, Vec<String>)> {
    let mut o: Vec<(String, Vec<String>)> = vec![];
    for u in us {
        let b = base_of(&u.name);
        match o.iter_mut().find(|x| x.0 == b) {
            Some(x) => x.1.push(u.name.clone()),
            None => o.push((b.to_string(), vec![u.name.clone()])),
        }
    }
    o.retain(|x| x.1.len() > 1);
    o
}
/// What is printed for a declaration stays with it: the declarations that are not printed (the
/// meaning of instantiations) are not permuted.
fn variants(o: &mut Vec<Unit>, base: Unit, limit: usize) {
    let mut list: Vec<Unit> = vec![];
    for (k, p) in base.pkgs.iter().enumerate() {
        let printed: Vec<usize> = (0..p.decls.len()).filter(|i| !p.decls[*i].zs().is_empty()).collect();
        // every order of the imports x every order of the declarations of one package at a time
        let mut dp = perms(printed.len());
        if dp.len() > limit {
            // every pair of declarations in both orders: each one moved to each place, and the reverse
            let n = printed.len();
            dp = vec![(0..n).collect(), (0..n).rev().collect()];
            for a in 0..n {
                for b in 0..n {
                    let mut v: Vec<usize> = (0..n).collect();
                    let x = v.remove(a);
                    v.insert(b, x);
                    if !dp.contains(&v) {
                        dp.push(v);
                    }
                }
            }
        }
        for (ip, both) in perms(p.imports.len()).into_iter().enumerate().map(|(i, x)| (x, i == 0 || dp.len() * p.imports.len() <= limit)) {
            for d in dp.iter().take(if both { usize::MAX } else { 1 }) {
                let mut v = base.clone();
                let q = &mut v.pkgs[k];
                q.imports = ip.iter().map(|i| p.imports[*i].clone()).collect();
                for (to, from) in printed.iter().zip(d) {
                    q.decls[*to] = p.decls[printed[*from]].clone();
                }
                if v.pkgs.iter().map(|x| x.zs()).collect::<Vec<_>>() != base.pkgs.iter().map(|x| x.zs()).collect::<Vec<_>>() {
                    list.push(v);
                }
            }
        }
    }
    o.push(base);
    for (k, mut v) in list.into_iter().enumerate() {
        v.name = format!("{}_v{k}", v.name);
        o.push(v);
    }
}
fn leaf(w: u8) -> Decl {
    st("Leaf", vec![f("k", u(w))])
}

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let limit = if thorough { 720 } else { 24 };
    let mut add = |x: Unit| variants(&mut o, x, limit);
    // constants that need each other
    add(unit("orconst", "constants before their operands", vec![
        konst("TOTAL", u(8), bin("+", id("HALF"), id("ONE"))),
        konst("HALF", u(8), bin("*", id("ONE"), n(2))),
        konst("ONE", u(8), n(1)),
        st("Abc", vec![f("a", u(4)).fixed(id("HALF")).vals(&[3]), f("b", u(4)).fixed(id("TOTAL")).vals(&[5]), f("c", u(2))]),
    ], vec![root("orconst.Abc").alpha(2)]));
    // subtypes of subtypes
    add(unit("orsub", "subtypes before what they name", vec![
        sub("Outer", r("Middle")),
        sub("Middle", r("Leaf")),
        leaf(5),
        st("Abc", vec![f("a", r("Outer")), f("b", r("Middle")).arr().lens(&[0, 2]), f("c", r("Leaf")).opt()]),
    ], vec![root("orsub.Abc").alpha(2)]));
    add(unit("orsubs", "subtypes of builtin types", vec![
        sub("Width", u(5)),
        sub("Deep", r("Width")),
        konst("MANY", r("Deep"), n(3)),
        st("Abc", vec![f("a", r("Deep")), f("b", r("Width")).fixed(id("MANY")).vals(&[1]), f("c", r("Deep")).arr().packed().lens(&[0, 2])]),
    ], vec![root("orsubs.Abc").alpha(2)]));
    // enumerations with constants, choices on them
    add(unit("orenum", "enums, choices and constants", vec![
        en("Color", u(4), &[("RED", Some(id("START")), 3), ("BLUE", None, 4), ("DARK", Some(bin("+", id("START"), n(6))), 9)]),
        konst("START", u(8), n(3)),
        ch("Pick", vec![("c", r("Color"))], id("c"), vec![(vec![Ex::Lit("RED".into(), 3)], Some(f("a", u(5)))), (vec![Ex::Lit("DARK".into(), 9)], Some(f("b", s(Scalar::Str))))], Some(None)),
        st("Abc", vec![f("c", r("Color")), f("p", ra("Pick", vec![id("c")]))]),
    ], vec![root("orenum.Abc").alpha(3)]));
    add(unit("ormask", "bitmasks and constants of their values", vec![
        bm("Perm", u(6), &[("READ", Some(id("BASE")), 4), ("WRITE", None, 8), ("BOTH", Some(n(12)), 12)]),
        konst("BASE", u(8), n(4)),
        un("Uni", vec![f("p", r("Perm")), f("c", r("Leaf"))]),
        leaf(3),
        st("Abc", vec![f("u", r("Uni")), f("p", r("Perm"))]),
    ], vec![root("ormask.Abc").alpha(3)]));
    // templates: what is instantiated, by whom first
    let wrap = |name: &str, t: Ty| st(name, vec![f("one", t.clone()), f("many", t).arr().lens(&[0, 2]), f("end", u(2)).vals(&[2])]);
    use templ::{inst, raw, tmpl, tr};
    add(unit("ortempl", "templates and their users", vec![
        tmpl(wrap("Box", rt("T", "T")), "T"),
        leaf(5),
        st("Abc", vec![f("a", tr("Box", &["Leaf"])), f("b", tr("Box", &["uint8"]))]),
        st("Bcd", vec![f("a", tr("Box", &["uint8"])), f("b", tr("Box", &["Leaf"])), f("c", tr("Box", &["string"]))]),
        inst(wrap("BoxLeaf", r("Leaf"))),
        inst(wrap("Boxuint8", u(8))),
        inst(wrap("Boxstring", s(Scalar::Str))),
    ], vec![root("ortempl.Abc").alpha(2), root("ortempl.Bcd").alpha(2).dev(2)]));
    add(unit("orinst", "named instantiations", vec![
        raw(0, "instantiate Box<Leaf> Leaves;"),
        raw(1, "instantiate Box<uint8> Bytes;"),
        tmpl(wrap("Box", rt("T", "T")), "T"),
        leaf(5),
        st("Abc", vec![f("a", r("Leaves")), f("b", r("Bytes")), f("c", tr("Box", &["Leaf"]))]),
        inst(wrap("BoxLeaf", r("Leaf"))),
        inst(wrap("Leaves", r("Leaf"))),
        inst(wrap("Bytes", u(8))),
    ], vec![root("orinst.Abc").alpha(2)]));
    add(unit("ornest", "templates of templates", vec![
        tmpl(wrap("Box", rt("T", "T")), "T"),
        tmpl(st("Pair", vec![f("x", rt("Box<T>", "")), f("y", rt("T", "T"))]), "T"),
        st("Abc", vec![f("a", tr("Pair", &["uint8"])), f("b", tr("Box", &["uint16"]))]),
        st("Bcd", vec![f("a", tr("Pair", &["uint16"])), f("b", tr("Box", &["uint8"]))]),
        inst(st("Pairuint8", vec![f("x", tr("Box", &["uint8"])), f("y", u(8))])),
        inst(st("Pairuint16", vec![f("x", tr("Box", &["uint16"])), f("y", u(16))])),
        inst(wrap("Boxuint8", u(8))),
        inst(wrap("Boxuint16", u(16))),
    ], vec![root("ornest.Abc").alpha(2).dev(3), root("ornest.Bcd").alpha(2).dev(3)]));
    // instantiations that would get the same name, in different declarations
    let two = |name: &str, a: Ty, b: Ty| st(name, vec![f("p", a), f("qs", b.clone()).arr().lens(&[0, 2]), f("q", b)]);
    add(unit("orglue", "instantiations whose names coincide", vec![
        tmpl(two("Tw", rt("P", "P"), rt("Q", "Q")), "P, Q"),
        st("Abc", vec![f("a", rt("Tw<Ka, KbKb>", "TwKaKbKb"))]),
        un("Bcd", vec![f("b", rt("Tw<KaKb, Kb>", "TwKaKbKbInstance")), f("x", u(3))]),
        un("Aunt", vec![f("a", rt("Tw<Ka, KbKb>", "TwKaKbKb"))]),
        st("Ka", vec![f("x", u(3))]),
        st("KaKb", vec![f("x", u(9))]),
        st("Kb", vec![f("x", s(Scalar::Str))]),
        st("KbKb", vec![f("y", u(1))]),
        inst(two("TwKaKbKb", r("Ka"), r("KbKb"))),
        inst(two("TwKaKbKbInstance", r("KaKb"), r("Kb"))),
    ], vec![root("orglue.Abc").alpha(2), root("orglue.Bcd").alpha(2), root("orglue.Aunt")]));
    // parameters
    add(unit("orparam", "parametrised types before their parameters' types", vec![
        st("Body", vec![f("xs", u(3)).fixed(dot(id("h"), "cnt")).vals(&[1]), f("y", u(4)).cond(bin("==", dot(id("h"), "kind"), item("Kind", "FULL"))).vals(&[9])]).params(vec![("h", r("Head"))]),
        st("Head", vec![f("cnt", u(3)).vals(&[0, 2]), f("kind", r("Kind"))]),
        en("Kind", u(2), &[("NONE", None, 0), ("FULL", None, 1)]),
        st("Abc", vec![f("h", r("Head")), f("b", ra("Body", vec![id("h")]))]),
    ], vec![root("orparam.Abc").alpha(2)]));
    // packed compounds
    add(unit("orpack", "packed compounds", vec![
        st("Item", vec![f("a", u(16)).vals(&[1, 500]), f("p", r("Point")), f("e", r("Kind")).opt()]),
        st("Point", vec![f("x", s(Scalar::Var)), f("y", u(3))]),
        en("Kind", u(7), &[("NONE", None, 0), ("FULL", None, 1)]),
        st("Abc", vec![f("iz", r("Item")).arr().packed().lens(&[0, 2])]),
    ], vec![root("orpack.Abc").alpha(2).dev(3)]));
    // functions and conditions over constants and enum items
    add(unit("orfunc", "functions over later declarations", vec![
        st("Abc", vec![f("k", r("Kind")), f("v", u(5)).cond(bin("==", id("k"), item("Kind", "FULL"))).vals(&[7])]).func("lim", u(32), bin("+", id("LIMIT"), n(1))),
        en("Kind", u(2), &[("NONE", None, 0), ("FULL", Some(n(2)), 2)]),
        konst("LIMIT", u(32), bin("*", id("STEP"), n(10))),
        konst("STEP", u(8), n(7)),
    ], vec![root("orfunc.Abc").alpha(3)]));
    // imports
    let multi = |name: &str, what: &str, pkgs: Vec<Pkg>, roots: Vec<Root>| {
        let mut x = unit(name, what, vec![], roots);
        x.pkgs = pkgs;
        x
    };
    let imp = |mut p: Pkg, i: &[&str]| {
        p.imports = i.iter().map(|x| x.to_string()).collect();
        p
    };
    add(multi("orimp", "orders of imports", vec![
        imp(pkg("orimp", vec![st("Abc", vec![f("a", rt("Leaf", "orimpb.Leaf")), f("b", rt("Twig", "orimpa.Twig")), f("c", rt("orimpc.Other", "orimpc.Other"))])]), &["orimpa.Twig", "orimpb.Leaf", "orimpc.Other"]),
        pkg("orimpa", vec![leaf(3), st("Twig", vec![f("l", r("Leaf")), f("t", u(2))])]),
        pkg("orimpb", vec![leaf(5), st("Twig", vec![f("l", r("Leaf"))])]),
        pkg("orimpc", vec![leaf(9), st("Other", vec![f("x", u(1))])]),
    ], vec![root("orimp.Abc").alpha(2)]));
    add(multi("orimpall", "orders of whole-package imports", vec![
        imp(pkg("orimpall", vec![st("Abc", vec![f("a", rt("Leaf", "orimpallb.Leaf")), f("b", rt("Twig", "orimpalla.Twig")), f("n", u(4)).fixed(Ex::Name("CNT".into(), "orimpallc.CNT".into())).vals(&[3])])]), &["orimpalla.*", "orimpallb.*", "orimpallc.*"]),
        imp(pkg("orimpalla", vec![st("Twig", vec![f("l", rt("Leaf", "orimpallb.Leaf")), f("t", u(2))])]), &["orimpallb.Leaf", "orimpallc.*"]),
        pkg("orimpallb", vec![leaf(5)]),
        pkg("orimpallc", vec![konst("CNT", u(8), n(2)), st("Other", vec![f("x", u(1))])]),
    ], vec![root("orimpall.Abc").alpha(2), root("orimpalla.Twig").alpha(2)]));
    // a symbol beside a whole package that has the same name
    add(multi("orimpmix", "an imported symbol and whole packages", vec![
        imp(pkg("orimpmix", vec![leaf(7), st("Abc", vec![f("a", r("Leaf")), f("b", rt("Twig", "orimpmixa.Twig")), f("c", rt("orimpmixb.Leaf", "orimpmixb.Leaf"))])]), &["orimpmixb.*", "orimpmixc.*", "orimpmixa.Twig"]),
        pkg("orimpmixa", vec![leaf(3), st("Twig", vec![f("l", r("Leaf"))])]),
        pkg("orimpmixb", vec![leaf(5), st("Twig", vec![f("l", r("Leaf")), f("more", u(1))])]),
        pkg("orimpmixc", vec![st("Twig", vec![f("l", u(6))])]),
    ], vec![root("orimpmix.Abc").alpha(2)]));
    // packages that use each other, instantiations of one template in several packages
    add(multi("orcycle", "packages that import each other", vec![
        imp(pkg("orcycle", vec![st("Abc", vec![f("a", rt("Mid", "orcyclea.Mid")), f("k", u(3))]), leaf(3)]), &["orcyclea.*"]),
        imp(pkg("orcyclea", vec![st("Mid", vec![f("l", rt("orcycle.Leaf", "orcycle.Leaf")), f("own", r("Leaf"))]), leaf(6)]), &["orcycle.*"]),
    ], vec![root("orcycle.Abc").alpha(2)]));
    add(multi("ortmany", "one template used by several packages", vec![
        pkg("ortmany", vec![tmpl(wrap("Box", rt("T", "T")), "T"), st("Own", vec![f("x", tr("Box", &["uint8"]))]), inst(wrap("Boxuint8", u(8)))]),
        imp(pkg("ortmanya", vec![leaf(5), st("Abc", vec![f("x", tr("Box", &["uint8"])), f("y", tr("Box", &["Leaf"]))]), inst(wrap("Boxuint8", u(8))), inst(wrap("BoxLeaf", r("Leaf")))]), &["ortmany.*"]),
        imp(pkg("ortmanyb", vec![leaf(9), st("Abc", vec![f("y", tr("Box", &["Leaf"])), f("x", tr("Box", &["uint8"]))]), inst(wrap("Boxuint8", u(8))), inst(wrap("BoxLeaf", r("Leaf")))]), &["ortmany.Box"]),
    ], vec![root("ortmany.Own").alpha(2), root("ortmanya.Abc").alpha(2).dev(2), root("ortmanyb.Abc").alpha(2).dev(2)]));
    // a deeper tree of packages, every kind of declaration: orders met by the compiler only
    let big = multi("ortree", "a tree of packages", vec![
        imp(pkg("ortree", vec![st("Abc", vec![f("a", rt("Leaf", "ortree.deep.Leaf")), f("c", rt("Col", "ortree.deep.more.Col"))]), st("Bcd", vec![f("x", u(3))]), sub("Sx", u(3))]), &["ortree.deep.*", "ortree.deep.more.*"]),
        pkg("ortree.deep", vec![leaf(5), un("Uni", vec![f("a", u(3)), f("b", r("Leaf"))]), konst("QQ", u(8), n(4))]),
        imp(pkg("ortree.deep.more", vec![en("Col", u(3), &[("RED", None, 0), ("BLUE", None, 1)]), bm("Msk", u(3), &[("AA", None, 1)]), ch("Cho", vec![("s", u(3))], id("s"), vec![(vec![n(1)], Some(f("a", rt("Leaf", "ortree.deep.Leaf"))))], Some(None))]), &["ortree.deep.Leaf"]),
    ], vec![root("ortree.Abc").alpha(2)]);
    o.push(big);
    if thorough {
        // what other properties use
        for us in [sel::units(false), names::units(false), templ::units(false), params::units(false), enums::units(false), wire::units(false)] {
            for mut x in us {
                x.roots.truncate(0);
                if !o.iter().any(|y| y.name == x.name) {
                    o.push(x);
                }
            }
        }
    }
    o
}
