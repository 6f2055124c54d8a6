//! C19: which declaration a name means.
use super::*;

const WIDTH: [u8; 3] = [5, 9, 17];
const LONG: [&str; 3] = ["a", "b", "c"];

/// Where the simple name `Leaf` points as seen from package a; None if the reference compiler
/// refuses the schema.
fn simple(has: [bool; 3], imp: [usize; 2]) -> Option<usize> {
    let single: Vec<usize> = (0..2).filter(|k| imp[*k] == 2).map(|k| k + 1).collect();
    let star: Vec<usize> = (0..2).filter(|k| imp[*k] == 1 && has[*k + 1]).map(|k| k + 1).collect();
    match (has[0], single.len(), star.len()) {
        (true, 0, _) => Some(0),
        (false, 1, _) => Some(single[0]),
        (false, 0, 1) => Some(star[0]),
        _ => None,
    }
}

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    // every placement of one name over three packages x every import form x every reference form
    // import forms: 0 none, 1 all, 2 the symbol, 3 another symbol
    let mut k = 0;
    for place in 1..8usize {
        let has = [place & 1 > 0, place & 2 > 0, place & 4 > 0];
        for ib in 0..4usize {
            for ic in 0..4usize {
                if ib == 2 && !has[1] || ic == 2 && !has[2] {
                    continue;
                }
                let imp = [ib, ic];
                let mut refs: Vec<(String, usize)> = vec![];
                let un = format!("ns{}", letters(k));
                let pn = |j: usize| format!("{un}{}", LONG[j]);
                if let Some(t) = simple(has, imp) {
                    refs.push(("Leaf".into(), t));
                }
                if has[0] {
                    refs.push((format!("{}.Leaf", pn(0)), 0));
                }
                for j in 1..3 {
                    if has[j] && (imp[j - 1] == 1 || imp[j - 1] == 2) {
                        refs.push((format!("{}.Leaf", pn(j)), j));
                    }
                }
                // only configurations that involve another package
                if refs.is_empty() || (place == 1 && (ib, ic) != (1, 1)) || (!thorough && ib == ic && ib == 3) {
                    continue;
                }
                k += 1;
                let mut pkgs = vec![];
                for j in 0..3 {
                    let mut ds = vec![st(&format!("Other{}", LONG[j]), vec![f("v", u(2))])];
                    if has[j] {
                        ds.push(st("Leaf", vec![f("v", u(WIDTH[j]))]));
                        // what the package itself means by the name (refused where a symbol import says otherwise)
                        if j > 0 || simple(has, imp).is_some() {
                            ds.push(st(&format!("Own{}", LONG[j]), vec![f("leaf", r("Leaf")), f("t", u(2)).vals(&[1])]));
                        }
                    }
                    if j == 0 {
                        let fs = refs
                            .iter()
                            .enumerate()
                            .flat_map(|(i, (t, to))| {
                                let ty = || rt(t, &format!("{}.Leaf", pn(*to)));
                                vec![f(&format!("a{}", letters(i)), ty()), f(&format!("b{}", letters(i)), ty()).arr().lens(&[1])]
                            })
                            .collect();
                        ds.push(st("Abc", fs));
                    }
                    let mut p = pkg(&pn(j), ds);
                    if j == 0 {
                        for (x, form) in imp.iter().enumerate() {
                            match form {
                                1 => p.imports.push(format!("{}.*", pn(x + 1))),
                                2 => p.imports.push(format!("{}.Leaf", pn(x + 1))),
                                3 => p.imports.push(format!("{}.Other{}", pn(x + 1), LONG[x + 1])),
                                _ => {}
                            }
                        }
                    }
                    pkgs.push(p);
                }
                let mut rs = vec![root(&format!("{}.Abc", pn(0))).alpha(3).dev(1)];
                for j in 0..3 {
                    if has[j] && (j > 0 || simple(has, imp).is_some()) {
                        rs.push(root(&format!("{}.Own{}", pn(j), LONG[j])).alpha(3));
                    }
                }
                let mut x = unit(&un, "one name in several packages", vec![], rs);
                x.pkgs = pkgs;
                o.push(x);
            }
        }
    }
    let multi = |name: &str, what: &str, pkgs: Vec<Pkg>, roots: Vec<Root>| {
        let mut x = unit(name, what, vec![], roots);
        x.pkgs = pkgs;
        x
    };
    let imp = |mut p: Pkg, i: &[&str]| {
        p.imports = i.iter().map(|x| x.to_string()).collect();
        p
    };
    // package trees
    o.push(multi(
        "nstree",
        "packages inside packages",
        vec![
            imp(pkg("nstree", vec![st("Abc", vec![f("a", rt("Leaf", "nstree.deep.Leaf")), f("b", rt("nstree.deep.more.Inner", "nstree.deep.more.Inner")), f("c", rt("Item", "nstree.other.Item")), f("d", rt("nstree.deep.Leaf", "nstree.deep.Leaf"))])]), &["nstree.deep.*", "nstree.deep.more.*", "nstree.other.Item"]),
            pkg("nstree.deep", vec![st("Leaf", vec![f("v", u(5))])]),
            imp(pkg("nstree.deep.more", vec![st("Inner", vec![f("v", u(9)), f("l", rt("Leaf", "nstree.deep.Leaf"))])]), &["nstree.deep.Leaf"]),
            pkg("nstree.other", vec![st("Item", vec![f("v", u(17))]), st("Leaf", vec![f("v", u(33))])]),
        ],
        vec![root("nstree.Abc")],
    ));
    // the same name used by types of several packages that meet in one
    let same = |p: &str, w: u8, v: i128| {
        pkg(
            p,
            vec![
                st("Leaf", vec![f("v", u(w))]),
                en("Kind", u(w), &[("FIRST", Some(n(v)), v), ("SECOND", None, v + 1)]),
                bm("Flags", u(w), &[("ONE", Some(n(v.max(1))), v.max(1)), ("FIVE", Some(n(16)), 16)]),
                sub("Num", u(w + 1)),
                konst("SIZE", u(8), n(v)),
                un("Either", vec![f("a", r("Leaf")), f("b", r("Num"))]),
                st("Holder", vec![f("leaf", r("Leaf")), f("kind", r("Kind")), f("num", r("Num")), f("xs", r("Leaf")).fixed(id("SIZE")), f("e", r("Either")), f("c", u(4)).cond(bin("==", id("kind"), item("Kind", "SECOND"))).vals(&[9]), f("fl", r("Flags"))]).func("size", u(8), id("SIZE")),
            ],
        )
    };
    let two = |name: &str, star: bool| {
        let (pb, pc) = (format!("{name}b"), format!("{name}c"));
        let q = |p: &str, x: &str| rt(&format!("{p}.{x}"), &format!("{p}.{x}"));
        let a = pkg(
            &format!("{name}a"),
            vec![st(
                "Abc",
                vec![
                    f("la", q(&pb, "Holder")),
                    f("lb", q(&pc, "Holder")),
                    f("ka", q(&pb, "Kind")),
                    f("kb", q(&pc, "Kind")),
                    f("na", q(&pb, "Num")),
                    f("nb", q(&pc, "Num")).arr(),
                    f("fa", q(&pb, "Flags")),
                    f("fb", q(&pc, "Flags")),
                    f("ea", q(&pb, "Either")),
                    f("eb", q(&pc, "Either")).opt(),
                    f("xa", q(&pc, "Leaf")).arr().packed(),
                    f("tail", u(1)),
                ],
            )],
        );
        let i: Vec<String> = if star { vec![format!("{pb}.*"), format!("{pc}.*")] } else { ["Holder", "Kind", "Num", "Flags", "Either", "Leaf"].iter().flat_map(|x| vec![format!("{pb}.{x}"), format!("{pc}.{x}")]).collect() };
        let a = Pkg { imports: i, ..a };
        multi(name, "same-named types of two packages in one structure", vec![a, same(&pb, 5, 2), same(&pc, 11, 3)], vec![root(&format!("{name}a.Abc")).alpha(2).dev(2).lens(&[1, 0]), root(&format!("{pb}.Holder")).alpha(2), root(&format!("{pc}.Holder")).alpha(2)])
    };
    o.push(two("nsmeet", true));
    o.push(two("nsmeets", false));
    // local names win over imported ones in expressions
    let a = imp(
        pkg(
            "nslocala",
            vec![
                en("Kind", u(4), &[("FIRST", Some(n(9)), 9), ("SECOND", None, 10)]),
                konst("SIZE", u(8), n(1)),
                st("Abc", vec![f("k", r("Kind")), f("h", rt("nslocalb.Holder", "nslocalb.Holder")), f("x", u(3)).fixed(id("SIZE")), f("c", u(4)).cond(bin("==", id("k"), item("Kind", "SECOND"))).vals(&[9])]).func("size", u(8), id("SIZE")),
            ],
        ),
        &["nslocalb.*"],
    );
    o.push(multi("nslocal", "local names hide imported ones", vec![a, same("nslocalb", 5, 2)], vec![root("nslocala.Abc").alpha(2), root("nslocalb.Holder").alpha(2)]));
    // imported names in every position
    let b = "nsposb";
    let a = imp(
        pkg(
            "nsposa",
            vec![
                sub("Alias", rt("Leaf", "nsposb.Leaf")),
                sub("Deeper", r("Alias")),
                konst("TWICE", u(8), bin("*", id("nsposb.SIZE"), n(2))),
                ch("Pick", vec![("k", rt("Kind", "nsposb.Kind"))], id("k"), vec![(vec![Ex::Item("Kind".into(), "nsposb.Kind".into(), "FIRST".into())], Some(f("a", rt("Leaf", "nsposb.Leaf"))))], Some(Some(f("b", r("Deeper"))))),
                un("Mine", vec![f("a", rt("Leaf", "nsposb.Leaf")), f("b", rt("Num", "nsposb.Num"))]),
                st(
                    "Abc",
                    vec![
                        f("k", rt("Kind", "nsposb.Kind")),
                        f("p", ra("Pick", vec![id("k")])),
                        f("m", r("Mine")),
                        f("d", r("Deeper")).arr(),
                        f("x", u(3)).fixed(id("nsposb.SIZE")),
                        f("y", u(3)).fixed(id("TWICE")),
                        f("c", u(4)).cond(bin("==", id("k"), Ex::Item("Kind".into(), "nsposb.Kind".into(), "SECOND".into()))).vals(&[9]),
                    ],
                )
                .func("size", u(8), id("nsposb.SIZE")),
            ],
        ),
        &["nsposb.*"],
    );
    let _ = b;
    o.push(multi("nspos", "imported names in every position", vec![unqualify(a, "nsposb."), same("nsposb", 5, 2)], vec![root("nsposa.Abc").alpha(2).dev(3)]));
    // qualified enum items
    let a = imp(
        pkg(
            "nsquala",
            vec![
                en("Kind", u(4), &[("FIRST", Some(n(9)), 9), ("SECOND", None, 10)]),
                st(
                    "Abc",
                    vec![
                        f("k", rt("nsqualb.Kind", "nsqualb.Kind")),
                        f("c", u(4)).cond(bin("==", id("k"), Ex::Item("nsqualb.Kind".into(), "nsqualb.Kind".into(), "SECOND".into()))).vals(&[9]),
                    ],
                ),
            ],
        ),
        &["nsqualb.*"],
    );
    o.push(multi("nsqual", "items of fully qualified enums", vec![a, same("nsqualb", 5, 2)], vec![root("nsquala.Abc").alpha(2)]));
    // chains of subtypes across packages that reuse the name
    o.push(multi(
        "nschain",
        "subtypes of same-named subtypes",
        vec![
            imp(pkg("nschaina", vec![sub("Value", rt("nschainb.Value", "nschainb.Value")), st("Abc", vec![f("a", r("Value")), f("b", rt("nschainb.Value", "nschainb.Value")).arr(), f("c", r("Value")).arr().packed()])]), &["nschainb.*"]),
            imp(pkg("nschainb", vec![sub("Value", rt("nschainc.Value", "nschainc.Value")), st("Bcd", vec![f("a", r("Value"))])]), &["nschainc.*"]),
            pkg("nschainc", vec![st("Value", vec![f("v", u(7)), f("w", s(Scalar::Str))])]),
        ],
        vec![root("nschaina.Abc").alpha(2), root("nschainb.Bcd").alpha(2)],
    ));
    // packages that import each other
    o.push(multi(
        "nscycle",
        "packages that import each other",
        vec![
            imp(pkg("nscyclea", vec![st("Abc", vec![f("a", rt("Bcd", "nscycleb.Bcd")), f("b", r("Leaf"))]), st("Leaf", vec![f("v", u(5))])]), &["nscycleb.*"]),
            imp(pkg("nscycleb", vec![st("Bcd", vec![f("a", r("Leaf")), f("b", rt("nscyclea.Leaf", "nscyclea.Leaf"))]), st("Leaf", vec![f("v", u(9))])]), &["nscyclea.*"]),
        ],
        vec![root("nscyclea.Abc"), root("nscycleb.Bcd")],
    ));
    // names of other packages that are not imported do not matter
    o.push(multi(
        "nsdirect",
        "only direct imports count",
        vec![
            imp(pkg("nsdirecta", vec![st("Abc", vec![f("a", rt("Leaf", "nsdirectc.Leaf")), f("m", rt("Mid", "nsdirectb.Mid"))])]), &["nsdirectb.Mid", "nsdirectc.*"]),
            imp(pkg("nsdirectb", vec![st("Mid", vec![f("a", rt("Leaf", "nsdirectb.Leaf"))]), st("Leaf", vec![f("v", u(9))])]), &["nsdirectd.*"]),
            pkg("nsdirectc", vec![st("Leaf", vec![f("v", u(17))])]),
            pkg("nsdirectd", vec![st("Leaf", vec![f("v", u(33))])]),
        ],
        vec![root("nsdirecta.Abc")],
    ));
    // names that differ only in spelling of the package or type
    o.push(multi(
        "nsspell",
        "packages and types whose names differ from their Rust spelling",
        vec![
            imp(pkg("nsspell.thePackage", vec![st("Abc", vec![f("a", rt("theLeaf", "nsspell.other_one.theLeaf")), f("b", rt("nsspell.other_one.LEAF_two", "nsspell.other_one.LEAF_two")), f("c", rt("nsspell.Third.theLeaf", "nsspell.Third.theLeaf"))])]), &["nsspell.other_one.theLeaf", "nsspell.other_one.LEAF_two", "nsspell.Third.Other"]),
            pkg("nsspell.other_one", vec![st("theLeaf", vec![f("v", u(9))]), st("LEAF_two", vec![f("v", u(5))])]),
            pkg("nsspell.Third", vec![st("theLeaf", vec![f("v", u(17))]), st("Other", vec![f("v", u(3))])]),
        ],
        vec![root("nsspell.thePackage.Abc")],
    ));
    if let Some(x) = o.last_mut() {
        // the simple name is ambiguous with two symbol imports: import everything of the third package
        x.pkgs[0].imports = vec!["nsspell.other_one.theLeaf".into(), "nsspell.other_one.LEAF_two".into(), "nsspell.Third.*".into()];
    }
    // packages, types and constants named like words of Rust
    let third = Ex::Name("nsword.type.MUT".into(), "nsword.type.MUT".into());
    o.push(multi(
        "nsword",
        "packages, types and constants named like words of Rust",
        vec![
            imp(
                pkg("nsword.match.loop", vec![st("Abc", vec![f("a", rt("Move", "nsword.move.Move")), f("b", rt("nsword.move.Box", "nsword.move.Box")), f("c", rt("nsword.type.fn.Impl", "nsword.type.fn.Impl")), f("d", u(4)).fixed(third), f("e", rt("Result", "nsword.type.fn.Result")).arr().packed()]), st("Loop", vec![f("v", u(3))])]),
                &["nsword.move.*", "nsword.type.MUT", "nsword.type.fn.Result", "nsword.type.fn.Impl"],
            ),
            pkg("nsword.move", vec![st("Move", vec![f("v", u(9))]), st("Box", vec![f("v", u(5)).arr()])]),
            pkg("nsword.type", vec![konst("MUT", u(4), n(3)), st("Loop", vec![f("v", u(3))])]),
            imp(pkg("nsword.type.fn", vec![st("Move", vec![f("v", u(17))]), st("Result", vec![f("v", u(3)), f("self", s(Scalar::Str)).opt()]), st("Impl", vec![f("a", rt("Loop", "nsword.type.Loop"))])]), &["nsword.type.Loop"]),
        ],
        vec![root("nsword.match.loop.Abc").dev(3), root("nsword.type.fn.Impl")],
    ));
    o
}
/// Prints names without the package prefix the model needs.
fn unqualify(mut p: Pkg, prefix: &str) -> Pkg {
    fn ex(e: &mut Ex, prefix: &str) {
        match e {
            Ex::Id(n) => {
                if let Some(x) = n.strip_prefix(prefix) {
                    *e = Ex::Name(x.to_string(), n.clone());
                }
            }
            Ex::Dot(a, _) | Ex::Un(_, a) | Ex::Len(a) | Ex::ValOf(a) | Ex::NumBits(a) | Ex::Call(a) | Ex::Par(a) => ex(a, prefix),
            Ex::Idx(a, b) | Ex::Bin(_, a, b) | Ex::IsSet(a, b) => {
                ex(a, prefix);
                ex(b, prefix);
            }
            Ex::Tern(a, b, c) => {
                ex(a, prefix);
                ex(b, prefix);
                ex(c, prefix);
            }
            _ => {}
        }
    }
    for d in &mut p.decls {
        for q in &mut d.funcs {
            ex(&mut q.ex, prefix);
        }
        match &mut d.kind {
            Kind::Struct { fields } => {
                for x in fields {
                    if let Ar::Fixed(e) = &mut x.ar {
                        ex(e, prefix);
                    }
                    if let Some(e) = &mut x.cond {
                        ex(e, prefix);
                    }
                }
            }
            Kind::Const { ex: e, .. } => ex(e, prefix),
            _ => {}
        }
    }
    p
}
