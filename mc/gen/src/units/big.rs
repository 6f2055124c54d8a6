//! More of everything: many members, many elements, many levels (only for the property they belong to).
use super::*;

fn longs(extra: &[usize]) -> Vec<usize> {
    let mut v = vec![1, 127, 128, 129, 255, 256, 257];
    v.extend_from_slice(extra);
    v
}
/// C12
pub fn wire(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let edge: &[usize] = if thorough { &[16383, 16384, 16385, 65535, 65536, 65537, 70000] } else { &[16383, 16384, 65536] };
    let leaf = || st("Leaf", vec![f("a", u(8)).vals(&[3, 4, 250]), f("b", i(13)).vals(&[-9, 77])]);
    let color = || en("Color", u(3), &[("RED", None, 0), ("BLUE", None, 1), ("DARK", Some(n(6)), 6)]);
    let elems: Vec<(&str, Vec<Decl>, Ty)> = vec![
        ("lnbool", vec![], s(Scalar::Bool)),
        ("lnodd", vec![], u(13)),
        ("lnwide", vec![], i(64)),
        ("lnvar", vec![], s(Scalar::VarU)),
        ("lnflt", vec![], s(Scalar::F32)),
        ("lnstr", vec![], s(Scalar::Str)),
        ("lnext", vec![], s(Scalar::Extern)),
        ("lnbyt", vec![], s(Scalar::Bytes)),
        ("lncmp", vec![leaf()], r("Leaf")),
        ("lnenum", vec![color()], r("Color")),
    ];
    for (nm, ds, ty) in elems {
        let mut ds = ds;
        let big = matches!(nm, "lnstr" | "lnext" | "lnbyt");
        let xs = f("xs", ty).arr().lens(&longs(if big && !thorough { &edge[..1] } else { edge }));
        ds.push(st("Abc", vec![f("pre", u(3)).vals(&[5]), xs, f("post", u(2)).vals(&[2])]));
        o.push(unit(nm, "long arrays", ds, vec![root(&format!("{nm}.Abc")).alpha(3)]));
    }
    let t = st("Abc", vec![f("pre", u(8)).vals(&[5]), f("xs", u(16)).arr().lens(&longs(edge)).implicit()]);
    let _ = t;
    // members
    let ks = kinds();
    let fs = (0..330).map(|i| f(&vn(i), s(ks[i % ks.len()]))).collect();
    o.push(unit("mnfields", "a structure of 330 fields", vec![st("Abc", fs)], vec![root("mnfields.Abc").alpha(3).dev(1)]));
    // levels
    let mut ds = vec![st("La", vec![f("v", u(5)).vals(&[9, 1])])];
    let depth = 40;
    for k in 1..depth {
        let inner = format!("L{}", letters(k - 1));
        ds.push(st(&format!("L{}", letters(k)), vec![f("x", u(1)).vals(&[1, 0]), if k % 4 == 3 { f("n", r(&inner)).arr().lens(&[1]) } else { f("n", r(&inner)) }, f("y", u(2)).vals(&[2, 1])]));
    }
    ds.push(st("Abc", vec![f("top", r(&format!("L{}", letters(depth - 1)))), f("post", u(3)).vals(&[5])]));
    o.push(unit("mnlevels", "forty levels of structures", ds, vec![root("mnlevels.Abc").dev(1)]));
    o
}
/// C13
pub fn opt(_: bool) -> Vec<Unit> {
    let mut o = vec![];
    let ks: Vec<Scalar> = kinds().into_iter().filter(|k| !BLOBS.contains(k)).collect();
    let mut fs = vec![f("act", s(Scalar::Bool)), f("sel", u(8)).vals(&[1, 0, 200])];
    for i in 0..140 {
        let x = f(&vn(i), s(ks[i % ks.len()]));
        fs.push(match i % 5 {
            0 | 1 | 3 => x.opt(),
            2 => x.cond(bin("&&", id("act"), bin("<", id("sel"), n(i as i128)))),
            _ => x.arr().opt().lens(&[1, 0]),
        });
    }
    o.push(unit("mnoptional", "a structure of 140 optional and conditional fields", vec![st("Abc", fs)], vec![root("mnoptional.Abc").alpha(2).dev(2)]));
    o
}
/// C14
pub fn sel(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    let ks: Vec<Scalar> = kinds().into_iter().filter(|k| !BLOBS.contains(k)).collect();
    let mut cases: Vec<(Vec<Ex>, Option<Field>)> = (0..300).map(|i| (vec![n(3 * i as i128 + 1)], if i % 11 == 10 { None } else { Some(f(&vn(i), s(ks[i % ks.len()]))) })).collect();
    cases.push(((0..300).map(|i| n(3 * i + 2)).collect(), Some(f("shared", u(7)).vals(&[99, 5]))));
    let sels: Vec<i128> = (0..903).filter(|x| thorough || x % 7 < 2 || *x < 6 || *x > 890 || (250..262).contains(x)).collect();
    let d = vec![
        ch("Pick", vec![("sel", u(16))], id("sel"), cases, Some(Some(f("other", i(9)).vals(&[-77])))),
        st("Abc", vec![f("pre", u(3)).vals(&[5]), f("sel", u(16)).vals(&sels), f("pick", ra("Pick", vec![id("sel")])), f("post", u(2)).vals(&[2])]),
    ];
    o.push(unit("mncases", "a choice of 301 cases and 600 labels", d, vec![root("mncases.Abc").alpha(2)]));
    let items: Vec<String> = (0..90).map(|i| format!("I{}", letters(i).to_uppercase())).collect();
    let list: Vec<(&str, Option<Ex>, i128)> = items.iter().enumerate().map(|(i, x)| (x.as_str(), None, i as i128)).collect();
    let cases = items.iter().enumerate().map(|(i, x)| (vec![item("Kind", x)], Some(f(&vn(i), s(ks[i % ks.len()]))))).collect();
    let d = vec![
        en("Kind", u(8), &list),
        ch("Pick", vec![("sel", r("Kind"))], id("sel"), cases, None),
        st("Abc", vec![f("pre", u(3)).vals(&[5]), f("sel", r("Kind")).vals(&(0..90).collect::<Vec<_>>()), f("pick", ra("Pick", vec![id("sel")])), f("post", u(2)).vals(&[2])]),
    ];
    o.push(unit("mnitems", "a choice of 90 enum items", d, vec![root("mnitems.Abc").alpha(2)]));
    let ds = vec![un("Pick", (0..150).map(|i| f(&vn(i), s(ks[i % ks.len()]))).collect()), st("Abc", vec![f("pre", u(3)).vals(&[5]), f("xs", r("Pick")).arr().packed().lens(&[2]), f("post", u(2)).vals(&[2])])];
    o.push(unit("mnpacked", "packed elements of a union of 150 members", ds, vec![root("mnpacked.Abc").alpha(2).dev(2)]));
    o
}
/// C21
pub fn params(_: bool) -> Vec<Unit> {
    let mut o = vec![];
    let names = ["pa", "pb", "pc", "pd", "pe", "pf", "pg", "ph", "pi", "pj", "pk", "pl"];
    let part = st("Part", names.iter().enumerate().map(|(i, x)| if i % 3 == 0 { f(&format!("x{x}"), u(4)).fixed(id(x)).vals(&[5]) } else if i % 3 == 1 { f(&format!("x{x}"), Ty::DynU(Box::new(bin("+", id(x), n(1))))).vals(&[1]) } else { f(&format!("x{x}"), u(8)).cond(bin(">", id(x), n(1))).vals(&[9]) }).collect())
        .params(names.iter().map(|x| (*x, u(8))).collect());
    let fs = |v: Vec<Field>| -> Vec<Field> { names.iter().map(|x| f(x, u(3)).vals(&[1, 0, 3])).chain(v).collect() };
    let ids = |rot: usize| -> Vec<Ex> { (0..12).map(|i| id(names[(i + rot) % 12])).collect() };
    let d = vec![part, st("Abc", fs(vec![f("one", ra("Part", ids(0))), f("two", ra("Part", ids(1))), f("arr", ra("Part", ids(5))).arr().lens(&[1]), f("tail", u(2)).vals(&[2])]))];
    o.push(unit("mnparams", "twelve parameters in changing order", d, vec![root("mnparams.Abc").dev(2)]));
    // levels
    let mut ds = vec![st("La", vec![f("xs", u(4)).fixed(id("k")).vals(&[5]), f("w", Ty::DynU(Box::new(bin("+", id("k"), n(1))))).vals(&[1])]).params(vec![("k", u(16))])];
    let depth = 12;
    for k in 1..depth {
        let inner = format!("L{}", letters(k - 1));
        let arg = if k % 3 == 0 { id("k") } else if k % 3 == 1 { bin("+", id("k"), id("v")) } else { bin("-", id("k"), n(1)) };
        let fl = f("n", ra(&inner, vec![arg]));
        ds.push(st(&format!("L{}", letters(k)), vec![f("v", u(2)).vals(&[1]), match k % 4 { 1 => fl.arr().lens(&[1]), 2 => fl.opt(), _ => fl }]).params(vec![("k", u(16))]));
    }
    ds.push(st("Abc", vec![f("k", u(8)).vals(&[7, 5, 11]), f("top", ra(&format!("L{}", letters(depth - 1)), vec![id("k")])), f("tail", u(2)).vals(&[2])]));
    o.push(unit("mnparlevels", "parameters through twelve levels", ds, vec![root("mnparlevels.Abc").dev(2)]));
    let ds = vec![
        st("Part", vec![f("w", Ty::DynU(Box::new(bin("+", bin("%", id("k"), n(7)), n(1))))).vals(&[1]), f("c", u(8)).cond(bin(">", id("k"), n(250))).vals(&[9])]).params(vec![("k", u(32))]),
        st("Abc", vec![f("xs", ra("Part", vec![Ex::Index])).arr().lens(&longs(&[16384, 65537])), f("ys", ra("Part", vec![Ex::Index])).arr().packed().lens(&[300, 2]), f("tail", u(2)).vals(&[2])]),
    ];
    o.push(unit("lnindex", "the index in long arrays", ds, vec![root("lnindex.Abc")]));
    o
}
/// C05, C06
pub fn packs(_: bool) -> Vec<Unit> {
    let mut o = vec![];
    let ks = [("lpub", u(8), vec![3i128, 250, 4]), ("lpiq", i(64), vec![i64::MIN as i128, 5, -7, i64::MAX as i128]), ("lpvu", s(Scalar::VarU), vec![1, 1 << 50]), ("lpcst", u(32), vec![7]), ("lpodd", i(13), vec![-5, -4, 77])];
    for (nm, ty, v) in ks {
        let d = vec![st("Abc", vec![f("pre", u(3)).vals(&[5]), f("xs", ty).arr().packed().vals(&v).lens(&longs(&[16383, 16384, 65536])), f("post", u(2)).vals(&[2])])];
        o.push(unit(nm, "long packed arrays", d, vec![root(&format!("{nm}.Abc"))]));
    }
    o
}
/// C23
pub fn packed(_: bool) -> Vec<Unit> {
    let mut o = vec![];
    let arr = |name: &str, what: &str, mut ds: Vec<Decl>, elem: Ty, lens: &[usize], alpha: usize, dev: usize| {
        ds.push(st("Abc", vec![f("head", u(3)).vals(&[5]), f("xs", elem).arr().packed().lens(lens), f("tail", u(3)).vals(&[5])]));
        unit(name, what, ds, vec![root(&format!("{name}.Abc")).alpha(alpha).lens(&[1, 0]).dev(dev)])
    };
    let leaf = || st("Leaf", vec![f("a", u(8)).vals(&[3, 4, 250]), f("s", s(Scalar::Str)), f("b", i(16)).vals(&[-1, 300])]);
    let ll = longs(&[16384]);
    o.push(arr("lpcmp", "long packed arrays of structures", vec![leaf(), st("Elem", vec![f("l", r("Leaf")), f("o", u(32)).opt().vals(&[1, 70000]), f("q", u(64)).vals(&[1, 2, 1 << 60])])], r("Elem"), &ll, 2, 2));
    o.push(arr("lpuni", "long packed arrays of unions", vec![leaf(), un("Either", vec![f("a", r("Leaf")), f("b", u(16)).vals(&[1, 900]), f("c", s(Scalar::Bool))])], r("Either"), &ll, 2, 2));
    o.push(arr("lpenm", "long packed arrays of enums", vec![en("Color", i(16), &[("RED", Some(unary("-", n(300))), -300), ("BLUE", None, -299), ("DARK", Some(n(600)), 600)])], r("Color"), &ll, 3, 2));
    o.push(arr("lpinn", "long arrays in packed elements", vec![st("Elem", vec![f("v", u(8)).vals(&[3, 250]), f("xs", u(16)).arr().vals(&[1, 2, 900]).lens(&[1, 300]), f("ys", u(16)).arr().packed().vals(&[1, 2, 900]).lens(&[1, 300])])], r("Elem"), &[2, 70], 2, 2));
    // levels and leaves
    let mut ds = vec![st("La", vec![f("v", u(5)).vals(&[9, 1])])];
    let depth = 12;
    for k in 1..depth {
        let inner = format!("L{}", letters(k - 1));
        let fl = f("n", r(&inner));
        ds.push(st(&format!("L{}", letters(k)), vec![f("x", u(8)).vals(&[200, 201]), match k % 4 { 1 => fl.opt(), 3 => fl.arr().lens(&[1, 2]), _ => fl }, f("y", i(32)).vals(&[-1, 70000])]));
    }
    o.push(arr("mnpklevels", "twelve levels in packed arrays", ds, r(&format!("L{}", letters(depth - 1))), &[2, 1, 3], 2, 2));
    let fs = (0..150).map(|i| f(&vn(i), if i % 7 == 6 { s(Scalar::Str) } else { u((i % 64 + 1) as u8) }).vals(&[1, 0])).map(|x| if matches!(x.ty, Ty::S(Scalar::Str)) { Field { vals: None, ..x } } else { x }).collect();
    o.push(arr("mnpkleaves", "150 leaves in packed arrays", vec![st("Elem", fs)], r("Elem"), &[2, 1, 3], 2, 1));
    o
}
