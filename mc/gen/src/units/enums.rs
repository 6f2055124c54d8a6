//! C17: enums, bitmasks and constants.
use super::*;

fn bases() -> Vec<(&'static str, Scalar)> {
    use Scalar::*;
    vec![
        ("Ub", U(8)), ("Us", U(16)), ("Uw", U(32)), ("Uq", U(64)), ("Ib", I(8)), ("Is", I(16)), ("Iw", I(32)), ("Iq", I(64)),
        ("Ba", U(1)), ("Bc", U(3)), ("Bl", U(11)), ("Bw", U(33)), ("Sc", I(3)), ("Sl", I(12)), ("Sw", I(40)),
        ("Va", VarU16), ("Vb", VarU32), ("Vc", VarU64), ("Vd", VarU), ("Ve", VarSize), ("Wa", Var16), ("Wb", Var32), ("Wc", Var64), ("Wd", Var),
    ]
}
/// Next automatic value of a bitmask.
fn next_bit(v: i128) -> i128 {
    if v == 0 { 1 } else { 1 << (128 - (v as u128).leading_zeros()) }
}
/// All explicit/implicit patterns of a few items.
fn patterns(len: usize, alpha: &[Option<i128>], mask: bool) -> Vec<Vec<(Option<i128>, i128)>> {
    let mut out = vec![];
    let total = alpha.len().pow(len as u32);
    for mut k in 0..total {
        let mut items: Vec<(Option<i128>, i128)> = vec![];
        for _ in 0..len {
            let e = alpha[k % alpha.len()];
            k /= alpha.len();
            let v = match (e, items.last()) {
                (Some(v), _) => v,
                (None, None) => mask as i128,
                (None, Some(p)) => if mask { next_bit(p.1) } else { p.1 + 1 },
            };
            items.push((e, v));
        }
        let mut vs: Vec<i128> = items.iter().map(|x| x.1).collect();
        vs.sort();
        vs.dedup();
        // a bitmask whose zero item is followed by an automatic one: the repository's tests pin 1
        // where newer reference versions give 2
        let pinned = mask && items.windows(2).any(|w| w[0].1 == 0 && w[1].0.is_none());
        if vs.len() == len && !pinned {
            out.push(items);
        }
    }
    out
}
const NAMES: [&str; 4] = ["FIRST", "second", "ThirdItem", "FOURTH_ONE"];

pub fn units(thorough: bool) -> Vec<Unit> {
    let mut o = vec![];
    // every underlying type
    let mut small = vec![];
    let mut big = vec![];
    for (nm, k) in bases() {
        let (lo, hi) = k.range();
        let mut it: Vec<(&str, Option<Ex>, i128)> = vec![("FIRST", None, 0)];
        if hi > 1 {
            it.push(("SECOND", None, 1));
            it.push(("TOP", Some(n(hi)), hi));
            if lo < 0 {
                it.push(("LOW", Some(n(lo)), lo));
                it.push(("BELOW", Some(n(-1)), -1));
            }
        } else {
            it.push(("SECOND", None, 1));
        }
        let d = en(&format!("En{nm}"), s(k), &it);
        // the extreme values of 64-bit types on their own
        if hi > i64::MAX as i128 || lo == i64::MIN as i128 || lo < -(1 << 62) { big.push(d) } else { small.push(d) }
    }
    for (nm, mut ds) in [("enumbase", small), ("enumwide", big)] {
        let mut rs: Vec<Root> = ds.iter().map(|d| root(&format!("{nm}.{}", d.name)).alpha(9)).collect();
        let mut fs = vec![f("pre", u(3)).vals(&[5])];
        for (i, d) in ds.iter().enumerate() {
            fs.push(f(&format!("one{}", letters(i)), r(&d.name)));
            fs.push(f(&format!("two{}", letters(i)), r(&d.name)).arr());
            fs.push(f(&format!("three{}", letters(i)), r(&d.name)).fixed(n(3)).packed());
        }
        ds.push(st("Abc", fs));
        rs.push(root(&format!("{nm}.Abc")).alpha(5).lens(&[1, 0, 2]).dev(2));
        o.push(unit(nm, "enums over every underlying type", ds, rs));
    }
    // numbering
    let alpha: &[Option<i128>] = &[None, Some(0), Some(2), Some(9)];
    let mut ds = vec![];
    for len in 1..=if thorough { 4 } else { 3 } {
        for p in patterns(len, alpha, false) {
            let it: Vec<(&str, Option<Ex>, i128)> = p.iter().enumerate().map(|(i, x)| (NAMES[i], x.0.map(n), x.1)).collect();
            ds.push(en(&format!("En{}", letters(ds.len())), if ds.len() % 2 == 0 { u(8) } else { s(Scalar::Var32) }, &it));
        }
    }
    let rs = ds.iter().map(|d| root(&format!("enumnum.{}", d.name)).alpha(9)).collect();
    o.push(unit("enumnum", "explicit and continuing enum values", ds, rs));
    let alpha: &[Option<i128>] = &[None, Some(-2), Some(-1), Some(5)];
    let mut ds = vec![];
    for p in patterns(3, alpha, false) {
        let it: Vec<(&str, Option<Ex>, i128)> = p.iter().enumerate().map(|(i, x)| (NAMES[i], x.0.map(n), x.1)).collect();
        ds.push(en(&format!("En{}", letters(ds.len())), if ds.len() % 2 == 0 { i(8) } else { s(Scalar::Var16) }, &it));
    }
    let rs = ds.iter().map(|d| root(&format!("enumneg.{}", d.name)).alpha(9)).collect();
    o.push(unit("enumneg", "negative and continuing enum values", ds, rs));
    // values from expressions
    let ds = vec![
        konst("BASE", u(8), n(10)),
        konst("SMALL", i(32), bin("-", id("BASE"), n(13))),
        en("Other", u(8), &[("ONE", Some(n(1)), 1), ("SEVEN", Some(n(7)), 7)]),
        en("Calc", u(8), &[("FIRST", Some(bin("+", n(1), n(2))), 3), ("NEXT", None, 4), ("FROMCONST", Some(id("BASE")), 10), ("AFTER", None, 11), ("SUM", Some(bin("*", id("BASE"), n(3))), 30), ("HEX", Some(Ex::Lit("0x40".into(), 64)), 64), ("BIN", Some(Ex::Lit("101b".into(), 5)), 5), ("SHIFT", Some(bin("<<", n(1), n(7))), 128)]),
        en("Signed", i(8), &[("NEG", Some(id("SMALL")), -3), ("NEGNEXT", None, -2), ("MINUS", Some(unary("-", id("BASE"))), -10), ("TERN", Some(tern(bin("<", id("SMALL"), n(0)), n(20), n(21))), 20)]),
        st("Abc", vec![f("a", r("Calc")), f("b", r("Signed")), f("c", r("Other"))]),
    ];
    o.push(unit("enumexpr", "enum values from expressions", ds, vec![root("enumexpr.Calc").alpha(9), root("enumexpr.Signed").alpha(9), root("enumexpr.Other").alpha(9), root("enumexpr.Abc").alpha(9)]));
    let ds = vec![
        en("Calc", u(8), &[("FIRST", Some(id("BASE")), 10), ("AFTER", None, 11)]),
        konst("BASE", u(8), id("ROOT")),
        konst("ROOT", u(8), n(10)),
        st("Abc", vec![f("a", r("Calc"))]),
    ];
    o.push(unit("enumlate", "enum values from constants declared later", ds, vec![root("enumlate.Calc"), root("enumlate.Abc")]));
    // spellings of items and types
    let ds = vec![
        en("camelCase", u(8), &[("lower", None, 0), ("UPPER", None, 1), ("camelItem", None, 2), ("snake_item", None, 3), ("With2Digits", None, 4), ("X", None, 5), ("ABCDef", None, 6), ("A1B2", None, 7)]),
        bm("snake_mask", u(8), &[("lower", None, 1), ("UPPER", None, 2), ("camelItem", None, 4), ("snake_item", None, 8), ("With2Digits", None, 16)]),
        st("Abc", vec![f("a", r("camelCase")), f("b", r("snake_mask"))]),
    ];
    o.push(unit("enumspell", "spellings of items", ds, vec![root("enumspell.Abc").alpha(9), root("enumspell.camelCase").alpha(9), root("enumspell.snake_mask").alpha(9)]));
    // one item, many items
    let names: Vec<String> = (0..130).map(|i| format!("I{}", letters(i).to_ascii_uppercase())).collect();
    let it: Vec<(&str, Option<Ex>, i128)> = names.iter().enumerate().map(|(i, x)| (x.as_str(), if i % 10 == 0 { Some(n(i as i128 * 3)) } else { None }, (i / 10 * 30 + i % 10) as i128)).collect();
    let ds = vec![en("Solo", u(8), &[("ONLY", Some(n(42)), 42)]), en("Many", u(16), &it), st("Abc", vec![f("a", r("Solo")), f("b", r("Many"))])];
    o.push(unit("enummany", "enums of one and of many items", ds, vec![root("enummany.Solo"), root("enummany.Many").alpha(130), root("enummany.Abc").alpha(130)]));
    // subtypes as underlying types
    let ds = vec![sub("Num", u(8)), sub("Deep", r("Num")), en("Color", r("Deep"), &[("RED", None, 0), ("BLUE", Some(n(200)), 200)]), st("Abc", vec![f("a", r("Color"))])];
    o.push(unit("enumsub", "an enum over a subtype", ds, vec![root("enumsub.Color"), root("enumsub.Abc")]));
    let ds = vec![sub("Num", u(8)), bm("Perm", r("Num"), &[("READ", None, 1), ("WRITE", Some(n(64)), 64)]), st("Abc", vec![f("a", r("Perm"))])];
    o.push(unit("masksub", "a bitmask over a subtype", ds, vec![root("masksub.Perm").alpha(9), root("masksub.Abc").alpha(9)]));
    // bitmasks over every unsigned type
    use Scalar::*;
    let mut ds = vec![];
    for (nm, k) in [("Ub", U(8)), ("Us", U(16)), ("Uw", U(32)), ("Uq", U(64)), ("Ba", U(1)), ("Bc", U(3)), ("Bl", U(11)), ("Bw", U(33)), ("Va", VarU16), ("Vb", VarU32), ("Vc", VarU64), ("Vd", VarU), ("Ve", VarSize)] {
        let (_, hi) = k.range();
        let mut it: Vec<(&str, Option<Ex>, i128)> = vec![("FIRST", None, 1)];
        if hi > 1 {
            it.push(("SECOND", None, 2));
            let top = (hi + 1) / 2;
            if top > 2 {
                it.push(("TOP", Some(n(top)), top));
            }
            it.push(("ALL", Some(n(hi)), hi));
            it.push(("NONE", Some(n(0)), 0));
        }
        ds.push(bm(&format!("Bm{nm}"), s(k), &it));
    }
    let mut rs: Vec<Root> = ds.iter().map(|d| root(&format!("maskbase.{}", d.name)).alpha(9)).collect();
    let mut fs = vec![f("pre", u(3)).vals(&[5])];
    for (i, d) in ds.iter().enumerate() {
        fs.push(f(&format!("one{}", letters(i)), r(&d.name)));
        fs.push(f(&format!("two{}", letters(i)), r(&d.name)).arr());
        fs.push(f(&format!("three{}", letters(i)), r(&d.name)).fixed(n(3)).packed());
    }
    ds.push(st("Abc", fs));
    rs.push(root("maskbase.Abc").alpha(5).lens(&[1, 0, 2]).dev(2));
    o.push(unit("maskbase", "bitmasks over every underlying type", ds, rs));
    let alpha: &[Option<i128>] = &[None, Some(0), Some(1), Some(4), Some(6)];
    let mut ds = vec![];
    for len in 1..=if thorough { 4 } else { 3 } {
        for p in patterns(len, alpha, true) {
            let it: Vec<(&str, Option<Ex>, i128)> = p.iter().enumerate().map(|(i, x)| (NAMES[i], x.0.map(n), x.1)).collect();
            ds.push(bm(&format!("Bm{}", letters(ds.len())), u(8), &it));
        }
    }
    let rs = ds.iter().map(|d| root(&format!("masknum.{}", d.name)).alpha(9)).collect();
    o.push(unit("masknum", "explicit and continuing bitmask values", ds, rs));
    // every stored combination of flags
    let ds = vec![bm("Perm", u(5), &[("READ", None, 1), ("WRITE", None, 2), ("EXEC", Some(n(8)), 8)]), st("Abc", vec![f("m", r("Perm")).vals(&(0..32).collect::<Vec<_>>()), f("k", r("Perm")).arr().vals(&[4, 16, 31])])];
    o.push(unit("maskall", "combinations of flags, also unnamed bits", ds, vec![root("maskall.Abc")]));
    let ds = vec![konst("BIT", u(8), n(5)), bm("Perm", u(16), &[("READ", Some(bin("<<", n(1), id("BIT"))), 32), ("NEXT", None, 64), ("BOTH", Some(bin("|", n(1), Ex::Lit("0x100".into(), 256))), 257), ("LAST", None, 512)]), st("Abc", vec![f("m", r("Perm"))])];
    o.push(unit("maskexpr", "bitmask values from expressions", ds, vec![root("maskexpr.Abc").alpha(9), root("maskexpr.Perm").alpha(9)]));
    // constants of every type
    let mut ds = vec![];
    let mut c = |k: Scalar, v: i128| {
        let nm = format!("C{}", letters(ds.len()).to_ascii_uppercase());
        ds.push(konst(&nm, s(k), n(v)));
    };
    for (_, k) in bases() {
        let (lo, hi) = k.range();
        c(k, 1);
        c(k, hi.min(i64::MAX as i128));
        if lo < 0 {
            c(k, lo.max(-(i64::MAX as i128)));
            c(k, -1);
        }
    }
    ds.push(konst("TYES", s(Bool), Ex::B(true)));
    ds.push(konst("TNOX", s(Bool), Ex::B(false)));
    ds.push(konst("TXT", s(Str), Ex::Str("some text".into())));
    ds.push(konst("NOTXT", s(Str), Ex::Str("".into())));
    ds.push(konst("FLTA", s(F16), Ex::F(1.5)));
    ds.push(konst("FLTB", s(F32), Ex::F(0.1)));
    ds.push(konst("FLTC", s(F64), Ex::F(-2.75)));
    ds.push(st("Abc", vec![f("a", u(8))]));
    o.push(unit("constkinds", "constants of every type", ds, vec![root("constkinds.Abc")]));
    let ds = vec![
        konst("HUGE", u(64), Ex::Lit("18446744073709551615".into(), u64::MAX as i128)),
        konst("LOWEST", i(64), Ex::Lit("-9223372036854775808".into(), i64::MIN as i128)),
        konst("HEXHUGE", u(64), Ex::Lit("0xFFFFFFFFFFFFFFFF".into(), u64::MAX as i128)),
        st("Abc", vec![f("a", u(8))]),
    ];
    o.push(unit("consthuge", "constants at the 64-bit limits", ds, vec![root("consthuge.Abc")]));
    let ds = vec![
        en("Color", u(8), &[("RED", None, 0), ("BLUE", Some(n(9)), 9)]),
        sub("Num", u(11)),
        konst("VAL", u(8), Ex::ValOf(Box::new(item("Color", "BLUE")))),
        konst("SUBTYPED", r("Num"), n(1025)),
        konst("NBITS", u(8), Ex::NumBits(Box::new(n(100)))),
        st("Abc", vec![f("a", u(8)).fixed(id("NBITS")).vals(&[1, 2])]),
    ];
    o.push(unit("constmore", "constants from items, of subtypes", ds, vec![root("constmore.Abc")]));
    let ds = vec![en("Color", u(8), &[("RED", None, 0), ("BLUE", Some(n(9)), 9)]), konst("FAVOURITE", r("Color"), item("Color", "BLUE")), st("Abc", vec![f("a", r("Color")), f("b", u(8)).cond(bin("==", id("a"), id("FAVOURITE"))).vals(&[3])])];
    o.push(unit("constenum", "constants of an enum type", ds, vec![root("constenum.Abc")]));
    let ds = vec![bm("Perm", u(8), &[("READ", None, 1), ("WRITE", None, 2)]), konst("DEFAULTP", r("Perm"), item("Perm", "WRITE")), st("Abc", vec![f("a", r("Perm")), f("b", u(8)).cond(bin("==", id("a"), id("DEFAULTP"))).vals(&[3])])];
    o.push(unit("constmask", "constants of a bitmask type", ds, vec![root("constmask.Abc").alpha(4)]));
    o
}
