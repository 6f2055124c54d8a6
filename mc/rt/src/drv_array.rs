use crate::arr::{carriers, ArrOps, Mode};
use crate::drv_io::Nothing;
use crate::prim::*;
use mccore::model::{self, enc_array, Delta, Rd};
use mccore::values::*;
use mccore::{explore, guard, Bits, Local, Out, Runner, Scalar, Val};
use std::collections::BTreeSet;
use zserio::vendor::BitWriter;
use zserio::ztype as z;
use zserio::ztype::array_traits::ObjectArrayTrait;

pub fn int_kinds() -> Vec<Scalar> {
    let mut v = vec![];
    for n in 1..=64 {
        v.push(Scalar::U(n));
        v.push(Scalar::I(n));
    }
    v.extend(Scalar::VARS);
    v
}
pub fn other_kinds() -> Vec<Scalar> {
    vec![Scalar::Bool, Scalar::F16, Scalar::F32, Scalar::F64, Scalar::Str, Scalar::Bytes, Scalar::Extern]
}
fn f(x: f32) -> Val {
    Val::F(x.to_bits() as u64)
}
pub fn few_vals(k: Scalar) -> Vec<Val> {
    match k {
        Scalar::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Scalar::F16 => vec![f(0.0), f(-1.5), f(65504.0), f(f32::INFINITY)],
        Scalar::F32 => vec![f(0.0), f(-1.0), f(f32::MAX), f(1.0e-40)],
        Scalar::F64 => vec![Val::F(0), Val::F((-1.0f64).to_bits()), Val::F(f64::MAX.to_bits()), Val::F(1)],
        Scalar::Str => ["", "a", "\u{e9}\u{65e5}", "0123456789"].iter().map(|s| Val::Str(s.to_string())).chain([Val::Str("y".repeat(130))]).collect(),
        Scalar::Bytes => vec![Val::Bytes(vec![]), Val::Bytes(vec![0xa5]), Val::Bytes(vec![0, 255, 1]), Val::Bytes(vec![7; 130])],
        Scalar::Extern => vec![Val::Ext(0, vec![]), Val::Ext(1, vec![0x80]), Val::Ext(8, vec![0x5a]), Val::Ext(11, vec![0xff, 0xe0]), Val::Ext(130, {
            let mut b = vec![0x33; 17];
            b[16] = 0x40;
            b
        })],
        k => {
            let (lo, hi) = k.range();
            let mut s: BTreeSet<i128> = few(lo, hi).into_iter().collect();
            s.insert((hi - 1).max(lo));
            s.insert((lo + 1).min(hi));
            let mut v: Vec<i128> = s.into_iter().collect();
            v.sort_by_key(|x| (x.abs(), *x));
            v.into_iter().map(Val::Int).collect()
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Facet {
    Lossless,
    Format,
    Size,
}

fn seq_name(k: Scalar, car: &str, v: &[Val], m: Mode, pos: usize) -> String {
    let mut s = format!("{}/{} {}{}{}@{} ", k.zs(), car, if m.packed { "packed " } else { "" }, if m.fixed.is_some() { "fixed " } else { "" }, if m.offsets { "offs " } else { "" }, pos);
    s.push_str(&brief(&Val::Arr(v.to_vec())));
    s
}

/// Writes the sequence with the real driver at a position and checks one facet.
#[allow(clippy::too_many_arguments)]
fn check_seq(l: &mut Local, facet: Facet, k: Scalar, car: &str, ops: &dyn ArrOps, vals: &[Val], m: Mode, pos: usize) {
    l.trace();
    l.step();
    let pre = prefix(pos, 1);
    let (bits, data) = match with_writer(&pre, |w| ops.write(w, vals, m)) {
        Out::Ok(x) => x,
        o => {
            l.violation(seq_name(k, car, vals, m, pos), format!("write: {:?}", o));
            return;
        }
    };
    match facet {
        Facet::Format => {
            let mut want = pre.clone();
            enc_array(k, vals, m.packed, m.fixed.is_some(), m.offsets, &mut want).unwrap();
            if bits != want {
                l.violation(seq_name(k, car, vals, m, pos), format!("wrote {} want {}", show(&bits, pos), show(&want, pos)));
            } else if m.packed && vals.len() > 1 {
                let hdr = if m.fixed.is_some() { 0 } else { model::scalar_size(Scalar::VarSize, &Val::Int(vals.len() as i128)).unwrap() };
                l.outcome(if want.get(pos + hdr) { "packed form" } else { "unpacked form" });
            }
        }
        Facet::Lossless => {
            for how in 0..3 {
                let got = with_reader(&data, pos, |r| match how {
                    0 => ops.read(r, m),
                    1 => ops.read_into(r, vals, m),
                    _ => ops.read_single(r, m),
                });
                match got {
                    Out::Ok((v, used)) if v == vals && used == bits.len() - pos => l.outcome("same sequence"),
                    o => l.violation(seq_name(k, car, vals, m, pos), format!("read ({how}) {:?} after writing {}", o.map(|x| (brief(&Val::Arr(x.0)), x.1)), show(&bits, pos))),
                }
            }
        }
        Facet::Size => {
            let real = (bits.len() - pos) as u64;
            let a = guard(|| ops.bitsize(vals, m, pos as u64));
            if a != Out::Ok(real) {
                l.violation(format!("size of {}", seq_name(k, car, vals, m, pos)), format!("predicted {:?}, wrote {}", a, real));
            } else {
                l.outcome("size agrees");
            }
            if m.packed {
                let a = guard(|| ops.bitsize_packed(vals, m, pos as u64));
                if a != Out::Ok(real) {
                    l.violation(format!("packed size of {}", seq_name(k, car, vals, m, pos)), format!("predicted {:?}, wrote {}", a, real));
                }
            }
            match with_reader(&data, pos, |r| ops.read(r, m)) {
                Out::Ok((_, used)) if used as u64 == real => {}
                o => l.violation(format!("consumption of {}", seq_name(k, car, vals, m, pos)), format!("{:?}, wrote {}", o.map(|x| x.1), real)),
            }
        }
    }
}

/// All sequences over the small alphabet up to `len`, all positions in `poss`.
fn all_sequences(l: &mut Local, facet: Facet, k: Scalar, m0: Mode, len: usize, poss: &[usize], first_only: bool) {
    for (ci, (car, ops)) in carriers(k).iter().enumerate() {
        if first_only && ci > 0 {
            continue;
        }
        let alpha = few_vals(k);
        let st = explore(|c| {
            let n = c.choose(len + 1);
            let vals: Vec<Val> = (0..n).map(|_| c.pick(&alpha).clone()).collect();
            let fixed = c.flag();
            let m = Mode { fixed: fixed.then_some(n), ..m0 };
            l.state(&(k, car, &vals, m));
            for p in poss {
                check_seq(l, facet, k, car, ops.as_ref(), &vals, m, *p);
            }
        });
        l.steps(st.transitions);
    }
}

/// Sequences that sweep every delta width against every length (the packing decision) and every position of an outlier.
fn sweep(l: &mut Local, facet: Facet, k: Scalar, thorough: bool) {
    let (lo, hi) = k.range();
    let span = (hi - lo) as u128;
    let m = Mode::packed();
    let cs = carriers(k);
    let nmax = if thorough { 80 } else { 24 };
    for d in 0..=64u32 {
        let step: i128 = if d == 0 { 0 } else { (1i128 << d) - 1 };
        for delta in [step, (1i128 << d.saturating_sub(1)).min(step)] {
            if delta as u128 > span {
                continue;
            }
            for n in 1..=nmax {
                for base in [lo, hi - delta, (0i128).clamp(lo, hi - delta)] {
                    for shape in 0..3 {
                        let vals: Vec<Val> = (0..n)
                            .map(|i| {
                                let up = match shape {
                                    0 => i % 2 == 1,     // alternate
                                    1 => i + 1 == n,     // outlier last
                                    _ => i == 0,         // outlier first
                                };
                                Val::Int(if up { base + delta } else { base })
                            })
                            .collect();
                        l.state(&(k, &vals));
                        let (car, ops) = &cs[(n + shape) % cs.len()];
                        check_seq(l, facet, k, car, ops.as_ref(), &vals, m, (n + d as usize) % 8);
                    }
                }
            }
        }
    }
}
fn long_arrays(l: &mut Local, facet: Facet, k: Scalar, packed: bool, upto: usize) {
    let cs = carriers(k);
    let alpha = few_vals(k);
    for n in lengths(upto, &[999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385]) {
        for shape in 0..3 {
            if n > upto && shape > 0 && k.var().is_none() && !matches!(k, Scalar::U(8) | Scalar::I(64)) {
                continue;
            }
            let vals: Vec<Val> = (0..n)
                .map(|i| match shape {
                    0 => alpha[(i * 7 + i / 3) % alpha.len()].clone(),
                    1 => alpha[0].clone(),
                    _ => {
                        if k.is_int() {
                            let (lo, hi) = k.range();
                            let span = (hi - lo + 1) as u128;
                            Val::Int(lo + ((i as u128 * 3) % span) as i128)
                        } else {
                            alpha[(i / 5) % alpha.len()].clone()
                        }
                    }
                })
                .collect();
            l.state(&(k, n, shape, packed));
            let (car, ops) = &cs[n % cs.len()];
            check_seq(l, facet, k, car, ops.as_ref(), &vals, Mode { packed, ..Default::default() }, n % 8);
            check_seq(l, facet, k, car, ops.as_ref(), &vals, Mode { packed, fixed: Some(n), ..Default::default() }, (n + 3) % 8);
        }
    }
}

pub fn c05(r: &mut Runner) {
    let th = r.thorough;
    r.bound("runtime: all 137 integer element kinds x all carriers: all sequences up to length 4 (5 thorough) over 5-7 extreme values, auto and fixed length, positions 0 and 5; every delta width 0..64 x lengths 1..24 (80 thorough) x 3 shapes x 3 bases; lengths 0..300 and 1000, 1024, 4096, 16384 +-1");
    for k in int_kinds() {
        r.task(format!("c05 seq {}", k.zs()), move |l| {
            l.sample(|| seq_name(k, "", &few_vals(k), Mode::packed(), 0));
            all_sequences(l, Facet::Lossless, k, Mode::packed(), if th { 5 } else { 4 }, &[0, 5], false);
        });
        r.task(format!("c05 sweep {}", k.zs()), move |l| sweep(l, Facet::Lossless, k, th));
        r.task(format!("c05 long {}", k.zs()), move |l| long_arrays(l, Facet::Lossless, k, true, if th { 600 } else { 300 }));
    }
    // declared packed, stored plainly
    for k in other_kinds() {
        r.task(format!("c05 seq {}", k.zs()), move |l| {
            all_sequences(l, Facet::Lossless, k, Mode::packed(), if th { 4 } else { 3 }, &[0, 5], false);
            long_arrays(l, Facet::Lossless, k, true, if th { 600 } else { 300 });
        });
    }
    // every ordered pair / triple of full byte-range values
    for k in [Scalar::U(8), Scalar::I(8)] {
        r.task(format!("c05 all triples {}", k.zs()), move |l| {
            let (lo, _) = k.range();
            let (car, ops) = &carriers(k)[0];
            for a in 0..256 {
                for b in 0..256 {
                    let v = [Val::Int(lo + a), Val::Int(lo + b)];
                    l.state(&v);
                    check_seq(l, Facet::Lossless, k, car, ops.as_ref(), &v, Mode::packed(), 0);
                    for c in (0..256).step_by(if th { 1 } else { 17 }) {
                        let v = [Val::Int(lo + a), Val::Int(lo + b), Val::Int(lo + c), Val::Int(lo + a)];
                        check_seq(l, Facet::Lossless, k, car, ops.as_ref(), &v, Mode::packed(), 3);
                    }
                }
            }
        });
    }
}

pub fn c06(r: &mut Runner) {
    let th = r.thorough;
    r.bound("writing: as C05 (all integer kinds, all sequences up to length 4/5 over extremes, every delta width x length), bits compared with the model; decoding: for sequences up to length 3, every legal descriptor (unpacked, and packed with every width from the needed one to 62)");
    for k in other_kinds() {
        r.task(format!("c06 seq {}", k.zs()), move |l| all_sequences(l, Facet::Format, k, Mode::packed(), if th { 4 } else { 3 }, &[0, 5], false));
    }
    for k in int_kinds() {
        r.task(format!("c06 seq {}", k.zs()), move |l| {
            l.sample(|| seq_name(k, "", &few_vals(k), Mode::packed(), 0));
            all_sequences(l, Facet::Format, k, Mode::packed(), if th { 5 } else { 4 }, &[0, 5], false)
        });
        r.task(format!("c06 sweep {}", k.zs()), move |l| sweep(l, Facet::Format, k, th));
        r.task(format!("c06 long {}", k.zs()), move |l| long_arrays(l, Facet::Format, k, true, 300));
        r.task(format!("c06 foreign {}", k.zs()), move |l| {
            let alpha = few_vals(k);
            for (car, ops) in carriers(k) {
                let st = explore(|c| {
                    let n = 1 + c.choose(3);
                    let vals: Vec<Val> = (0..n).map(|_| c.pick(&alpha).clone()).collect();
                    let mut need = 0;
                    for w in vals.windows(2) {
                        need = need.max(model::bit_len((w[1].int() - w[0].int()).unsigned_abs()));
                    }
                    let mut forms = vec![(false, 0)];
                    for b in need..=62 {
                        forms.push((true, b));
                    }
                    for (packed, bits) in forms {
                        for pos in [0usize, 3] {
                            l.trace();
                            l.step();
                            let mut b = prefix(pos, 1);
                            model::enc_var(Scalar::VarSize, n as i128, &mut b).unwrap();
                            let mut d = Delta::forced(packed, bits);
                            for v in &vals {
                                d.write_forced(k, v.int(), &mut b).unwrap();
                            }
                            l.state(&b);
                            let end = b.len();
                            b.push_bits(0x2d, 6);
                            match with_reader(b.bytes(), pos, |r| ops.read(r, Mode::packed())) {
                                Out::Ok((g, used)) if g == vals && used == end - pos => l.outcome(if packed { "foreign packed" } else { "foreign unpacked" }),
                                o => l.violation(
                                    format!("decode {} form {}:{}", seq_name(k, &car, &vals, Mode::packed(), pos), packed, bits),
                                    format!("{:?}", o.map(|x| (brief(&Val::Arr(x.0)), x.1))),
                                ),
                            }
                        }
                    }
                });
                l.steps(st.transitions);
            }
        });
    }
}

pub fn c04(r: &mut Runner) {
    let th = r.thorough;
    r.bound("runtime: all scalar kinds over their alphabets at 8 positions; arrays of all kinds: all sequences up to length 3 over the alphabet x {plain, fixed, byte-aligned, packed} x positions 0..7; delta-width sweep; lengths 0..300 and around 1000, 1024, 4096, 16384");
    let mut kinds = int_kinds();
    kinds.extend(other_kinds());
    for k in kinds {
        r.task(format!("c04 array {}", k.zs()), move |l| {
            let all: Vec<usize> = (0..8).collect();
            let len = if th { 4 } else { 3 };
            all_sequences(l, Facet::Size, k, Mode::plain(), len, &all, !th);
            all_sequences(l, Facet::Size, k, Mode { offsets: true, ..Mode::plain() }, 2, &all, true);
            all_sequences(l, Facet::Size, k, Mode::packed(), len, &all, !th);
            all_sequences(l, Facet::Size, k, Mode { offsets: true, ..Mode::packed() }, 2, &all, true);
        });
        r.task(format!("c04 long {}", k.zs()), move |l| {
            long_arrays(l, Facet::Size, k, false, 300);
            long_arrays(l, Facet::Size, k, true, 150);
        });
        if k.packable() {
            r.task(format!("c04 sweep {}", k.zs()), move |l| sweep(l, Facet::Size, k, th));
        }
    }
    // scalar size functions over rich alphabets
    for k in Scalar::VARS.into_iter().chain([Scalar::Str, Scalar::Bytes, Scalar::Extern]) {
        r.task(format!("c04 scalar {}", k.zs()), move |l| {
            let vals: Vec<Val> = match k {
                Scalar::Str => lengths(600, &[16383, 16384, 2097151, 2097152]).iter().map(|n| Val::Str("x".repeat(*n))).collect(),
                Scalar::Bytes => lengths(600, &[16383, 16384, 2097151, 2097152]).iter().map(|n| Val::Bytes(vec![3; *n])).collect(),
                Scalar::Extern => lengths(1200, &[16383, 16384, 2097151, 2097152]).iter().map(|n| Val::Ext(*n as u32, vec![0; n.div_ceil(8)])).collect(),
                k => {
                    let (lo, hi) = k.range();
                    boundaries(lo, hi, 400).into_iter().map(Val::Int).collect()
                }
            };
            for v in vals {
                l.state(&(k, &v));
                for pos in 0..8 {
                    l.trace();
                    l.step();
                    match (with_writer(&prefix(pos, 0), |w| write(k, &v, w)), guard_size(k, &v)) {
                        (Out::Ok((b, _)), Some(Out::Ok(s))) if s as usize == b.len() - pos => l.outcome("size agrees"),
                        (w, s) => l.violation(format!("size of {} {}@{}", k.zs(), brief(&v), pos), format!("predicted {:?}, wrote {:?}", s, w.map(|x| x.0.len() - pos))),
                    }
                }
            }
        });
    }
    // extern blobs made from objects depend on the predicted size
    r.task("c04 extern from object", |l| {
        for n in 0..40usize {
            for b in 0..40u8 {
                let o = crate::drv_io::Probe { flag_bits: b, name: "z".repeat(n), list: vec![b as u16; n % 5] };
                l.state(&(n, b));
                l.trace();
                l.step();
                let e = guard(|| zserio::ztype::ExternType::from_object(&o));
                let mut want = Bits::new();
                o.model(&mut want);
                match e {
                    Out::Ok(e) if e.bit_size as usize == want.len() && e.data_blob == want.bytes() => l.outcome("extern agrees"),
                    x => l.violation(format!("extern from object {n} {b}"), format!("{:?}", x.map(|e| e.bit_size))),
                }
            }
        }
    });
}

/// Model-guided filter: an input that legally announces a huge array of zero-bit elements would only
/// test how much memory the machine has.
fn bomb(k: Scalar, m: Mode, data: &[u8], pos: usize) -> bool {
    let b = Bits::from_bytes(data);
    let mut r = Rd::new(&b, pos.min(b.len()));
    let n = match m.fixed {
        Some(n) => n,
        None => match model::dec_var(Scalar::VarSize, &mut r) {
            Ok(n) => n as usize,
            Err(_) => return false,
        },
    };
    if n < 100_000 || !m.packed || !k.packable() {
        return false;
    }
    let mut d = Delta::default();
    for _ in 0..3 {
        if d.read(k, &mut r).is_err() {
            return false;
        }
    }
    d.zero_width()
}

fn no_panic(l: &mut Local, name: impl Fn() -> String, o: &Out<()>) {
    l.trace();
    match o {
        Out::Ok(_) => l.outcome("value"),
        Out::Err(_) => l.outcome("error"),
        Out::Panic(p) => l.violation(name(), p.clone()),
    }
}

pub fn all_scalars() -> Vec<Scalar> {
    let mut v: Vec<Scalar> = Scalar::VARS.to_vec();
    v.extend(other_kinds());
    for n in [1, 3, 7, 8, 9, 13, 16, 17, 31, 32, 33, 48, 63, 64] {
        v.push(Scalar::U(n));
        v.push(Scalar::I(n));
    }
    v
}

pub fn c07(r: &mut Runner) {
    let th = r.thorough;
    r.bound("runtime: every reader x all byte strings up to length 2 (3 thorough) at bit positions 0 and 3; arrays of every kind, plain/packed/byte-aligned: all 2-byte bodies after lengths 0..3 and hostile lengths; every truncation and every single-byte substitution (all 256 values) of valid encodings");
    for k in all_scalars() {
        r.task(format!("c07 strings {}", k.zs()), move |l| {
            let max = if th { 3 } else { 2 };
            l.sample(|| format!("{} from every byte string up to {} bytes", k.zs(), max));
            for n in 0..=max {
                for x in 0..1u32 << (8 * n) {
                    let b = &x.to_be_bytes()[4 - n..];
                    if n < 3 {
                        l.state(&(k, b));
                    }
                    l.step();
                    for pos in [0usize, 3] {
                        if pos > 8 * n {
                            continue;
                        }
                        let o = with_reader(b, pos, |r| read(k, r)).map(|_| ());
                        no_panic(l, || format!("{} from {:02x?}@{}", k.zs(), b, pos), &o);
                    }
                }
            }
        });
    }
    let mut kinds = all_scalars();
    if th {
        kinds = int_kinds();
        kinds.extend(other_kinds());
    }
    for k in kinds {
        r.task(format!("c07 array {}", k.zs()), move |l| {
            for (car, ops) in carriers(k) {
                for m in [Mode::plain(), Mode::packed(), Mode { offsets: true, ..Mode::packed() }] {
                    let run = |l: &mut Local, data: &[u8], pos: usize| {
                        if bomb(k, m, data, pos) {
                            l.outcome("skipped: announces a huge zero-bit array");
                            return;
                        }
                        l.step();
                        let o = with_reader(data, pos, |r| ops.read(r, m)).map(|_| ());
                        no_panic(l, || format!("{}/{} {:?} from {}@{}", k.zs(), car, m, mccore::bits::hex(data), pos), &o);
                        let o = with_reader(data, pos, |r| ops.read_single(r, m)).map(|_| ());
                        no_panic(l, || format!("{}/{} {:?} single from {}@{}", k.zs(), car, m, mccore::bits::hex(data), pos), &o);
                    };
                    for len in [&[0u8][..], &[1], &[2], &[3], &[0x81, 0x00], &[0x83, 0xff, 0xff, 0xff, 0xff], &[0xff, 0xff, 0xff, 0xff, 0xff]] {
                        for x in 0..65536u32 {
                            if !th && car.as_str() != carriers(k)[0].0 && x % 7 != 0 {
                                continue;
                            }
                            let mut d = len.to_vec();
                            d.extend_from_slice(&[(x >> 8) as u8, x as u8]);
                            if len[0] > 1 {
                                d.extend_from_slice(&[(x ^ 0x5a) as u8, 0xff, 0x00, 0x80]);
                            }
                            run(l, &d, 0);
                        }
                        l.state(&(k, &car, m, len));
                    }
                    // valid encodings, damaged
                    let alpha = few_vals(k);
                    let n = alpha.len();
                    for seq in 0..n * n {
                        let vals = vec![alpha[seq / n].clone(), alpha[seq % n].clone(), alpha[(seq + 1) % n].clone()];
                        let pos = seq % 8;
                        let mut b = prefix(pos, 1);
                        if enc_array(k, &vals, m.packed, false, m.offsets, &mut b).is_err() {
                            continue;
                        }
                        let good = b.bytes().to_vec();
                        l.state(&(k, &car, m, &good));
                        for cut in 0..good.len() {
                            if cut * 8 >= pos {
                                run(l, &good[..cut], pos);
                            }
                        }
                        for i in 0..good.len().min(40) {
                            for x in 0..=255u8 {
                                if !th && seq % 3 != 0 && x.count_ones() % 3 != 0 {
                                    continue;
                                }
                                let mut bad = good.clone();
                                bad[i] = x;
                                run(l, &bad, pos);
                            }
                        }
                    }
                }
            }
        });
    }
}

pub fn c09(r: &mut Runner) {
    let th = r.thorough;
    r.bound("runtime: every cut of the encodings of every scalar over its alphabet and of all arrays up to length 3 (plain, fixed, packed, byte-aligned) at 8 positions; trailing bytes 00, ff, a5");
    let mut kinds = int_kinds();
    kinds.extend(other_kinds());
    for k in kinds {
        r.task(format!("c09 {}", k.zs()), move |l| {
            let alpha = few_vals(k);
            let rich: Vec<Val> = if k.is_int() {
                let (lo, hi) = k.range();
                boundaries(lo, hi, 1).into_iter().map(Val::Int).collect()
            } else {
                alpha.clone()
            };
            // scalars
            for v in &rich {
                for pos in 0..8usize {
                    let mut b = prefix(pos, 1);
                    model::enc_scalar(k, v, &mut b).unwrap();
                    let end = b.len();
                    l.state(&(k, v, pos));
                    cuts(l, &|| format!("{} {}", k.zs(), brief(v)), b.bytes(), pos, end, &|r| read(k, r), v, k);
                }
            }
            for (car, ops) in carriers(k) {
                let maxlen = if th { 3 } else { 2 };
                let st = explore(|c| {
                    let n = c.choose(maxlen + 1);
                    let vals: Vec<Val> = (0..n).map(|_| c.pick(&alpha).clone()).collect();
                    let m = Mode { packed: c.flag(), fixed: c.flag().then_some(n), offsets: c.flag() };
                    let pos = c.choose(8);
                    let mut b = prefix(pos, 0);
                    enc_array(k, &vals, m.packed, m.fixed.is_some(), m.offsets, &mut b).unwrap();
                    let end = b.len();
                    l.state(&(k, &car, &vals, m, pos));
                    let want = Val::Arr(vals.clone());
                    cuts(l, &|| seq_name(k, &car, &vals, m, pos), b.bytes(), pos, end, &|r| ops.read(r, m).map(Val::Arr), &want, k);
                });
                l.steps(st.transitions);
            }
        });
    }
}

#[allow(clippy::too_many_arguments)]
pub fn cuts(l: &mut Local, name: &dyn Fn() -> String, data: &[u8], pos: usize, end: usize, rd: &dyn Fn(&mut zserio::vendor::BitReader) -> zserio::Result<Val>, want: &Val, k: Scalar) {
    for trail in [&[][..], &[0x00], &[0xff], &[0xa5, 0xff, 0x00]] {
        let mut d = data.to_vec();
        // also disturb the padding bits of the last byte
        if trail.first() == Some(&0xff) && end % 8 != 0 {
            *d.last_mut().unwrap() |= 0xff >> (end % 8);
        }
        d.extend_from_slice(trail);
        l.trace();
        l.step();
        match with_reader(&d, pos, rd) {
            Out::Ok((g, used)) if used == end - pos && (nan_eq(k, &g, want)) => l.outcome("exact"),
            o => l.violation(format!("{} @{} followed by {:02x?}", name(), pos, trail), format!("{:?} want {} bits", o.map(|x| (brief(&x.0), x.1)), end - pos)),
        }
    }
    for cut in pos.div_ceil(8)..data.len() {
        if cut * 8 >= end {
            continue;
        }
        l.trace();
        l.step();
        match with_reader(&data[..cut], pos, rd) {
            Out::Err(_) => l.outcome("truncation detected"),
            o => l.violation(format!("{} @{} cut to {} of {} bytes", name(), pos, cut, data.len()), format!("{:?}", o.map(|x| (brief(&x.0), x.1)))),
        }
    }
}

pub fn c11(r: &mut Runner) {
    let th = r.thorough;
    r.bound("runtime: every width 1..64 signed/unsigned and every variable-length type: all carrier values up to 300 outside each end of the range and all powers of two beyond it, alone and at every index of arrays up to length 3, plain and packed; fixed lengths 0..6 x actual lengths 0..6");
    for k in int_kinds() {
        r.task(format!("c11 {}", k.zs()), move |l| {
            let (lo, hi) = k.range();
            for (car, ops) in carriers(k) {
                let (clo, chi): (i128, i128) = match car.as_str() {
                    "u8" => (0, u8::MAX as i128),
                    "u16" => (0, u16::MAX as i128),
                    "u32" => (0, u32::MAX as i128),
                    "u64" => (0, u64::MAX as i128),
                    "i8" => (i8::MIN as i128, i8::MAX as i128),
                    "i16" => (i16::MIN as i128, i16::MAX as i128),
                    "i32" => (i32::MIN as i128, i32::MAX as i128),
                    _ => (i64::MIN as i128, i64::MAX as i128),
                };
                let mut out: BTreeSet<i128> = boundaries(clo, chi, if th { 40 } else { 2 }).into_iter().collect();
                for d in 1..=if th { 3000 } else { 300 } {
                    out.insert(hi + d);
                    out.insert(lo - d);
                }
                let bad: Vec<i128> = out.into_iter().filter(|v| *v >= clo && *v <= chi && (*v < lo || *v > hi)).collect();
                let inside = few_vals(k);
                for b in &bad {
                    l.state(&(k, &car, b));
                    l.step();
                    l.trace();
                    // alone
                    let wide = matches!(k, Scalar::U(_) | Scalar::I(_)).then_some(()).is_none() || car.ends_with("64");
                    if wide {
                        let pos = (*b as u128 % 8) as usize;
                        match with_writer(&prefix(pos, 0), |w| if k.var().is_some() { write(k, &Val::Int(*b), w) } else { write_bits(k, &Val::Int(*b), w) }) {
                            Out::Err(_) => l.outcome("refused"),
                            o => l.violation(format!("write {} {}", k.zs(), b), format!("not refused with an error: {:?}", o)),
                        }
                    }
                    // in arrays
                    for n in 1..=3usize {
                        for at in 0..n {
                            for packed in [false, true] {
                                let vals: Vec<Val> = (0..n).map(|i| if i == at { Val::Int(*b) } else { inside[(i + n) % inside.len()].clone() }).collect();
                                let m = Mode { packed, ..Default::default() };
                                l.step();
                                l.trace();
                                match with_writer(&Bits::new(), |w| ops.write(w, &vals, m)) {
                                    Out::Err(_) => l.outcome("refused"),
                                    Out::Ok((_, d)) => match with_reader(&d, 0, |r| ops.read(r, m)) {
                                        // a delta may represent it: then nothing was altered
                                        Out::Ok((g, _)) if g == vals && packed && k.var().is_none() => l.outcome("carried by a delta"),
                                        o => l.violation(format!("array {}", seq_name(k, &car, &vals, m, 0)), format!("accepted, read back {:?}", o.map(|x| brief(&Val::Arr(x.0))))),
                                    },
                                    Out::Panic(p) => l.violation(format!("array {}", seq_name(k, &car, &vals, m, 0)), p),
                                }
                            }
                        }
                    }
                }
            }
        });
    }
    // elements of no size make arrays of any length affordable; the zero pages of a string are never written
    for d in [0i128, 1, 2, 3, 130, 1 << 31, (1 << 31) + 5] {
        for base in [1i128 << 31, 1 << 32] {
            let n = (base + d) as usize;
            r.task(format!("c11 length {n}"), move |l| {
                l.state(&n);
                l.trace();
                l.step();
                let mut v: Vec<Nothing> = vec![];
                assert!(v.capacity() == usize::MAX, "MACHINERY: not a type of no size");
                unsafe { v.set_len(n) };
                let arr = || z::Array { array_trait: Box::new(ObjectArrayTrait {}), is_packed: false, fixed_size: None };
                let o = guard(|| arr().zserio_write::<u32>(&mut BitWriter::new(), &v, None));
                if !o.is_err() {
                    l.violation("length of an array".to_string(), format!("{n} elements were written: {o:?}"));
                }
                let o = guard(|| arr().zserio_bitsize::<u32>(&v, None, 0));
                if !o.is_err() {
                    l.violation("size of an array".to_string(), format!("the size of {n} elements is {o:?}"));
                }
                l.outcome("refused");
            });
        }
    }
    r.task("c11 length of a string", |l| {
        for n in [1usize << 31, 1 << 32, (1 << 32) + 3] {
            l.state(&n);
            l.trace();
            l.step();
            let s = unsafe { String::from_utf8_unchecked(vec![0; n]) };
            let o = guard(|| z::write_string(&mut BitWriter::new(), &s));
            if !o.is_err() {
                l.violation("length of a string".to_string(), format!("{n} bytes were written: {o:?}"));
            }
            l.outcome("refused");
        }
    });
    r.task("c11 fixed length", |l| {
        let mut kinds = vec![Scalar::U(8), Scalar::I(5), Scalar::Var32];
        kinds.extend(other_kinds());
        for k in kinds {
            let alpha = few_vals(k);
            for (car, ops) in carriers(k) {
                for n in 0..=6usize {
                    for have in 0..=6usize {
                        for packed in [false, true] {
                            let vals: Vec<Val> = (0..have).map(|i| alpha[i % alpha.len()].clone()).collect();
                            let m = Mode { packed, fixed: Some(n), offsets: false };
                            l.state(&(k, &car, n, have, packed));
                            l.step();
                            l.trace();
                            let o = with_writer(&Bits::new(), |w| ops.write(w, &vals, m));
                            if o.is_ok() != (n == have) {
                                l.violation(format!("fixed {} {}/{} elements packed={}", k.zs(), have, n, packed), format!("{:?}", o));
                            } else {
                                l.outcome(if n == have { "written" } else { "refused" });
                            }
                        }
                    }
                }
            }
        }
    });
}
