use crate::prim::*;
use mccore::model::{dec_var, enc_scalar, enc_var, MErr, Rd};
use mccore::values::*;
use mccore::{explore, guard, Bits, Local, Out, Runner, Scalar, Val};
use zserio::ztype as z;

fn report(l: &mut Local, k: Scalar, v: &Val, pre: usize, style: usize, generic: bool) {
    l.state(&(k, v, pre, style, generic));
    l.trace();
    if let Some(d) = check_scalar(k, v, &prefix(pre, style), generic) {
        l.violation(format!("{} {} at {} after {}{}", k.zs(), brief(v), pre, style, if generic { " bits" } else { "" }), d);
    } else {
        l.outcome("round trip");
    }
}

/// Ordered pairs/triples of writes on one stream: every value is written and read in context.
fn sequences(l: &mut Local, alphabet: &[(Scalar, Val)], depth: usize) {
    let st = explore(|c| {
        let off = c.choose(8);
        let mut seq = vec![];
        for _ in 0..depth {
            seq.push(c.pick(alphabet).clone());
        }
        l.state(&(off, &seq));
        l.trace();
        let mut want = prefix(off, 1);
        for (k, v) in &seq {
            enc_scalar(*k, v, &mut want).unwrap();
        }
        let name = || format!("seq@{off} {}", seq.iter().map(|(k, v)| format!("{} {}", k.zs(), brief(v))).collect::<Vec<_>>().join(", "));
        match with_writer(&prefix(off, 1), |w| {
            for (k, v) in &seq {
                write(*k, v, w)?;
            }
            Ok(())
        }) {
            Out::Ok((b, data)) => {
                if b != want {
                    l.violation(name(), format!("wrote {} want {}", show(&b, off), show(&want, off)));
                    return;
                }
                let r = with_reader(&data, off, |r| {
                    let mut out = vec![];
                    for (k, _) in &seq {
                        out.push(read(*k, r)?);
                    }
                    Ok(out)
                });
                match r {
                    Out::Ok((got, used)) if used == want.len() - off && seq.iter().zip(&got).all(|((k, v), g)| nan_eq(*k, v, g)) => {}
                    o => l.violation(name(), format!("read back {:?}", o)),
                }
            }
            o => l.violation(name(), format!("write: {:?}", o)),
        }
    });
    l.steps(st.transitions);
}

fn var_values(k: Scalar, thorough: bool) -> Vec<i128> {
    let (lo, hi) = k.range();
    let mut s: std::collections::BTreeSet<i128> = patterned(lo, hi).into_iter().collect();
    // every value near each length-class boundary
    let (max, signed) = k.var().unwrap();
    for n in 1..=max {
        let edge = 1i128 << mccore::model::var_payload(max, signed, n);
        for d in -260..260 {
            s.insert(edge + d);
            s.insert(-(edge + d));
        }
    }
    let small = if thorough { 1 << 20 } else { 1 << 14 };
    for v in -small..=small {
        s.insert(v);
    }
    // every value of every 7/8-bit group in isolation, over zeros and over ones
    for sh in 0..57 {
        for g in 0..256i128 {
            s.insert(g << sh);
            s.insert(-(g << sh));
            s.insert(hi ^ (g << sh));
            s.insert(-(hi ^ (g << sh)));
        }
    }
    s.insert(lo);
    let mut v: Vec<i128> = s.into_iter().filter(|x| *x >= lo && *x <= hi).collect();
    v.sort_by_key(|x| (x.abs(), *x));
    v
}

pub fn c01(r: &mut Runner) {
    let thorough = r.thorough;
    r.bound("values: all |v| <= 2^14 (2^20 thorough), all values within 260 of each length-class boundary, every byte value at every bit shift over zeros and ones, all 2^k+-3; positions 0..7 x neighbours of zeros/ones");
    r.bound("out of range: every carrier value within 260 of the range and powers of two beyond it; varsize encodings beyond 2^31-1");
    r.bound("sequences: all ordered triples over 3 class representatives of each of the 9 types at 8 positions");
    for k in Scalar::VARS {
        for pos in 0..8usize {
            r.task(format!("c01 {} pos {}", k.zs(), pos), move |l| {
                let vals = var_values(k, thorough);
                l.sample(|| format!("{} {} at bit {}", k.zs(), vals[vals.len() / 2], pos));
                for v in vals {
                    for style in 0..2 {
                        report(l, k, &Val::Int(v), pos, style, false);
                    }
                    l.steps(2);
                }
            });
        }
        r.task(format!("c01 {} out of range", k.zs()), move |l| {
            let (lo, hi) = k.range();
            let (clo, chi) = k.carrier();
            let mut cand = boundaries(clo, chi, 260);
            for d in 0..2000 {
                cand.push(hi + d);
                cand.push(lo - d);
            }
            if chi <= 65535 {
                cand = (clo..=chi).collect();
            }
            for v in cand {
                if v < clo || v > chi || (v >= lo && v <= hi) {
                    continue;
                }
                for pos in 0..8 {
                    l.state(&(k, v, pos));
                    l.step();
                    l.trace();
                    match with_writer(&prefix(pos, 1), |w| write(k, &Val::Int(v), w)) {
                        Out::Err(_) => l.outcome("rejected"),
                        o => l.violation(format!("write {} {} at {}", k.zs(), v, pos), format!("out of range value not refused: {:?}", o.map(|x| x.1))),
                    }
                }
                match guard_size(k, &Val::Int(v)) {
                    Some(Out::Panic(p)) => l.violation(format!("size {} {}", k.zs(), v), p),
                    _ => {}
                }
            }
        });
        // decoding every first byte x every pattern of continuation bytes
        r.task(format!("c01 {} decode", k.zs()), move |l| {
            let (max, _) = k.var().unwrap();
            let alpha: Vec<u8> = if max <= 2 { (0..=255).collect() } else { vec![0x00, 0x80, 0x01, 0x81, 0x7f, 0xff, 0x40, 0xc0, 0x55, 0xaa] };
            let tail = if max <= 5 { max } else { 4 };
            for pos in [0usize, 3] {
                let st = explore(|c| {
                    let mut b = prefix(pos, 1);
                    b.push_bits(c.choose(256) as u128, 8);
                    let mut last = 0;
                    for i in 1..max {
                        // long types: vary the first and the last bytes, fix the middle ones to "more"
                        if i >= tail - 1 && i + 2 < max {
                            b.push_bits(0x80 | (i as u128 * 17 & 0x7f), 8);
                            continue;
                        }
                        last = *c.pick(&alpha);
                        b.push_bits(last as u128, 8);
                    }
                    let _ = last;
                    l.state(&b);
                    l.trace();
                    let mut rd = Rd::new(&b, pos);
                    let want = dec_var(k, &mut rd);
                    let got = with_reader(b.bytes(), pos, |r| read(k, r));
                    match (&want, &got) {
                        (Ok(w), Out::Ok((Val::Int(g), used))) if w == g && *used == rd.at - pos => l.outcome("decoded"),
                        (Err(MErr::Range), Out::Err(_)) => l.outcome("range error"),
                        // a negative zero of several bytes is no canonical form: zero and the minimum are both seen
                        (Ok(w), Out::Ok((Val::Int(0), used))) if *w == i64::MIN as i128 && rd.at - pos > 8 && *used == rd.at - pos => l.outcome("negative zero"),
                        _ => l.violation(format!("decode {} {} from bit {}", k.zs(), mccore::bits::hex(b.bytes()), pos), format!("got {:?} want {:?}", got, want)),
                    }
                });
                l.steps(st.transitions);
            }
        });
    }
    let mut alpha = vec![];
    for k in Scalar::VARS {
        let (lo, hi) = k.range();
        alpha.push((k, Val::Int(0)));
        alpha.push((k, Val::Int(hi)));
        alpha.push((k, Val::Int(if lo < 0 { lo + 1 } else { hi / 2 })));
    }
    let alpha2 = alpha.clone();
    r.task("c01 sequences", move |l| sequences(l, &alpha2, if thorough { 3 } else { 2 }));
    if thorough {
        // complete value spaces of the 4-byte types (and varsize), in 64 slices each
        for k in [Scalar::VarU32, Scalar::Var32, Scalar::VarSize] {
            for part in 0..64i128 {
                r.task(format!("c01 full {} {}", k.zs(), part), move |l| {
                    let (lo, hi) = k.range();
                    let n = (hi - lo + 64) / 64;
                    let a = lo + part * n;
                    let b = (a + n).min(hi + 1);
                    let mut v = a;
                    while v < b {
                        l.trace();
                        l.step();
                        let mut want = Bits::new();
                        enc_var(k, v, &mut want).unwrap();
                        let data = match with_writer(&Bits::new(), |w| write(k, &Val::Int(v), w)) {
                            Out::Ok((_, d)) => d,
                            o => {
                                l.violation(format!("{} {}", k.zs(), v), format!("{:?}", o));
                                break;
                            }
                        };
                        if data != want.bytes() {
                            l.violation(format!("{} {}", k.zs(), v), "bits");
                            break;
                        }
                        match with_reader(&data, 0, |r| read(k, r)) {
                            Out::Ok((Val::Int(g), n)) if g == v && n == want.len() => {}
                            o => l.violation(format!("{} {}", k.zs(), v), format!("{:?}", o)),
                        }
                        v += 1;
                    }
                    l.state(&(k, part));
                    l.outcome("full slice");
                });
            }
        }
    }
}

pub fn c02(r: &mut Runner) {
    let thorough = r.thorough;
    r.bound("widths 1..64 signed and unsigned: all values up to 10 bits (16 thorough), boundaries and byte patterns beyond; positions 0..7 x neighbours zeros/ones; fixed-size integer functions likewise");
    r.bound("all 65536 float16 patterns; all float16 rounding midpoints +-1 ulp; f32/f64: all exponents x mantissa patterns x signs; thorough: all 2^32 single values rounded to float16");
    let full = if thorough { 16 } else { 10 };
    for n in 1..=64u8 {
        for signed in [false, true] {
            let k = if signed { Scalar::I(n) } else { Scalar::U(n) };
            r.task(format!("c02 {} {}", if signed { "int" } else { "bit" }, n), move |l| {
                let (lo, hi) = k.range();
                let vals: Vec<i128> = if n <= full { (lo..=hi).collect() } else { patterned(lo, hi) };
                l.sample(|| format!("{} {}", k.zs(), vals[vals.len() / 2]));
                for v in &vals {
                    for pos in 0..8 {
                        for style in 0..2 {
                            l.step();
                            report(l, k, &Val::Int(*v), pos, style, true);
                            if [8, 16, 32, 64].contains(&n) {
                                report(l, k, &Val::Int(*v), pos, style, false);
                            }
                        }
                    }
                }
            });
        }
    }
    r.task("c02 bool", |l| {
        for b in [false, true] {
            for pos in 0..8 {
                for style in 0..3 {
                    l.step();
                    report(l, Scalar::Bool, &Val::Bool(b), pos, style, false);
                }
            }
        }
    });
    // float16: every pattern decodes to the exact value and is written back
    for pos in 0..8usize {
        r.task(format!("c02 float16 pos {pos}"), move |l| {
            for h in 0..=65535u16 {
                let v = Val::F(mccore::model::f16_to_f32(h).to_bits() as u64);
                l.step();
                l.state(&(h, pos));
                l.trace();
                let mut b = prefix(pos, 1);
                b.push_bits(h as u128, 16);
                match with_reader(b.bytes(), pos, |r| read(Scalar::F16, r)) {
                    Out::Ok((g, 16)) if nan_eq(Scalar::F16, &g, &v) => {}
                    o => l.violation(format!("float16 pattern {h:04x} at {pos}"), format!("read {:?} want {:?}", o, v)),
                }
                report(l, Scalar::F16, &v, pos, 0, false);
            }
        });
    }
    r.task("c02 float16 rounding", |l| {
        for h in 0..0x7c00u16 {
            let a = mccore::model::f16_to_f32(h);
            let b = if h + 1 == 0x7c00 { 65536.0 } else { mccore::model::f16_to_f32(h + 1) };
            let mid = ((a as f64 + b as f64) / 2.0) as f32;
            for s in [0u32, 0x8000_0000] {
                for x in [a, mid] {
                    for d in [-1i32, 0, 1] {
                        let bits = (x.to_bits() as i32 + d).max(0) as u32 | s;
                        l.step();
                        report(l, Scalar::F16, &Val::F(bits as u64), (h % 8) as usize, 0, false);
                    }
                }
            }
        }
    });
    for k in [Scalar::F32, Scalar::F64] {
        for pos in 0..8usize {
            r.task(format!("c02 {} pos {pos}", k.zs()), move |l| {
                let (eb, mb) = if k == Scalar::F32 { (8u32, 23u32) } else { (11, 52) };
                let st = explore(|c| {
                    let s = c.choose(2) as u64;
                    let e = c.choose(1 << eb) as u64;
                    let m = [0u64, 1, 2, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, u64::MAX, 1 << (mb - 1), 0x0123456789abcdef][c.choose(8)] & ((1 << mb) - 1);
                    report(l, k, &Val::F(s << (eb + mb) | e << mb | m), pos, 1, false);
                });
                l.steps(st.transitions);
            });
        }
    }
    let alpha: Vec<(Scalar, Val)> = vec![
        (Scalar::U(1), Val::Int(1)),
        (Scalar::U(3), Val::Int(5)),
        (Scalar::I(5), Val::Int(-16)),
        (Scalar::U(8), Val::Int(0xa5)),
        (Scalar::I(8), Val::Int(-1)),
        (Scalar::U(13), Val::Int(0x1234)),
        (Scalar::I(16), Val::Int(-2)),
        (Scalar::U(32), Val::Int(0xdeadbeef)),
        (Scalar::I(33), Val::Int(-(1 << 32))),
        (Scalar::U(63), Val::Int((1 << 63) - 1)),
        (Scalar::U(64), Val::Int(0x8123456789abcdef)),
        (Scalar::I(64), Val::Int(i64::MIN as i128)),
        (Scalar::Bool, Val::Bool(true)),
        (Scalar::Bool, Val::Bool(false)),
        (Scalar::F16, Val::F(1.5f32.to_bits() as u64)),
        (Scalar::F32, Val::F(0x7f7f_fffe)),
        (Scalar::F64, Val::F(0xfff0_0000_0000_0001)),
    ];
    r.task("c02 sequences", move |l| sequences(l, &alpha, if thorough { 4 } else { 3 }));
    if thorough {
        for part in 0..256u32 {
            r.task(format!("c02 all singles to float16 {part}"), move |l| {
                for lo in 0..1u32 << 24 {
                    let bits = part << 24 | lo;
                    let x = f32::from_bits(bits);
                    if x.is_nan() {
                        continue;
                    }
                    l.trace();
                    l.step();
                    let mut w = zserio::vendor::BitWriter::new();
                    let ok = guard(|| z::write_float16(&mut w, x));
                    let d = w.data().clone();
                    let want = mccore::model::f32_to_f16(x).to_be_bytes();
                    if !ok.is_ok() || d != want {
                        l.violation(format!("float16 of {bits:08x}"), format!("{:?} want {:?}", d, want));
                        break;
                    }
                }
                l.state(&part);
            });
        }
    }
}

fn text(n: usize, style: usize) -> String {
    // exactly n bytes of UTF-8
    let mut s = String::new();
    match style {
        0 => {
            for i in 0..n {
                s.push((b' ' + (i % 95) as u8) as char);
            }
        }
        _ => {
            let chars = ["\u{0}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{e9}", "\u{65e5}"];
            let mut i = style;
            while s.len() < n {
                let c = chars[i % chars.len()];
                if s.len() + c.len() <= n {
                    s.push_str(c);
                } else {
                    s.push('x');
                }
                i += 1;
            }
        }
    }
    s
}
fn blob(n: usize, style: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match style {
            0 => (i * 37 + 11) as u8,
            1 => 0xff,
            _ => 0,
        })
        .collect()
}
fn ext(bits: usize, style: usize) -> Val {
    let mut b = blob(bits.div_ceil(8), style);
    if bits % 8 != 0 {
        let l = b.len();
        b[l - 1] &= 0xffu8 << (8 - bits % 8);
    }
    Val::Ext(bits as u32, b)
}

pub fn c03(r: &mut Runner) {
    let thorough = r.thorough;
    r.bound("byte lengths 0..600 and around 2^7, 2^14, 2^16 (2^21 thorough) x 3 contents x positions 0..7; bit sizes 0..1200 and around 2^14, 2^17 x 3 contents x 8 positions");
    r.bound("malformed: every declared length 0..40 and boundary lengths over every shorter data length; all single-byte and all two-byte UTF-8 candidates; every disagreement of declared and actual length up to 12");
    let mut more = vec![1023, 1024, 1025, 16382, 16383, 16384, 16385, 65535, 65536, 65537];
    if thorough {
        more.extend([2097150, 2097151, 2097152, 2097153]);
    }
    for pos in 0..8usize {
        let more = more.clone();
        r.task(format!("c03 lengths pos {pos}"), move |l| {
            l.sample(|| format!("string of 16384 bytes at bit {pos}"));
            for n in lengths(600, &more) {
                for style in 0..3 {
                    l.steps(2);
                    report(l, Scalar::Str, &Val::Str(text(n, style)), pos, 1, false);
                    report(l, Scalar::Bytes, &Val::Bytes(blob(n, style)), pos, 1, false);
                }
            }
            for bits in lengths(1200, &[8191, 8192, 8193, 16383, 16384, 16385, 16386, 16387, 16388, 16389, 16390, 16391, 131071, 131072, 131073]) {
                for style in 0..3 {
                    l.step();
                    report(l, Scalar::Extern, &ext(bits, style), pos, 1, false);
                }
            }
        });
    }
    // contents: every code point class at every position of a short string
    r.task("c03 text contents", |l| {
        let mut cs: Vec<char> = (0..0x300u32).filter_map(char::from_u32).collect();
        for b in [0x7ffu32, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f30d, 0xfffff, 0x100000, 0x10ffff] {
            cs.extend(char::from_u32(b));
        }
        for c in cs {
            for before in 0..3 {
                for after in 0..3 {
                    let s = format!("{}{}{}", "a".repeat(before), c, "\u{e9}".repeat(after));
                    l.step();
                    report(l, Scalar::Str, &Val::Str(s), before, 0, false);
                }
            }
        }
    });
    r.task("c03 utf8", |l| {
        // all one- and two-byte payloads, and boundary three/four-byte ones
        let mut pay: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                pay.push(vec![a, b]);
            }
        }
        for a in [0xe0u8, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5] {
            for b in [0x7fu8, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0] {
                for c in [0x7fu8, 0x80, 0xbf, 0xc0] {
                    pay.push(vec![a, b, c]);
                    for d in [0x7fu8, 0x80, 0xbf, 0xc0] {
                        pay.push(vec![a, b, c, d]);
                    }
                }
            }
        }
        for p in pay {
            for pos in [0usize, 5] {
                l.state(&(&p, pos));
                l.trace();
                l.step();
                let mut b = prefix(pos, 0);
                b.push_bits(p.len() as u128, 8);
                b.push_bytes(&p);
                let got = with_reader(b.bytes(), pos, |r| z::read_string(r));
                let want = String::from_utf8(p.clone()).ok();
                let good = match (&got, &want) {
                    (Out::Ok((g, u)), Some(w)) => g == w && *u == 8 + 8 * p.len(),
                    (Out::Err(_), None) => true,
                    _ => false,
                };
                l.outcome(if want.is_some() { "valid text" } else { "invalid text" });
                if !good {
                    l.violation(format!("utf8 {:02x?} at {pos}", p), format!("{:?}", got));
                }
            }
        }
    });
    r.task("c03 declared length beyond the data", |l| {
        let lens: Vec<u64> = (0..40).chain([127, 128, 255, 256, 16383, 16384, 1 << 20, (1 << 21) - 1, 1 << 21, 1 << 24, 1 << 28, (1 << 29) - 1, 1 << 29, 1 << 30, (1 << 31) - 2, (1 << 31) - 1]).collect();
        for k in [Scalar::Str, Scalar::Bytes, Scalar::Extern] {
            for n in &lens {
                for pos in 0..8 {
                    for have in 0..=40usize {
                        let mut b = prefix(pos, 1);
                        enc_var(Scalar::VarSize, *n as i128, &mut b).unwrap();
                        let need = if k == Scalar::Extern { *n as usize } else { 8 * *n as usize };
                        // `have` bytes of payload, then cut to whole bytes
                        b.push_bytes(&vec![b'a'; have]);
                        let avail = b.bytes().len() * 8;
                        let hdr = b.len() - 8 * have;
                        l.state(&(k, n, pos, have));
                        l.trace();
                        l.step();
                        let got = with_reader(b.bytes(), pos, |r| read(k, r));
                        let enough = avail - hdr >= need;
                        let good = if enough { got.is_ok() } else { got.is_err() };
                        l.outcome(if enough { "complete" } else { "truncated" });
                        if !good {
                            l.violation(format!("{} declares {} has {} bytes at {}", k.zs(), n, have, pos), format!("{:?}", got.map(|x| brief(&x.0))));
                        }
                    }
                }
            }
        }
    });
    r.task("c03 inconsistent buffers", |l| {
        for declared in 0..=96u32 {
            for actual in 0..=12usize {
                for pos in 0..8 {
                    l.state(&(declared, actual, pos));
                    l.steps(2);
                    l.trace();
                    // bytes: byte_size vs data
                    if declared <= 12 && declared as usize != actual {
                        let v = z::BytesType { byte_size: declared, data_blob: blob(actual, 0) };
                        match with_writer(&prefix(pos, 0), |w| z::write_bytes_type(w, &v)) {
                            Out::Err(_) => l.outcome("refused"),
                            o => l.violation(format!("bytes declares {declared} has {actual} at {pos}"), format!("{:?}", o.map(|x| x.1))),
                        }
                    }
                    if (declared as usize).div_ceil(8) != actual {
                        let v = z::ExternType { bit_size: declared, data_blob: blob(actual, 0) };
                        match with_writer(&prefix(pos, 0), |w| z::write_extern_type(w, &v)) {
                            Out::Err(_) => l.outcome("refused"),
                            o => l.violation(format!("extern declares {declared} has {actual} bytes at {pos}"), format!("{:?}", o.map(|x| x.1))),
                        }
                    }
                }
            }
        }
        // bits of the last byte beyond the declared size do not reach the stream
        for bits in 1..64usize {
            if bits % 8 == 0 {
                continue;
            }
            for pos in 0..8 {
                l.step();
                l.trace();
                let dirty = vec![0xffu8; bits.div_ceil(8)];
                let mut clean = dirty.clone();
                *clean.last_mut().unwrap() &= 0xffu8 << (8 - bits % 8);
                let mut want = prefix(pos, 0);
                enc_scalar(Scalar::Extern, &Val::Ext(bits as u32, clean), &mut want).unwrap();
                let v = z::ExternType { bit_size: bits as u32, data_blob: dirty };
                match with_writer(&prefix(pos, 0), |w| z::write_extern_type(w, &v)) {
                    Out::Ok((b, _)) if b == want => {}
                    o => l.violation(format!("extern dirty tail {bits} at {pos}"), format!("{:?}", o.map(|x| x.1))),
                }
            }
        }
    });
    let mut alpha = vec![(Scalar::U(3), Val::Int(5)), (Scalar::U(8), Val::Int(0xff))];
    for n in [0, 1, 2, 127, 128] {
        alpha.push((Scalar::Str, Val::Str(text(n, 3))));
        alpha.push((Scalar::Bytes, Val::Bytes(blob(n, 0))));
    }
    for n in [0, 1, 7, 8, 9, 127, 128, 1023] {
        alpha.push((Scalar::Extern, ext(n, 0)));
    }
    r.task("c03 sequences", move |l| sequences(l, &alpha, if thorough { 3 } else { 2 }));
}

/// Runtime part of the expression semantics: bit-count operators.
pub fn c16(r: &mut Runner) {
    let thorough = r.thorough;
    r.bound("numbits / bit length: all n <= 2^16 (2^24 thorough) and all 2^k+-300, for u8..u64 and i32/i64 carriers");
    r.task("c16 numbits", move |l| {
        let mut vals = boundaries(0, u64::MAX as i128, 300);
        vals.extend(0..if thorough { 1 << 24 } else { 1 << 16 });
        for v in vals {
            l.state(&v);
            l.step();
            l.trace();
            let v = v as u64;
            let blen = mccore::model::bit_len(v as u128) as u8;
            // numbits(n): bits needed for n different values 0..n-1, at least 1 (0 for none)
            let nb = match v {
                0 => 0,
                1 => 1,
                n => mccore::model::bit_len(n as u128 - 1) as u8,
            };
            macro_rules! ck {
                ($t:ty) => {
                    if <$t>::try_from(v).is_ok() {
                        let a = guard(|| Ok::<u8, ()>(zserio::numbits(v as $t)));
                        let b = guard(|| Ok::<u8, ()>(zserio::bit_length(v as $t)));
                        if a != Out::Ok(nb) || b != Out::Ok(blen) {
                            l.violation(format!("numbits {} as {}", v, stringify!($t)), format!("{:?}/{:?} want {}/{}", a, b, nb, blen));
                        }
                    }
                };
            }
            ck!(u8);
            ck!(u16);
            ck!(u32);
            ck!(u64);
            ck!(i8);
            ck!(i16);
            ck!(i32);
            ck!(i64);
            ck!(usize);
        }
    });
}
