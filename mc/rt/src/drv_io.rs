use mccore::model::{enc_scalar, enc_var};
use mccore::{explore, guard, Bits, Chooser, Local, Out, Runner, Scalar, Val};
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Write};
use std::rc::Rc;
use zserio::vendor::{BitReader, BitWriter};
use zserio::ztype as z;
use zserio::ztype::array_traits::packing_context_node::PackingContextNode;
use zserio::ztype::array_traits::VarUint16ArrayTrait;
use zserio::ZserioPackableObject;

/// A small object with a bit-sized head, a string and an array.
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Probe {
    pub flag_bits: u8,
    pub name: String,
    pub list: Vec<u16>,
}
impl Probe {
    fn arr(&self) -> z::Array<u16> {
        z::Array { array_trait: Box::new(VarUint16ArrayTrait {}), is_packed: false, fixed_size: None }
    }
    pub fn model(&self, b: &mut Bits) {
        b.push_bits((self.flag_bits & 31) as u128, 5);
        enc_scalar(Scalar::Str, &Val::Str(self.name.clone()), b).unwrap();
        enc_var(Scalar::VarSize, self.list.len() as i128, b).unwrap();
        for x in &self.list {
            enc_var(Scalar::VarU16, *x as i128, b).unwrap();
        }
    }
}
impl ZserioPackableObject for Probe {
    fn zserio_read(&mut self, r: &mut BitReader) -> zserio::Result<()> {
        self.flag_bits = z::read_unsigned_bits(r, 5)? as u8;
        self.name = z::read_string(r)?;
        let mut a = self.arr();
        let n = a.zserio_read_array_length(r)?;
        a.zserio_read::<u32>(r, &mut self.list, n, None)
    }
    fn zserio_write(&self, w: &mut BitWriter) -> zserio::Result<()> {
        z::write_unsigned_bits(w, (self.flag_bits & 31) as u64, 5)?;
        z::write_string(w, &self.name)?;
        self.arr().zserio_write::<u32>(w, &self.list, None)
    }
    fn zserio_read_packed(&mut self, _: &mut PackingContextNode, r: &mut BitReader) -> zserio::Result<()> {
        self.zserio_read(r)
    }
    fn zserio_write_packed(&self, _: &mut PackingContextNode, w: &mut BitWriter) -> zserio::Result<()> {
        self.zserio_write(w)
    }
    fn zserio_bitsize(&self, pos: u64) -> zserio::Result<u64> {
        Ok(5 + z::bitsize_string(&self.name)? + self.arr().zserio_bitsize::<u32>(&self.list, None, pos)?)
    }
    fn zserio_bitsize_packed(&self, _: &mut PackingContextNode, pos: u64) -> zserio::Result<u64> {
        self.zserio_bitsize(pos)
    }
    fn zserio_create_packing_context(_: &mut PackingContextNode) {}
    fn zserio_init_packing_context(&self, _: &mut PackingContextNode) -> zserio::Result<()> {
        Ok(())
    }
}
/// Encodes to nothing at all.
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Nothing;
impl ZserioPackableObject for Nothing {
    fn zserio_read(&mut self, _: &mut BitReader) -> zserio::Result<()> {
        Ok(())
    }
    fn zserio_write(&self, _: &mut BitWriter) -> zserio::Result<()> {
        Ok(())
    }
    fn zserio_read_packed(&mut self, _: &mut PackingContextNode, _: &mut BitReader) -> zserio::Result<()> {
        Ok(())
    }
    fn zserio_write_packed(&self, _: &mut PackingContextNode, _: &mut BitWriter) -> zserio::Result<()> {
        Ok(())
    }
    fn zserio_bitsize(&self, _: u64) -> zserio::Result<u64> {
        Ok(0)
    }
    fn zserio_bitsize_packed(&self, _: &mut PackingContextNode, _: u64) -> zserio::Result<u64> {
        Ok(0)
    }
    fn zserio_create_packing_context(_: &mut PackingContextNode) {}
    fn zserio_init_packing_context(&self, _: &mut PackingContextNode) -> zserio::Result<()> {
        Ok(())
    }
}

const KINDS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe];

/// The environment: answers every read/write as the chooser says, at most `dev` departures from "everything at once".
pub struct Env<'a> {
    c: &'a mut Chooser,
    dev: usize,
    log: Vec<String>,
    failed: bool,
    calls: usize,
}
impl Env<'_> {
    /// Answer for a transfer of at most n (>0) bytes: Ok(k) or an error.
    fn answer(&mut self, n: usize, write: bool) -> Result<usize, Error> {
        self.calls += 1;
        if self.dev == 0 {
            return Ok(n);
        }
        // 0: all; then each shorter transfer; then interruption; then failures
        let shorts: Vec<usize> = if n <= 9 { (1..n).collect() } else { vec![1, 2, n / 2, n - 1] };
        let extra = if write { 1 } else { 0 };
        let a = self.c.choose(1 + shorts.len() + 1 + KINDS.len() + extra);
        if a == 0 {
            return Ok(n);
        }
        self.dev -= 1;
        if a <= shorts.len() {
            self.log.push(format!("short {}", shorts[a - 1]));
            return Ok(shorts[a - 1]);
        }
        let a = a - shorts.len() - 1;
        if a == 0 {
            self.log.push("interrupted".into());
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.failed = true;
        if a == KINDS.len() + 1 {
            self.log.push("write returns 0".into());
            return Ok(0);
        }
        self.log.push(format!("error {:?}", KINDS[a - 1]));
        Err(Error::from(KINDS[a - 1]))
    }
}
pub struct W<'a, 'b>(Rc<RefCell<(&'b mut Env<'a>, Vec<u8>)>>);
impl Write for W<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        let k = s.0.answer(buf.len(), true)?;
        s.1.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub struct R<'a, 'b> {
    env: &'b mut Env<'a>,
    data: Vec<u8>,
    at: Rc<RefCell<usize>>,
}
impl Read for R<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut at = self.at.borrow_mut();
        let n = buf.len().min(self.data.len() - *at);
        if buf.is_empty() {
            return Ok(0);
        }
        if n == 0 {
            // at the end: end of file, or interrupted, or an error instead
            if self.env.dev > 0 {
                match self.env.c.choose(3) {
                    0 => return Ok(0),
                    1 => {
                        self.env.dev -= 1;
                        self.env.log.push("interrupted at end".into());
                        return Err(Error::from(ErrorKind::Interrupted));
                    }
                    _ => {
                        self.env.dev -= 1;
                        self.env.failed = true;
                        self.env.log.push("error at end".into());
                        return Err(Error::from(ErrorKind::Other));
                    }
                }
            }
            return Ok(0);
        }
        let k = self.env.answer(n, false)?;
        buf[..k].copy_from_slice(&self.data[*at..*at + k]);
        *at += k;
        Ok(k)
    }
}

/// One execution against a chosen environment.
pub struct IoRun<T> {
    pub res: Out<T>,
    pub log: Vec<String>,
    pub failed: bool,
    pub calls: usize,
    /// bytes that reached the writer
    pub got: Vec<u8>,
    /// bytes taken from the reader
    pub used: usize,
}
pub fn run_writer(c: &mut Chooser, dev: usize, f: impl FnOnce(W) -> zserio::Result<()>) -> IoRun<()> {
    let mut env = Env { c, dev, log: vec![], failed: false, calls: 0 };
    let sink = Rc::new(RefCell::new((&mut env, vec![])));
    let res = guard(|| f(W(sink.clone())));
    let (env, got) = Rc::try_unwrap(sink).ok().unwrap().into_inner();
    IoRun { res, log: std::mem::take(&mut env.log), failed: env.failed, calls: env.calls, got, used: 0 }
}
pub fn run_reader<T>(c: &mut Chooser, dev: usize, data: &[u8], f: impl FnOnce(R) -> zserio::Result<T>) -> IoRun<T> {
    let mut env = Env { c, dev, log: vec![], failed: false, calls: 0 };
    let at = Rc::new(RefCell::new(0));
    let res = guard(|| f(R { env: &mut env, data: data.to_vec(), at: at.clone() }));
    let used = *at.borrow();
    IoRun { res, log: std::mem::take(&mut env.log), failed: env.failed, calls: env.calls, got: vec![], used }
}

fn probes() -> Vec<Probe> {
    let mut v = vec![];
    for n in [0usize, 1, 2, 3, 7, 8, 31, 32, 33, 200] {
        for m in [0usize, 1, 3] {
            v.push(Probe { flag_bits: ((n * 3 + 1) & 31) as u8, name: "q".repeat(n), list: (0..m as u16).map(|i| i * 200).collect() });
        }
    }
    v
}

pub fn c10(r: &mut Runner) {
    let dev = if r.thorough { 4 } else { 3 };
    r.bound(format!("30 objects of 3..210 bytes; every read/write answered by everything-at-once, every shorter length (all for <= 9 bytes), interruption, 4 error kinds, zero-length write or an error at end of file, with at most {dev} departures from the default per execution; files of 0..300 bytes and around 8 KiB and 64 KiB"));
    for (i, p) in probes().into_iter().enumerate() {
        let p2 = p.clone();
        r.task(format!("c10 write {i}"), move |l| {
            let mut want = Bits::new();
            p.model(&mut want);
            let mem = guard(|| zserio::to_bytes(&p));
            if mem != Out::Ok(want.bytes().to_vec()) {
                l.violation(format!("to_bytes {i}"), format!("{:?}", mem));
            }
            l.sample(|| format!("to_writer of {} bytes under every bounded answer sequence", want.bytes().len()));
            let st = explore(|c| {
                let mut env = Env { c, dev, log: vec![], failed: false, calls: 0 };
                let sink = Rc::new(RefCell::new((&mut env, vec![])));
                let res = guard(|| zserio::to_writer(W(sink.clone()), &p));
                let (env, got) = Rc::try_unwrap(sink).ok().unwrap().into_inner();
                l.trace();
                l.state(&(&env.log, env.calls));
                let prefix_ok = want.bytes().starts_with(&got);
                let good = match &res {
                    Out::Ok(()) => !env.failed && got == want.bytes(),
                    Out::Err(_) => env.failed && prefix_ok,
                    Out::Panic(_) => false,
                };
                l.outcome(if env.failed { "failing writer" } else { "working writer" });
                if !good {
                    l.violation(format!("to_writer object {i} answers {:?}", env.log), format!("{:?}, {} of {} bytes written", res, got.len(), want.bytes().len()));
                }
            });
            l.steps(st.transitions);
        });
        r.task(format!("c10 read {i}"), move |l| {
            let mut enc = Bits::new();
            p2.model(&mut enc);
            for (variant, cut, extra) in [(0, 0usize, 0usize), (1, 0, 3), (2, 1, 0)] {
                let mut data = enc.bytes().to_vec();
                data.truncate(data.len() - cut);
                data.extend(vec![0xee; extra]);
                let mem = guard(|| zserio::from_bytes::<Probe>(&data));
                if variant < 2 && mem != Out::Ok(p2.clone()) || variant == 2 && !mem.is_err() {
                    l.violation(format!("from_bytes {i} variant {variant}"), format!("{:?}", mem));
                }
                let st = explore(|c| {
                    let mut env = Env { c, dev, log: vec![], failed: false, calls: 0 };
                    let at = Rc::new(RefCell::new(0));
                    let res = guard(|| zserio::from_reader::<_, Probe>(R { env: &mut env, data: data.clone(), at: at.clone() }));
                    l.trace();
                    l.state(&(variant, &env.log, env.calls));
                    let good = if env.failed { res.is_err() } else { (res == mem || res.is_err() && mem.is_err()) && *at.borrow() == data.len() };
                    l.outcome(if env.failed { "failing reader" } else { "working reader" });
                    if !good {
                        l.violation(
                            format!("from_reader object {i} variant {variant} answers {:?}", env.log),
                            format!("{:?} want {:?}, consumed {} of {}", res, mem, at.borrow(), data.len()),
                        );
                    }
                });
                l.steps(st.transitions);
            }
        });
    }
    r.task("c10 byte by byte", |l| {
        // all compositions of a short encoding
        let p = Probe { flag_bits: 9, name: "abcde".into(), list: vec![5, 300] };
        let mut enc = Bits::new();
        p.model(&mut enc);
        let st = explore(|c| {
            let n = enc.bytes().len();
            let mut env = Env { c, dev: n, log: vec![], failed: false, calls: 0 };
            // only lengths, no errors: restrict by replaying choices ourselves
            struct Sh<'x, 'y> {
                c: &'x mut Chooser,
                got: &'y mut Vec<u8>,
            }
            impl Write for Sh<'_, '_> {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    let k = if b.is_empty() { 0 } else { 1 + self.c.choose(b.len()) };
                    self.got.extend_from_slice(&b[..k]);
                    Ok(k)
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let mut got = vec![];
            let res = guard(|| zserio::to_writer(Sh { c: env.c, got: &mut got }, &p));
            env.calls += 1;
            l.trace();
            l.state(&env.c.trace());
            if res != Out::Ok(()) || got != enc.bytes() {
                l.violation(format!("to_writer split {:?}", env.c.trace()), format!("{:?}", res));
            }
            struct Rh<'x> {
                c: &'x mut Chooser,
                data: Vec<u8>,
                at: usize,
            }
            impl Read for Rh<'_> {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    let n = b.len().min(self.data.len() - self.at);
                    // one byte at a time, or everything
                    let k = if n == 0 { 0 } else if self.c.flag() { 1 } else { n };
                    b[..k].copy_from_slice(&self.data[self.at..self.at + k]);
                    self.at += k;
                    Ok(k)
                }
            }
            let res = guard(|| zserio::from_reader::<_, Probe>(Rh { c: env.c, data: enc.bytes().to_vec(), at: 0 }));
            if res != Out::Ok(p.clone()) {
                l.violation(format!("from_reader split {:?}", env.c.trace()), format!("{:?}", res));
            }
            l.outcome("all splits");
        });
        l.steps(st.transitions);
    });
    r.task("c10 large and empty", |l| {
        for n in [8190usize, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 300_000] {
            let p = Probe { flag_bits: 1, name: "L".repeat(n), list: vec![] };
            let mut enc = Bits::new();
            p.model(&mut enc);
            for dev_script in 0..4usize {
                l.trace();
                l.step();
                l.state(&(n, dev_script));
                struct S(Vec<u8>, usize, usize, usize);
                impl Write for S {
                    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                        self.1 += 1;
                        if self.2 == 3 && self.1 % 2 == 0 {
                            return Err(Error::from(ErrorKind::Interrupted));
                        }
                        let k = match self.2 {
                            0 => b.len(),
                            1 => b.len().min(4096),
                            2 => b.len().min(1 + self.1 % 7000),
                            _ => b.len().min(1000),
                        };
                        self.0.extend_from_slice(&b[..k]);
                        Ok(k)
                    }
                    fn flush(&mut self) -> std::io::Result<()> {
                        Ok(())
                    }
                }
                impl Read for S {
                    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                        self.1 += 1;
                        if self.2 == 3 && self.1 % 2 == 0 {
                            return Err(Error::from(ErrorKind::Interrupted));
                        }
                        let n = b.len().min(self.0.len() - self.3);
                        let k = match self.2 {
                            0 => n,
                            1 => n.min(4096),
                            2 => n.min(1 + self.1 % 7000),
                            _ => n.min(1000),
                        };
                        b[..k].copy_from_slice(&self.0[self.3..self.3 + k]);
                        self.3 += k;
                        Ok(k)
                    }
                }
                let mut s = S(vec![], 0, dev_script, 0);
                let w = guard(|| zserio::to_writer(&mut s, &p));
                if w != Out::Ok(()) || s.0 != enc.bytes() {
                    l.violation(format!("to_writer large {n} script {dev_script}"), format!("{:?} {} bytes", w, s.0.len()));
                }
                let mut s = S(enc.bytes().to_vec(), 0, dev_script, 0);
                let x = guard(|| zserio::from_reader::<_, Probe>(&mut s));
                if x != Out::Ok(p.clone()) {
                    l.violation(format!("from_reader large {n} script {dev_script}"), format!("{:?}", x.map(|v| v.name.len())));
                }
            }
        }
        let x = guard(|| zserio::to_bytes(&Nothing));
        let y = guard(|| zserio::from_bytes::<Nothing>(&[]));
        if x != Out::Ok(vec![]) || y != Out::Ok(Nothing) {
            l.violation("empty object", format!("{:?} {:?}", x, y));
        }
    });
    r.task("c10 files", |l| {
        let dir = std::env::temp_dir().join(format!("mc-c10-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        for n in (0..300usize).chain([8190, 8191, 8192, 8193, 65530, 65535, 65536, 65540]) {
            let p = Probe { flag_bits: (n % 32) as u8, name: "f".repeat(n), list: vec![(n % 1000) as u16; n % 4] };
            let mut enc = Bits::new();
            p.model(&mut enc);
            let f = dir.join("x.bin");
            let mem = guard(|| zserio::to_bytes(&p));
            if mem != Out::Ok(enc.bytes().to_vec()) {
                l.violation(format!("to_bytes file object {n}"), "differs from model");
            }
            // whole file, file with trailing bytes, and a few cuts
            let whole = enc.bytes().to_vec();
            let mut variants: Vec<(Vec<u8>, bool)> = vec![(whole.clone(), true), ([whole.clone(), vec![0xab; 5]].concat(), true)];
            for cut in [0usize, 1, whole.len() / 2, whole.len() - 1] {
                variants.push((whole[..cut].to_vec(), false));
            }
            for (i, (data, ok)) in variants.iter().enumerate() {
                std::fs::write(&f, data).unwrap();
                l.trace();
                l.step();
                l.state(&(n, i));
                let a = guard(|| zserio::from_file::<_, Probe>(&f));
                let b = guard(|| zserio::from_bytes::<Probe>(data));
                let good = if *ok { a == Out::Ok(p.clone()) && b == a } else { a.is_err() && b.is_err() };
                l.outcome(if *ok { "file read" } else { "short file refused" });
                if !good {
                    l.violation(format!("from_file object {n} variant {i}"), format!("{:?}", a.map(|v| v.name.len())));
                }
            }
        }
        for bad in [dir.join("missing.bin"), dir.clone()] {
            let a = guard(|| zserio::from_file::<_, Probe>(&bad));
            if !a.is_err() {
                l.violation("from_file unreadable", format!("{:?}", a));
            }
        }
        // an open file as writer
        let f = dir.join("w.bin");
        for p in probes() {
            let mut fh = std::fs::File::create(&f).unwrap();
            let w = guard(|| zserio::to_writer(&mut fh, &p));
            drop(fh);
            let back = guard(|| zserio::from_file::<_, Probe>(&f));
            l.trace();
            if w != Out::Ok(()) || back != Out::Ok(p.clone()) {
                l.violation(format!("file round trip {}", p.name.len()), format!("{:?} {:?}", w, back.map(|v| v.name.len())));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let _ = |_: &mut Local| {};
}
