//! Counting allocator and the hostile-length / allocation-cap driver.
use crate::arr::{carriers, Mode};
use crate::drv_array::{all_scalars, few_vals};
use crate::prim::*;
use mccore::model::{self, enc_array};
use mccore::{explore, guard, Bits, Out, Runner, Scalar, Val};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use zserio::vendor::{BitReader, BitWriter};
use zserio::ztype as z;
use zserio::ztype::array_traits::packing_context_node::PackingContextNode;
use zserio::ztype::array_traits::{ObjectArrayTrait, UnsignedBitFieldArrayTrait};
use zserio::{get_array_alloc_chunk, set_array_alloc_chunk, ZserioPackableObject};

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
/// Peak of live bytes during f, above the level at its start.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let p = PEAK.with(|p| p.get());
    (r, (p - base).max(0) as usize)
}
/// Room for error values and packing contexts.
pub const SLACK: usize = 1024;

// An element whose reading asks the driver what the "other thread" does to the setting at that moment.
thread_local! { static SCRIPT: RefCell<Vec<Option<usize>>> = const { RefCell::new(vec![]) }; static AT: Cell<usize> = const { Cell::new(0) }; }
fn tick() {
    let i = AT.with(|a| {
        let i = a.get();
        a.set(i + 1);
        i
    });
    if let Some(Some(v)) = SCRIPT.with(|s| s.borrow().get(i).copied()) {
        set_array_alloc_chunk(v);
    }
}
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Elem {
    list: Vec<u16>,
}
impl ZserioPackableObject for Elem {
    fn zserio_read(&mut self, r: &mut BitReader) -> zserio::Result<()> {
        tick();
        let mut a = inner();
        let n = a.zserio_read_array_length(r)?;
        tick();
        a.zserio_read::<u32>(r, &mut self.list, n, None)?;
        tick();
        Ok(())
    }
    fn zserio_write(&self, w: &mut BitWriter) -> zserio::Result<()> {
        inner().zserio_write::<u32>(w, &self.list, None)
    }
    fn zserio_read_packed(&mut self, _: &mut PackingContextNode, r: &mut BitReader) -> zserio::Result<()> {
        self.zserio_read(r)
    }
    fn zserio_write_packed(&self, _: &mut PackingContextNode, w: &mut BitWriter) -> zserio::Result<()> {
        self.zserio_write(w)
    }
    fn zserio_bitsize(&self, pos: u64) -> zserio::Result<u64> {
        inner().zserio_bitsize::<u32>(&self.list, None, pos)
    }
    fn zserio_bitsize_packed(&self, _: &mut PackingContextNode, pos: u64) -> zserio::Result<u64> {
        self.zserio_bitsize(pos)
    }
    fn zserio_create_packing_context(_: &mut PackingContextNode) {}
    fn zserio_init_packing_context(&self, _: &mut PackingContextNode) -> zserio::Result<()> {
        Ok(())
    }
}
fn inner() -> z::Array<u16> {
    z::Array { array_trait: Box::new(UnsignedBitFieldArrayTrait { num_bits: 11 }), is_packed: true, fixed_size: None }
}
fn outer(packed: bool) -> z::Array<Elem> {
    z::Array { array_trait: Box::new(ObjectArrayTrait {}), is_packed: packed, fixed_size: None }
}

pub const CAPS: [usize; 12] = [0, 1, 2, 3, 7, 8, 100, 999, 1000, 1001, 4096, 20000];

pub fn c08(r: &mut Runner) {
    // the setting is process-wide: one driver thread
    r.threads = 1;
    let th = r.thorough;
    r.bound("runtime: 12 allocation caps x claimed lengths {0..3, cap+-1, 2^14, 2^21, 2^28, 2^31-1} x every element kind x plain/packed/byte-aligned, with 0..2 payload bytes; strings/buffers with claimed lengths up to 2^31-1; cap invariance on array lengths 0..40, 999..1001, 2047..2049; all scripts of cap changes {keep, 0, 1, 3, 1000} at every read step of 3 nested arrays");
    r.assume("peak heap growth is measured with a counting global allocator; 1 KiB is allowed for error values and packing contexts");
    let first = get_array_alloc_chunk();
    r.task("c08 setting", move |l| {
        l.sample(|| "set/get of 0, 1, 2^k, usize::MAX in every order of pairs".into());
        if first != 1000 {
            l.violation("default cap", format!("{first}"));
        }
        let mut vals: Vec<usize> = (0..64).map(|k| 1usize << k).collect();
        vals.extend([0, 3, 999, 1000, 1001, u32::MAX as usize, usize::MAX]);
        for a in &vals {
            for b in &vals {
                l.state(&(a, b));
                l.steps(2);
                l.trace();
                set_array_alloc_chunk(*a);
                let x = get_array_alloc_chunk();
                set_array_alloc_chunk(*b);
                let y = get_array_alloc_chunk();
                if x != *a || y != *b || std::thread::spawn(get_array_alloc_chunk).join().unwrap() != *b {
                    l.violation(format!("setting {a} then {b}"), format!("{x} {y}"));
                }
            }
        }
        l.outcome("last setting observed");
        set_array_alloc_chunk(1000);
    });
    for k in all_scalars() {
        r.task(format!("c08 hostile {}", k.zs()), move |l| {
            for (car, ops) in carriers(k) {
                for cap in CAPS {
                    set_array_alloc_chunk(cap);
                    let mut lens: Vec<usize> = vec![1, 2, 3, cap.saturating_sub(1), cap, cap + 1, 2 * cap, 5000, 1 << 14, 1 << 21, 1 << 28, (1 << 31) - 1];
                    lens.retain(|n| *n > 0);
                    for n in lens {
                        for (mi, m) in [Mode::plain(), Mode::packed(), Mode { offsets: true, ..Mode::plain() }, Mode { offsets: true, ..Mode::packed() }].into_iter().enumerate() {
                            for payload in 0..if th { 3 } else { 2 } {
                                let mut b = Bits::new();
                                model::enc_var(Scalar::VarSize, n as i128, &mut b).unwrap();
                                // payload: packed flag set with 63 delta bits, or length bytes
                                b.push_bytes(&vec![0xfe; payload]);
                                let data = b.bytes().to_vec();
                                l.state(&(k, &car, cap, n, mi, payload));
                                l.trace();
                                l.step();
                                let (got, pk) = peak(|| with_reader(&data, 0, |r| ops.read(r, m).map(|_| ())));
                                // what the cap allows, plus one amortised growth step
                                let allow = n.min(cap) * ops.elem_size() + if payload > 0 { 16 * ops.elem_size().max(8) } else { 0 } + SLACK;
                                let enough = payload > 0; // few elements may be readable, then data runs out
                                let complete = {
                                    let bb = Bits::from_bytes(&data);
                                    let mut rd = model::Rd::new(&bb, 0);
                                    n < 40 && model::dec_array(k, m.packed, None, m.offsets, &mut rd).is_ok()
                                };
                                if pk > allow {
                                    l.violation(format!("memory {}/{} len {} cap {} {:?} payload {}", k.zs(), car, n, cap, m, payload), format!("peak {pk} bytes, allowed {allow}"));
                                } else if got.is_panic() || (!enough && !got.is_err()) || (n >= 40 && !got.is_err()) || (complete && !got.is_ok()) {
                                    l.violation(format!("hostile {}/{} len {} cap {} {:?} payload {}", k.zs(), car, n, cap, m, payload), format!("{:?}", got));
                                } else {
                                    l.outcome(if got.is_ok() { "short array" } else { "error within the cap" });
                                }
                            }
                        }
                    }
                }
            }
            set_array_alloc_chunk(1000);
        });
    }
    r.task("c08 strings and buffers", move |l| {
        for k in [Scalar::Str, Scalar::Bytes, Scalar::Extern] {
            for cap in [0usize, 1000, usize::MAX] {
                set_array_alloc_chunk(cap);
                for n in [1u64, 2, 100, 1 << 14, 1 << 20, 1 << 21, 1 << 24, 1 << 28, 1 << 29, 1 << 30, (1 << 31) - 1] {
                    for have in 0..4usize {
                        for pos in 0..8 {
                            let mut b = prefix(pos, 0);
                            model::enc_var(Scalar::VarSize, n as i128, &mut b).unwrap();
                            let hdr = b.len();
                            b.push_bytes(&vec![b'a'; have]);
                            let need = if k == Scalar::Extern { n as usize } else { 8 * n as usize };
                            if b.bytes().len() * 8 - hdr >= need {
                                continue;
                            }
                            l.state(&(k, cap, n, have, pos));
                            l.trace();
                            l.step();
                            let (got, pk) = peak(|| with_reader(b.bytes(), pos, |r| read(k, r).map(|_| ())));
                            if pk > SLACK || !got.is_err() {
                                l.violation(format!("{} claims {} has {} bytes at {}", k.zs(), n, have, pos), format!("{:?}, peak {}", got, pk));
                            } else {
                                l.outcome("refused without allocating");
                            }
                        }
                    }
                }
            }
        }
        set_array_alloc_chunk(1000);
    });
    for k in [Scalar::U(8), Scalar::I(64), Scalar::Var32, Scalar::Str, Scalar::Bool, Scalar::Extern, Scalar::U(3)] {
        r.task(format!("c08 cap invariance {}", k.zs()), move |l| {
            let alpha = few_vals(k);
            for n in (0..40usize).chain([999, 1000, 1001, 2047, 2048, 2049]) {
                let vals: Vec<Val> = (0..n).map(|i| alpha[i % alpha.len()].clone()).collect();
                for packed in [false, true] {
                    let mut b = Bits::new();
                    enc_array(k, &vals, packed, false, false, &mut b).unwrap();
                    let m = Mode { packed, ..Default::default() };
                    for (car, ops) in carriers(k) {
                        for cap in CAPS.iter().copied().chain([n.saturating_sub(1), n, n + 1]) {
                            set_array_alloc_chunk(cap);
                            l.state(&(k, &car, n, packed, cap));
                            l.trace();
                            l.step();
                            match with_reader(b.bytes(), 0, |r| ops.read(r, m)) {
                                Out::Ok((g, used)) if g == vals && used == b.len() => l.outcome("same result under every cap"),
                                o => l.violation(format!("{}/{} {} elements packed={} cap {}", k.zs(), car, n, packed, cap), format!("{:?}", o.map(|x| brief(&Val::Arr(x.0))))),
                            }
                        }
                    }
                }
            }
            set_array_alloc_chunk(1000);
        });
    }
    r.task("c08 interleaved changes", move |l| {
        let shapes: Vec<Vec<usize>> = vec![vec![0], vec![3], vec![1, 2], vec![5, 0, 2]];
        for shape in shapes {
            for packed in [false, true] {
                let v: Vec<Elem> = shape.iter().map(|n| Elem { list: (0..*n as u16).map(|i| 2047 - 3 * i).collect() }).collect();
                let mut w = BitWriter::new();
                outer(packed).zserio_write::<u32>(&mut w, &v, None).unwrap();
                w.close().unwrap();
                let data = w.data().clone();
                let steps = 3 * shape.len();
                let opts: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(3), Some(1000)];
                let max_changes = if th { 4 } else { 3 };
                let st = explore(|c| {
                    let mut left = max_changes;
                    let mut script = vec![];
                    for _ in 0..steps {
                        let o = if left == 0 { None } else { opts[c.choose(opts.len())] };
                        if o.is_some() {
                            left -= 1;
                        }
                        script.push(o);
                    }
                    let start = [0usize, 2, 1000][c.choose(3)];
                    l.state(&(&shape, packed, &script, start));
                    l.trace();
                    set_array_alloc_chunk(start);
                    SCRIPT.with(|s| *s.borrow_mut() = script.clone());
                    AT.with(|a| a.set(0));
                    let got = guard(|| -> zserio::Result<Vec<Elem>> {
                        let mut r = BitReader::new(&data);
                        let mut a = outer(packed);
                        let n = a.zserio_read_array_length(&mut r)?;
                        let mut v = vec![];
                        a.zserio_read::<u32>(&mut r, &mut v, n, None)?;
                        Ok(v)
                    });
                    let last = script.iter().rev().flatten().next().copied().unwrap_or(start);
                    if got != Out::Ok(v.clone()) || get_array_alloc_chunk() != last {
                        l.violation(format!("interleaving {:?} packed={} start {} script {:?}", shape, packed, start, script), format!("{:?}, setting {}", got, get_array_alloc_chunk()));
                    } else {
                        l.outcome("result independent of the interleaving");
                    }
                });
                l.steps(st.transitions);
            }
        }
        SCRIPT.with(|s| s.borrow_mut().clear());
        set_array_alloc_chunk(1000);
    });
}
