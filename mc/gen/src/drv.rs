//! Explores the generated code of every unit in lockstep with the model.
use crate::ast::*;
use crate::codec::*;
use crate::rtops::*;
use crate::units;
use crate::vals;
use mccore::model::{MErr, Rd};
use mccore::{Bits, Local, Out, Runner, Val};
use mcrt::prim::{brief, show};
use std::sync::Arc;

pub type Link = (&'static str, fn() -> Bound);

#[derive(Clone, Copy, Default)]
pub struct Aspects {
    /// wire bits, round trip, consumption
    pub wire: bool,
    pub size: bool,
    /// junk behind the value, every truncation
    pub cut: bool,
    /// functions of the root
    pub funcs: bool,
    /// into used objects
    pub reuse: bool,
    /// single-bit corruptions and short byte strings: no panic; agree with the model where both decode
    pub chaos: bool,
    /// what the decoder accepts must be what the model accepts
    pub verdict: bool,
    /// values out of range
    pub refuse: bool,
    /// what is written is read back; the bits are not judged
    pub round: bool,
    /// lengths no stream can hold, under every allocation cap
    pub hostile: bool,
    /// objects whose nested parameters are not the arguments they should have
    pub mismatch: bool,
    /// to_bytes, to_writer, from_bytes, from_reader, from_file
    pub entry: bool,
    /// padding bits may hold anything
    pub pad: bool,
    pub leads: &'static [usize],
}

pub struct Ctx<'a> {
    pub m: Model<'a>,
    pub p: &'a Pkg,
    pub d: &'a Decl,
    pub ops: &'a dyn TypeOps,
    pub key: String,
}
fn short<T: std::fmt::Debug>(o: &Out<T>) -> String {
    match o {
        Out::Ok(_) => "accepted".into(),
        Out::Err(e) => format!("error {}", e.chars().take(120).collect::<String>()),
        Out::Panic(e) => format!("panic {}", e.replace('\n', " ").chars().take(160).collect::<String>()),
    }
}
impl<'a> Ctx<'a> {
    /// The object a user prepares for decoding: parameters set, everything else default.
    pub fn init(&self, v: &Val) -> Val {
        match v {
            Val::Rec(r) => {
                let n = self.d.params.len();
                let mut o = vec![Val::None; r.len()];
                o[..n].clone_from_slice(&r[..n]);
                Val::Rec(o)
            }
            _ => Val::None,
        }
    }
    fn normal(&self, v: &Val) -> Val {
        self.m.normal_decl(self.p, self.d, v)
    }
    fn params<'v>(&self, v: &'v Val) -> &'v [Val] {
        match v {
            Val::Rec(r) => &r[..self.d.params.len()],
            _ => &[],
        }
    }
    pub fn dec(&self, params: &[Val], b: &Bits, at: usize) -> Result<(Val, usize), MErr> {
        let mut r = Rd::new(b, at);
        self.m.elems.set(0);
        self.m.announced.set(0);
        self.m.exotic.set(false);
        let v = self.m.dec_decl(self.p, self.d, params, &mut r, None)?;
        Ok((v, r.at))
    }

    pub fn one(&self, l: &mut Local, v: &Val, a: &Aspects) {
        let full = format!("{}.{}", self.p.name, self.d.name);
        for &lead in a.leads {
            let want = match self.m.encode(&full, v, lead) {
                Ok(b) => b,
                Err(e) => {
                    // no wire form: the encoder must refuse
                    let got = self.ops.write(v, lead);
                    l.trace();
                    l.outcome(&format!("unrepresentable {e:?}"));
                    if a.refuse {
                        self.refused(l, v, lead, &got);
                    } else if got.is_ok() {
                        l.violation(format!("{}:refuse", self.key), format!("{} cannot be represented ({e:?}) but was written", brief(v)));
                    }
                    continue;
                }
            };
            // the model must agree with itself
            let back = self.dec(self.params(v), &want, lead);
            assert!(
                back == Ok((self.normal(v), want.len())),
                "MACHINERY: model round trip of {} {} at {lead}: {:?}",
                full, brief(v), back
            );
            l.state(&(&full, lead % 64, want.bytes()));
            let n = want.len() - lead;
            if a.refuse {
                let got = self.ops.write(v, lead);
                l.trace();
                l.outcome("representable");
                if got.is_ok() {
                    self.refused(l, v, lead, &got);
                }
            }
            if a.size {
                let s = self.ops.size(v, lead as u64);
                l.trace();
                l.step();
                let stored = if a.wire {
                    Some(n)
                } else {
                    // the prediction is about this writer
                    match self.ops.write(v, lead) {
                        Out::Ok((b, _)) => Some(b.len() - lead),
                        _ => None,
                    }
                };
                if stored.is_some_and(|k| s != Out::Ok(k as u64)) {
                    l.violation(format!("{}:size", self.key), format!("{} at {lead}: predicted {:?}, {} bits are stored", brief(v), s, stored.unwrap()));
                }
            }
            if a.size && !a.wire {
                // the reader uses up what the writer stored
                if let Out::Ok((b, _)) = self.ops.write(v, lead) {
                    l.trace();
                    l.step();
                    match self.ops.read(&self.init(v), &[], b.bytes(), lead) {
                        Out::Ok((_, used)) if used == b.len() - lead => {}
                        _ if self.implicit() => {}
                        Out::Ok((_, used)) => l.violation(format!("{}:consume", self.key), format!("{} at {lead}: {} bits are written, {used} are read", brief(v), b.len() - lead)),
                        o => l.violation(format!("{}:consume", self.key), format!("{} at {lead}: {} bits are written, reading them: {}", brief(v), b.len() - lead, short(&o))),
                    }
                }
            }
            if a.wire {
                let w = self.ops.write(v, lead);
                l.trace();
                l.step();
                match w {
                    Out::Ok((b, data)) => {
                        if b != want {
                            l.violation(
                                format!("{}:write", self.key),
                                format!("{} at {lead}: wrote {} want {}", brief(v), show(&b, lead), show(&want, lead)),
                            );
                        } else if data.len() != b.len().div_ceil(8) {
                            l.violation(format!("{}:write", self.key), format!("{} at {lead}: buffer of {} bytes", brief(v), data.len()));
                        }
                    }
                    o => l.violation(format!("{}:write", self.key), format!("{} at {lead}: {}", brief(v), short(&o))),
                }
                // another implementation's stream
                let mut data = want.clone();
                while data.len() % 8 != 0 {
                    data.push(true);
                }
                data.push_bits(0xa55a, 16);
                let implicit = self.implicit();
                let bytes = if implicit { want.bytes().to_vec() } else { data.bytes().to_vec() };
                let g = self.ops.read(&self.init(v), &[], &bytes, lead);
                l.trace();
                l.step();
                match g {
                    Out::Ok((x, used)) => {
                        if a.wire && self.normal(&x) != self.normal(v) {
                            l.violation(format!("{}:read", self.key), format!("{} at {lead} decodes as {}", brief(&self.normal(v)), brief(&x)));
                        } else if used != n {
                            l.violation(format!("{}:consume", self.key), format!("{} at {lead}: consumed {used} of {n} bits", brief(v)));
                        }
                    }
                    o => l.violation(format!("{}:read", self.key), format!("{} at {lead}: {}", brief(v), short(&o))),
                }
            }
            if a.round {
                let w = self.ops.write(v, lead);
                l.trace();
                l.step();
                match w {
                    Out::Ok((b, data)) => match self.ops.read(&self.init(v), &[], &data, lead) {
                        Out::Ok((x, used)) if self.normal(&x) == self.normal(v) && used == b.len() - lead => l.outcome("read back"),
                        Out::Ok((x, used)) => l.violation(format!("{}:round", self.key), format!("{} at {lead} is read back as {} using {used} of {} bits", brief(v), brief(&x), b.len() - lead)),
                        o => l.violation(format!("{}:round", self.key), format!("{} at {lead} was written, reading it: {}", brief(v), short(&o))),
                    },
                    o => l.violation(format!("{}:round", self.key), format!("{} at {lead}: {}", brief(v), short(&o))),
                }
            }
            if a.cut {
                self.cut(l, v, &want, lead);
            }
            if a.pad && !self.m.unit.reference {
                self.pad(l, v, &want, lead);
            }
            if a.funcs {
                self.funcs(l, v);
            }
        }
    }
    /// Padding is skipped whatever it holds: all ones, and every single bit.
    fn pad(&self, l: &mut Local, v: &Val, want: &Bits, lead: usize) {
        let mut r = Rd::new(want, lead);
        if self.m.dec_decl(self.p, self.d, self.params(v), &mut r, None).is_err() || r.pads.is_empty() {
            return;
        }
        let pads = r.pads;
        let mut sets: Vec<Vec<usize>> = vec![pads.clone()];
        sets.extend(pads.iter().map(|x| vec![*x]));
        for set in sets {
            let mut b = want.clone();
            for i in &set {
                b.set(*i, !b.get(*i));
            }
            let g = self.ops.read(&self.init(v), &[], b.bytes(), lead);
            l.trace();
            l.step();
            l.outcome("padding ignored");
            match g {
                Out::Ok((x, used)) if self.normal(&x) == self.normal(v) && used == want.len() - lead => {}
                o => l.violation(format!("{}:pad", self.key), format!("{} at {lead} with padding bits {:?} set: {}", brief(v), set, match o {
                    Out::Ok((x, used)) => format!("decodes as {} from {used} of {} bits", brief(&x), want.len() - lead),
                    o => short(&o),
                })),
            }
        }
    }
    /// What the encoder did with a value that may have no wire form.
    fn refused(&self, l: &mut Local, v: &Val, lead: usize, got: &Out<(Bits, Vec<u8>)>) {
        match got {
            Out::Ok((b, data)) => {
                let back = self.ops.read(&self.init(v), &[], data, lead);
                l.trace();
                match back {
                    Out::Ok((x, used)) if self.normal(&x) == self.normal(v) && used == b.len() - lead => l.outcome("accepted, comes back"),
                    Out::Ok((x, _)) => l.violation(format!("{}:altered", self.key), format!("{} at {lead} was written and decodes as {}", brief(v), brief(&x))),
                    o => l.violation(format!("{}:altered", self.key), format!("{} at {lead} was written, decoding it: {}", brief(v), short(&o))),
                }
            }
            Out::Err(_) => l.outcome("refused with an error"),
            Out::Panic(e) => {
                let packed = self.d.members().iter().any(|f| f.packed);
                let counts = self.d.members().iter().any(|f| matches!(f.ar, Ar::Fixed(_)) && f.lens.is_some());
                if packed || counts {
                    l.outcome("refused with a panic (packed array or element count)");
                } else {
                    l.violation(format!("{}:panic", self.key), format!("{} at {lead}: writing panics instead of returning an error: {}", brief(v), e.chars().take(160).collect::<String>()));
                }
            }
        }
    }
    pub fn implicit(&self) -> bool {
        self.d.members().iter().any(|x| matches!(x.ar, Ar::Implicit))
    }
    fn cut(&self, l: &mut Local, v: &Val, want: &Bits, lead: usize) {
        // trailing data does not matter
        for junk in [&[][..], &[0][..], &[0xff, 0xff, 0xff][..]] {
            let mut b = want.bytes().to_vec();
            if self.implicit() && !junk.is_empty() {
                continue;
            }
            b.extend_from_slice(junk);
            let g = self.ops.read(&self.init(v), &[], &b, lead);
            l.trace();
            l.step();
            match g {
                Out::Ok((x, used)) if self.normal(&x) == self.normal(v) && used == want.len() - lead => {}
                Out::Ok((x, used)) => {
                    l.violation(format!("{}:junk", self.key), format!("{} with {} bytes behind it decodes as {} using {used} of {} bits", brief(v), junk.len(), brief(&x), want.len() - lead));
                }
                o => l.violation(format!("{}:junk", self.key), format!("{} with {} bytes behind it: {}", brief(v), junk.len(), short(&o))),
            }
        }
        if self.implicit() {
            return;
        }
        let total = want.len().div_ceil(8);
        for k in lead.div_ceil(8)..total {
            // the cut must remove at least one stored bit
            let g = self.ops.read(&self.init(v), &[], &want.bytes()[..k], lead);
            l.trace();
            l.step();
            l.outcome(if g.is_err() { "truncation refused" } else { "truncation not refused" });
            if !g.is_err() {
                l.violation(format!("{}:cut", self.key), format!("{} cut to {k} of {total} bytes: {}", brief(v), short(&g)));
            }
        }
    }
    pub fn funcs(&self, l: &mut Local, v: &Val) {
        let Val::Rec(rec) = v else { return };
        let nv = self.normal(v);
        let _ = rec;
        let Val::Rec(rec) = &nv else { return };
        for f in &self.d.funcs {
            let env = self.m.env_of(self.p, self.d, rec);
            let want = match self.m.eval(env, &f.ex).and_then(|x| self.m.to_val(&self.p.name, &f.ret, x)) {
                Ok(x) => x,
                Err(u) => {
                    l.outcome(&format!("undefined: {}", u.0));
                    continue;
                }
            };
            l.step();
            let got = self.ops.call(&f.name, v);
            l.trace();
            l.state(&(&self.key, &f.name, &want));
            let same = match (&got, &want) {
                (Out::Ok(Some(g)), w) => {
                    g == w
                        || match self.m.resolve(&self.p.name, &f.ret) {
                            Res::D(p, d, _) if d.is_compound() => self.m.normal_decl(p, d, g) == self.m.normal_decl(p, d, w),
                            _ => false,
                        }
                }
                _ => false,
            };
            if !same {
                let g = match &got {
                    Out::Ok(Some(g)) => brief(g),
                    o => short(o),
                };
                l.violation(format!("{}.{}", self.key, f.name), format!("{} on {} is {} but zserio defines {}", f.ex.zs(), brief(v), g, brief(&want)));
            }
        }
    }
    /// Every ordered pair of values: decode the second into an object that holds the first.
    pub fn reuse(&self, l: &mut Local, vs: &[Val]) {
        let full = format!("{}.{}", self.p.name, self.d.name);
        let enc: Vec<Option<Bits>> = vs.iter().map(|v| self.m.encode(&full, v, 0).ok()).collect();
        for (j, new) in vs.iter().enumerate() {
            if l.nviol > 400 {
                break;
            }
            let Some(data) = &enc[j] else { continue };
            let fresh = self.ops.read(&self.init(new), &[], data.bytes(), 0);
            let Out::Ok(fresh) = fresh else { continue }; // another property's concern
            for (i, old) in vs.iter().enumerate() {
                if self.params(old) != self.params(new) {
                    continue;
                }
                let Some(od) = &enc[i] else { continue };
                l.state(&(&full, data.bytes(), od.bytes()));
                // set by hand
                let hand = self.ops.read(&old.clone(), &[], data.bytes(), 0);
                // by an earlier decode, and by a decode that failed half way
                let dec = self.ops.read(&self.init(new), &[od.bytes()], data.bytes(), 0);
                let mut rs = vec![("holding", hand), ("after decoding", dec)];
                for c in [od.bytes().len() / 2, od.bytes().len().saturating_sub(1)] {
                    rs.push(("after failing to decode", self.ops.read(&self.init(new), &[&od.bytes()[..c]], data.bytes(), 0)));
                    rs.push(("holding a value and a failed decode", self.ops.read(&old.clone(), &[&od.bytes()[..c]], data.bytes(), 0)));
                }
                for (how, r) in rs {
                    l.trace();
                    l.step();
                    if r != Out::Ok(fresh.clone()) {
                        let g = match &r {
                            Out::Ok(x) => brief(&x.0),
                            o => short(o),
                        };
                        l.violation(format!("{}:reuse", self.key), format!("decoding {} into an object {how} {} gives {}, a new object {}", brief(new), brief(old), g, brief(&fresh.0)));
                    }
                }
            }
        }
    }
    /// Every length of an encoding replaced by one the data cannot satisfy, under every allocation cap.
    fn hostile(&self, l: &mut Local, v: &Val, bound: &Bound) {
        let full = format!("{}.{}", self.p.name, self.d.name);
        let Ok(want) = self.m.encode(&full, v, 0) else { return };
        *self.m.marks.borrow_mut() = Some(vec![]);
        let back = self.dec(self.params(v), &want, 0);
        let marks = self.m.marks.borrow_mut().take().unwrap();
        assert!(back.is_ok(), "MACHINERY: model round trip of {full}");
        let init = self.init(v);
        l.state(&(&full, want.bytes()));
        for cap in [0usize, 1, 3, 8, 1000, 4096, 20000] {
            zserio::set_array_alloc_chunk(cap);
            let (got, honest) = self.ops.read_peak(&init, want.bytes(), 0);
            l.trace();
            l.step();
            match got {
                Out::Ok((x, used)) if self.normal(&x) == self.normal(v) && used == want.len() => l.outcome("the cap changes nothing"),
                Out::Ok((x, used)) => l.violation(format!("{}:cap", self.key), format!("{} decodes as {} using {used} of {} bits when the cap is {cap}", brief(v), brief(&x), want.len())),
                o => l.violation(format!("{}:cap", self.key), format!("{} when the cap is {cap}: {}", brief(v), short(&o))),
            }
            for mk in &marks {
                let mut r = Rd::new(&want, mk.at);
                let Ok(Val::Int(_)) = mccore::model::dec_scalar(mk.kind, &mut r) else { panic!("MACHINERY: mark") };
                let (_, top) = mk.kind.range();
                let elem = if mk.elem.is_empty() { 32 } else { bound.types.iter().find(|x| x.0 == mk.elem).map_or(512, |x| x.1.mem() + 16) };
                for n in [cap, cap + 1, 2 * cap + 40, 5000, 1 << 14, 1 << 21, 1 << 28, (1 << 31) - 1] {
                    if n as i128 > top || n < 40 {
                        continue;
                    }
                    for payload in [0usize, 2] {
                        let mut b = Bits::new();
                        for i in 0..mk.at {
                            b.push(want.get(i));
                        }
                        mccore::model::enc_scalar(mk.kind, &Val::Int(n as i128), &mut b).unwrap();
                        b.push_bytes(&vec![0xfe; payload]);
                        while b.len() % 8 != 0 {
                            b.push(false);
                        }
                        let said = self.dec(self.params(v), &b, 0);
                        if self.m.elems.get() > 500 || self.m.exotic.get() {
                            l.outcome("not explored: elements of no bits");
                            continue;
                        }
                        let (got, pk) = self.ops.read_peak(&init, b.bytes(), 0);
                        l.trace();
                        l.step();
                        l.state(&(&full, b.bytes(), cap));
                        let room = if mk.array { n.min(cap) * elem } else { 0 };
                        let allow = 2 * honest + room + 64 * elem + 4096;
                        if pk > allow {
                            l.violation(format!("{}:memory", self.key), format!("a length of {n} at bit {} of {} takes {pk} bytes when the cap is {cap}, allowed {allow}", mk.at, brief(v)));
                        } else if got.is_panic() || (said.is_err() && !got.is_err()) {
                            l.violation(format!("{}:hostile", self.key), format!("a length of {n} at bit {} of {}: {}", mk.at, brief(v), short(&got)));
                        } else {
                            l.outcome(if got.is_err() { "refused within the cap" } else { "a length the data holds" });
                        }
                    }
                }
            }
        }
        zserio::set_array_alloc_chunk(1000);
    }
    /// The value with one parameter of one nested object changed.
    fn wrong_params(&self, v: &Val) -> Vec<Val> {
        let mut o = vec![];
        self.change(self.p, self.d, v, false, &mut |x| o.push(x));
        o
    }
    fn change(&self, p: &'a Pkg, d: &'a Decl, v: &Val, nested: bool, sink: &mut dyn FnMut(Val)) {
        let Val::Rec(rec) = v else { return };
        if nested {
            for k in 0..d.params.len() {
                let other = match (&rec[k], self.m.resolve(&p.name, &d.params[k].ty)) {
                    (Val::Int(x), Res::S(kind)) if kind.is_int() => Val::Int(if *x < kind.range().1 { x + 1 } else { x - 1 }),
                    (Val::Bool(b), _) => Val::Bool(!b),
                    (Val::Str(s), _) => Val::Str(format!("{s}x")),
                    _ => continue,
                };
                let mut r = rec.clone();
                r[k] = other;
                // a value that would be right under the other parameter, where there is one
                let (mut zeros, ps) = (Bits::new(), r[..d.params.len()].to_vec());
                zeros.push_bytes(&[0; 64]);
                self.m.elems.set(0);
                self.m.announced.set(0);
                self.m.exotic.set(false);
                if let Ok(v) = self.m.dec_decl(p, d, &ps, &mut Rd::new(&zeros, 0), None) {
                    sink(v);
                }
                sink(Val::Rec(r));
            }
        }
        let b = Model::base(d);
        let Ok(on) = self.m.active(self.m.env_of(p, d, rec), rec) else { return };
        for k in on {
            let Res::D(q, e, _) = self.m.resolve(&p.name, &d.members()[k].ty) else { continue };
            let mut put = |x: Val| {
                let mut r = rec.clone();
                r[b + k] = x;
                sink(Val::Rec(r));
            };
            match &rec[b + k] {
                Val::Arr(xs) => {
                    // of long arrays the elements at the ends and around powers of two
                    let near = |i: usize| xs.len() <= 64 || i < 2 || i + 2 >= xs.len() || [127, 128, 255, 256, 16384, 65535, 65536].contains(&i);
                    for i in (0..xs.len()).filter(|i| near(*i)) {
                        self.change(q, e, &xs[i], true, &mut |x| {
                            let mut ys = xs.clone();
                            ys[i] = x;
                            put(Val::Arr(ys));
                        });
                    }
                }
                x => self.change(q, e, x, true, &mut put),
            }
        }
    }
    /// Every entry point, with readers and writers answering every way within one departure from the obvious.
    fn entry(&self, l: &mut Local, v: &Val, dev: usize) {
        let full = format!("{}.{}", self.p.name, self.d.name);
        let Ok(want) = self.m.encode(&full, v, 0) else { return };
        let bytes = want.bytes().to_vec();
        let whole = self.normal(v);
        let mem = self.ops.to_bytes(v);
        l.trace();
        if mem != Out::Ok(bytes.clone()) {
            l.violation(format!("{}:to_bytes", self.key), format!("{}: {} want {}", brief(v), mem.ok().map_or("an error".into(), |b| mccore::bits::hex(&b)), mccore::bits::hex(&bytes)));
            return;
        }
        let mut bad = vec![];
        let st = mccore::explore(|c| {
            let r = self.ops.to_writer(v, c, dev);
            l.trace();
            l.state(&(&bytes, &r.log, r.calls));
            let good = match &r.res {
                Out::Ok(()) => !r.failed && r.got == bytes,
                Out::Err(_) => r.failed && bytes.starts_with(&r.got),
                Out::Panic(_) => false,
            };
            if !good {
                bad.push(format!("to_writer of {} when the writer answers {:?}: {}, {} of {} bytes", brief(v), r.log, short(&r.res), r.got.len(), bytes.len()));
            }
        });
        l.steps(st.transitions);
        if self.d.params.is_empty() {
            for cut in [0usize, 1] {
                if cut > 0 && (self.implicit() || bytes.is_empty()) {
                    continue;
                }
                let data = &bytes[..bytes.len() - cut];
                let mem = self.ops.from_bytes(data);
                let path = std::env::temp_dir().join(format!("mc-c10-{}-{:?}.bin", std::process::id(), std::thread::current().id()));
                std::fs::write(&path, data).expect("MACHINERY: scratch file");
                let file = self.ops.from_file(&path);
                let _ = std::fs::remove_file(&path);
                l.traces += 2;
                for (how, x) in [("from_bytes", &mem), ("from_file", &file)] {
                    let good = match x {
                        Out::Ok(x) => cut == 0 && self.normal(x) == whole,
                        x => cut > 0 && x.is_err(),
                    };
                    if !good {
                        bad.push(format!("{how} of {} without its last {cut} bytes: {}", brief(v), short(x)));
                    }
                }
                let st = mccore::explore(|c| {
                    let r = self.ops.from_reader(data, c, dev);
                    l.trace();
                    l.state(&(data, &r.log, r.calls));
                    let same = match (&r.res, &mem) {
                        (Out::Ok(a), Out::Ok(b)) => a == b,
                        (Out::Err(_), Out::Err(_)) => true,
                        _ => false,
                    };
                    let good = if r.failed { r.res.is_err() } else { same };
                    l.outcome(if r.failed { "failing reader" } else { "working reader" });
                    if !good {
                        bad.push(format!("from_reader of {} without its last {cut} bytes when the reader answers {:?}: {}", brief(v), r.log, short(&r.res)));
                    }
                });
                l.steps(st.transitions);
            }
        }
        for b in bad {
            l.violation(format!("{}:entry", self.key), b);
        }
    }
    fn decode_any(&self, l: &mut Local, params: &Val, data: &[u8], a: &Aspects) {
        let want = self.dec(self.params(params), &Bits::from_bytes(data), 0);
        // the model stops at what no encoder produces, the code under test may go on
        if self.m.elems.get() > self.m.many.get() || self.m.exotic.get() && self.m.announced.get() > MANY {
            l.outcome("not explored: announces more than 50000 elements");
            return;
        }
        let got = self.ops.read(&self.init(params), &[], data, 0);
        l.trace();
        l.step();
        match (&want, &got) {
            (_, Out::Panic(_)) => {
                l.violation(format!("{}:panic", self.key), format!("decoding {}: {}", mccore::bits::hex(data), short(&got)));
            }
            (Ok(_), Out::Ok(_)) if !a.verdict => l.outcome("decoded"),
            _ if self.m.exotic.get() => l.outcome("no encoder produces this"),
            (Ok((w, n)), Out::Ok((g, used))) => {
                l.outcome("decoded");
                if *w != self.normal(g) || n != used {
                    l.violation(format!("{}:decode", self.key), format!("{} decodes as {} using {used} bits, want {} using {n}", mccore::bits::hex(data), brief(g), brief(w)));
                }
            }
            (Err(e), Out::Ok((g, _))) if a.verdict => {
                l.violation(format!("{}:accept", self.key), format!("{} ({e:?}) decodes as {}", mccore::bits::hex(data), brief(g)));
            }
            (Ok((w, _)), Out::Err(e)) if a.verdict => {
                l.violation(format!("{}:reject", self.key), format!("{} should decode as {} but: {e}", mccore::bits::hex(data), brief(w)));
            }
            _ => l.outcome("not decoded"),
        }
    }
    /// All byte strings of length up to `full`, and corruptions of encodings.
    pub fn chaos(&self, l: &mut Local, vs: &[Val], full: usize, a: &Aspects) {
        let name = format!("{}.{}", self.p.name, self.d.name);
        let mut sets: Vec<Val> = vec![];
        for v in vs {
            let i = self.init(v);
            if !sets.contains(&i) {
                sets.push(i);
            }
        }
        for ps in &sets {
            for n in 0..=full {
                for k in 0..1u64 << (8 * n) {
                    let b = k.to_be_bytes();
                    self.decode_any(l, ps, &b[8 - n..], a);
                }
                l.state(&(&name, ps, n));
            }
            // lengths beyond all data
            for b in [vec![0xff; 12], vec![0x80, 0x80, 0x80, 0x80, 0x10, 0, 0, 0], vec![0x87, 0xff, 0xff, 0xff, 0xff, 0xff], vec![0; 40], vec![0x55; 40], vec![0xaa; 40]] {
                self.decode_any(l, ps, &b, a);
            }
        }
        for v in vs {
            if l.nviol > 400 {
                break;
            }
            let Ok(want) = self.m.encode(&name, v, 0) else { continue };
            l.state(&(&name, want.bytes()));
            for i in 0..want.len().min(400) {
                let mut b = want.clone();
                b.set(i, !b.get(i));
                self.decode_any(l, v, b.bytes(), a);
                let mut ext = b.bytes().to_vec();
                ext.extend_from_slice(&[0; 8]);
                self.decode_any(l, v, &ext, a);
            }
            for i in 0..want.bytes().len().min(60) {
                for x in [0, 0x7f, 0x80, 0xff] {
                    let mut b = want.bytes().to_vec();
                    b[i] = x;
                    self.decode_any(l, v, &b, a);
                    b.truncate(i + 1);
                    self.decode_any(l, v, &b, a);
                }
            }
        }
    }
}

/// Runs a property's own part on one root.
fn explore_root(l: &mut Local, unit: &Unit, rt: &Root, bound: &Bound, a: &Aspects, thorough: bool) {
    let mut a = *a;
    if rt.spread && a.leads.len() == L8.len() {
        a.leads = &L72;
    }
    let a = &a;
    let m = Model::new(unit);
    let (p, d) = m.decl(&rt.ty);
    let ops = bound.ty(&rt.ty);
    let (vs, edges) = vals::values(&m, rt, 400_000);
    assert!(!vs.is_empty(), "MACHINERY: no value of {}", rt.ty);
    l.steps(edges);
    let c = Ctx { m, p, d, ops, key: format!("{}:{}", unit.name, d.name) };
    l.outcome(&format!("values of {} unit types", if d.is_compound() { "compound" } else { "enum/bitmask" }));
    l.sample(|| format!("{}: {} = {}", unit.what, rt.ty, brief(vs.last().unwrap())));
    for v in &vs {
        if l.nviol > 400 {
            break;
        }
        // the glue itself
        if d.is_compound() && !a.reuse {
            let e = c.ops.echo(v);
            assert!(c.normal(&e) == c.normal(v), "MACHINERY: glue of {}: {} became {}", rt.ty, brief(v), brief(&e));
        }
        if a.wire || a.size || a.cut || a.funcs || a.refuse || a.round {
            c.one(l, v, a);
        }
    }
    if a.mismatch {
        let cap = if thorough { 400 } else { 60 };
        let first = Aspects { leads: &[0], ..Default::default() };
        for v in vs.iter().step_by(vs.len().div_ceil(cap)) {
            for w in c.wrong_params(v) {
                l.step();
                c.one(l, &w, &first);
            }
        }
    }
    if a.reuse {
        let cap = if thorough { 160 } else { 48 };
        let mut w: Vec<Val> = vs.clone();
        if w.len() > cap {
            // spread over the whole enumeration
            let k = w.len().div_ceil(cap);
            w = w.into_iter().step_by(k).collect();
        }
        c.reuse(l, &w);
    }
    if a.hostile || a.entry {
        let cap = if thorough { 200 } else if a.hostile { 12 } else { 30 };
        for v in vs.iter().step_by(vs.len().div_ceil(cap)) {
            if l.nviol > 400 {
                break;
            }
            if a.hostile {
                c.hostile(l, v, bound);
            } else {
                c.entry(l, v, if thorough { 2 } else { 1 });
            }
        }
    }
    if a.chaos {
        let full = if thorough { 2 } else { 1 };
        let cap = if thorough { 4000 } else { 150 };
        let w: Vec<Val> = if vs.len() > cap { vs.iter().step_by(vs.len().div_ceil(cap)).cloned().collect() } else { vs.clone() };
        c.chaos(l, &w, full, a);
    }
}

const L72: [usize; 72] = {
    let mut a = [0; 72];
    let mut i = 0;
    while i < 72 {
        a[i] = i;
        i += 1;
    }
    a
};
const L3: &[usize] = &[0, 1, 5];
const L8: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7];

pub fn aspects(prop: &str, thorough: bool) -> Aspects {
    let leads: &'static [usize] = if thorough { L8 } else { L3 };
    let w = Aspects { wire: true, leads, ..Default::default() };
    match prop {
        "C01" | "C02" | "C03" => Aspects { size: true, leads: L8, ..w },
        "C05" => Aspects { round: true, leads: L3, ..Default::default() },
        "C06" => Aspects { leads: &[0, 3], ..w },
        "C08" => Aspects { hostile: true, leads: &[0], ..Default::default() },
        "C10" => Aspects { entry: true, leads: &[0], ..Default::default() },
        "C04" => Aspects { size: true, leads: L8, ..Default::default() },
        "C07" => Aspects { chaos: true, leads: &[0], ..Default::default() },
        "C09" => Aspects { cut: true, leads: if thorough { L8 } else { &[0, 3] }, ..Default::default() },
        "C11" => Aspects { refuse: true, leads: &[0], ..Default::default() },
        "C14" => Aspects { chaos: true, verdict: true, ..w },
        "C15" => Aspects { size: true, pad: true, leads: L8, ..w },
        "C16" => Aspects { funcs: true, ..w },
        "C17" => Aspects { chaos: true, verdict: true, ..w },
        "C20" => Aspects { size: true, ..w },
        "C21" => Aspects { mismatch: true, ..w },
        "C22" => Aspects { reuse: true, leads: &[0], ..Default::default() },
        _ => w,
    }
}

/// Entry point of a work crate.
pub fn main(links: &[Link]) {
    let prop = std::env::args().nth(1).expect("property id");
    let mut r = Runner::new(&prop);
    mcrt::tasks(&mut r);
    let thorough = r.thorough;
    // what could not be generated or compiled
    if let Ok(t) = std::env::var("MC_FAILURES") {
        let t = std::fs::read_to_string(t).unwrap_or_default();
        r.task("generate and compile", move |l| {
            for x in t.lines() {
                if let Some((k, d)) = x.split_once('\t') {
                    l.violation(k, d);
                }
            }
        });
    }
    let a = aspects(&prop, thorough);
    let us = Arc::new(units::of(&prop, thorough));
    let mut nroots = 0;
    for (i, u) in us.iter().enumerate() {
        let Some(link) = links.iter().find(|x| x.0 == u.name) else { continue };
        let f = link.1;
        for (j, rt) in u.roots.iter().enumerate() {
            nroots += 1;
            let us = us.clone();
            r.task(format!("{}/{}#{j}", u.name, rt.ty), move |l| {
                let b = f();
                explore_root(l, &us[i], &us[i].roots[j], &b, &a, thorough);
            });
        }
        let has = u.pkgs.iter().any(|p| p.decls.iter().any(|d| matches!(d.kind, Kind::Enum { .. } | Kind::Bitmask { .. } | Kind::Const { .. })));
        if has && matches!(prop.as_str(), "C16" | "C17" | "C18" | "C19" | "C20") {
            let us = us.clone();
            r.task(format!("{}/declared values", u.name), move |l| declared(l, &us[i], &f()));
        }
    }
    if prop == "C24" {
        crate::refuse::tasks(&mut r, thorough);
        r.assume("the generated Rust is compiled before it is used: what rustc refuses counts as refused");
        r.run()
    }
    if prop == "C18" {
        crate::orders::tasks(&mut r, &us, thorough);
    }
    r.bound(format!(
        "{} schemas generated by the compiler built from /repo, {nroots} root types; every value reachable through the bounded choice points of each root (alphabets, lengths and deviation budgets in mc/gen/src/units), start positions {:?}",
        us.len(), a.leads
    ));
    r.assume("the generated Rust is compiled with overflow checks and debug assertions (as in cargo's dev profile)");
    r.run()
}

/// Items and constants as generated.
fn declared(l: &mut Local, u: &Unit, b: &Bound) {
    let m = Model::new(u);
    for p in &u.pkgs {
        for d in &p.decls {
            if d.unbound {
                continue;
            }
            let full = format!("{}.{}", p.name, d.name);
            match &d.kind {
                Kind::Enum { items, .. } | Kind::Bitmask { items, .. } => {
                    for (n, _, v) in items {
                        let g = b.items.iter().find(|x| x.0 == full && x.1 == n).unwrap_or_else(|| panic!("MACHINERY: item {full}.{n}"));
                        l.trace();
                        l.step();
                        l.state(&(&full, n));
                        if g.2 != *v && g.2 as u64 != *v as u64 {
                            l.violation(format!("{}:{}.{n}", u.name, d.name), format!("{full}.{n} is {} instead of {v}", g.2));
                        }
                    }
                }
                Kind::Const { ty, ex } => {
                    let env = Env { pkg: &p.name, decl: d, params: &[], fields: &[], index: None };
                    let want = match m.eval(env, ex).and_then(|x| m.to_val(&p.name, ty, x)) {
                        Ok(x) => x,
                        Err(e) => panic!("MACHINERY: constant {full}: {}", e.0),
                    };
                    let got = (b.consts.iter().find(|x| x.0 == full).unwrap_or_else(|| panic!("MACHINERY: constant {full}")).1)();
                    l.trace();
                    l.step();
                    l.state(&(&full, &got));
                    if got != want {
                        l.violation(format!("{}:{}", u.name, d.name), format!("{full} is {} instead of {}", brief(&got), brief(&want)));
                    }
                }
                _ => {}
            }
        }
    }
}
