//! C18: runs the compiler under every bounded choice of the orders it may meet and compares what it writes.
//!
//! One execution = one run of the real compiler (or of its copy whose hash maps take their iteration
//! order from choice points, see mc/ord) on one schema directory. The output tree of every execution
//! must equal that of the first one, byte for byte.
use mccore::{Local, Runner};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

pub type Tree = BTreeMap<String, Vec<u8>>;

fn walk(dir: &Path, base: &Path, t: &mut Tree) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, base, t);
        } else {
            t.insert(p.strip_prefix(base).unwrap().display().to_string(), std::fs::read(&p).unwrap_or_default());
        }
    }
}
#[derive(Clone)]
pub struct Run {
    pub code: i32,
    pub tree: Tree,
}
impl PartialEq for Run {
    /// What a failing run leaves behind is no output.
    fn eq(&self, o: &Run) -> bool {
        self.code == o.code && (self.code != 0 || self.tree == o.tree)
    }
}
#[derive(Clone, Default)]
struct How {
    /// (choice point, alternative)
    choices: Vec<(usize, usize)>,
    front: bool,
    dirs: Vec<u64>,
}
pub struct Env {
    work: PathBuf,
    cli: PathBuf,
    ordered: Option<PathBuf>,
    shim: PathBuf,
}
impl Env {
    pub fn get() -> Env {
        let v = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        Env {
            work: Path::new(&v).join("work/C18"),
            cli: std::env::var("MC_CLI").expect("MC_CLI").into(),
            ordered: std::env::var("MC_ORDERCLI").ok().map(|x| x.into()),
            shim: std::env::var("MC_DIRSHIM").expect("MC_DIRSHIM").into(),
        }
    }
    fn scratch(&self) -> PathBuf {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = self.work.join("run").join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        p
    }
    /// Returns the result and the choice points met (maps, directories).
    fn exec(&self, exe: &Path, schemas: &Path, how: &How) -> (Run, Vec<usize>, Vec<usize>) {
        let s = self.scratch();
        let out = s.join("out");
        std::fs::create_dir_all(&out).unwrap();
        let (tr, dt) = (s.join("trace"), s.join("dirs"));
        let mut c = Command::new(exe);
        c.arg("-o").arg(&out).args(["--root", "top"]).arg(schemas).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        c.env("MC_TRACE", &tr);
        c.env("MC_CHOICES", how.choices.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(","));
        c.env("MC_POLICY", if how.front { "front" } else { "back" });
        c.env("LD_PRELOAD", &self.shim).env("MC_DIR_ROOT", schemas.canonicalize().unwrap()).env("MC_DIR_TRACE", &dt);
        c.env("MC_DIRS", how.dirs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let st = c.status().expect("the compiler runs");
        let mut tree = Tree::new();
        walk(&out, &out, &mut tree);
        let nums = |p: &Path| std::fs::read_to_string(p).unwrap_or_default().lines().map(|x| x.parse().unwrap()).collect();
        let r = (Run { code: st.code().unwrap_or(-1), tree }, nums(&tr), nums(&dt));
        std::fs::remove_dir_all(&s).unwrap();
        r
    }
    /// A plain run of the compiler, nothing controlled.
    fn plain(&self, schemas: &Path, cwd: &Path, out: &Path, arg: &Path) -> Run {
        let _ = schemas;
        std::fs::create_dir_all(out).unwrap();
        let st = Command::new(&self.cli).current_dir(cwd).arg("-o").arg(out).args(["--root", "top"]).arg(arg)
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().expect("the compiler runs");
        let mut tree = Tree::new();
        walk(out, out, &mut tree);
        Run { code: st.code().unwrap_or(-1), tree }
    }
}
pub fn differ(a: &Run, b: &Run) -> String {
    if a.code != b.code {
        return format!("the compiler ends with {} instead of {}", b.code, a.code);
    }
    let missing: Vec<_> = a.tree.keys().filter(|k| !b.tree.contains_key(*k)).collect();
    let more: Vec<_> = b.tree.keys().filter(|k| !a.tree.contains_key(*k)).collect();
    if !missing.is_empty() || !more.is_empty() {
        return format!("files missing: {missing:?}, files added: {more:?}");
    }
    for (k, x) in &a.tree {
        let y = &b.tree[k];
        if x != y {
            let (x, y) = (String::from_utf8_lossy(x), String::from_utf8_lossy(y));
            let at = x.lines().zip(y.lines()).position(|(p, q)| p != q).unwrap_or(x.lines().count().min(y.lines().count()));
            return format!("{k} differs in line {}: `{}` instead of `{}`", at + 1, y.lines().nth(at).unwrap_or("").trim(), x.lines().nth(at).unwrap_or("").trim());
        }
    }
    "nothing".into()
}
fn perms(n: usize) -> u64 {
    (1..=n as u64).product()
}

struct Explore<'a> {
    e: &'a Env,
    dir: PathBuf,
    name: &'a str,
    base: Run,
    seen: HashMap<u64, ()>,
    left: usize,
    cut: bool,
}
impl Explore<'_> {
    fn check(&mut self, l: &mut Local, exe: &Path, how: &How, what: &str) -> Vec<usize> {
        let (r, tr, _) = self.e.exec(exe, &self.dir, how);
        l.trace();
        l.steps(tr.len() as u64 + 1);
        l.state(&(self.name, &how.choices, how.front, &how.dirs, what));
        if r != self.base {
            l.violation(format!("{}:{what}", self.name), format!("{} (map choices {:?} behind default {}, directory orders {:?})", differ(&self.base, &r), how.choices, if how.front { "front" } else { "back" }, how.dirs));
        }
        tr
    }
    /// Every set of at most `d` deviations from the default of the choice points.
    fn maps(&mut self, l: &mut Local, exe: &Path, how: &How, d: usize, from: usize) {
        if self.left == 0 {
            self.cut = true;
            return;
        }
        self.left -= 1;
        let tr = self.check(l, exe, how, "map order");
        if d == 0 {
            return;
        }
        for (i, n) in tr.iter().enumerate().skip(from) {
            for v in 1..*n {
                let mut h = how.clone();
                h.choices.push((i, v));
                self.maps(l, exe, &h, d - 1, i + 1);
            }
        }
    }
}

/// How many executions exploring d deviations takes.
fn cost(tr: &[usize], d: usize) -> usize {
    let a: usize = tr.iter().map(|n| n - 1).sum();
    match d {
        0 => 1,
        1 => 1 + a,
        2 => 1 + a + tr.iter().enumerate().map(|(i, n)| (n - 1) * tr[i + 1..].iter().map(|m| m - 1).sum::<usize>()).sum::<usize>(),
        _ => tr.iter().product::<usize>().max(cost(tr, 2)),
    }
}

/// All orders of one schema directory.
pub fn explore(l: &mut Local, e: &Env, name: &str, budget: usize) {
    let dir = e.work.join("zs").join(name);
    let (base, _, nd) = e.exec(&e.cli, &dir, &How::default());
    l.trace();
    let mut x = Explore { e, dir: dir.clone(), name, base: base.clone(), seen: HashMap::new(), left: usize::MAX, cut: false };
    x.seen.clear();
    l.outcome(if base.code == 0 { "compiles" } else { "refused" });
    // the compiler itself: every order of the directory entries
    let all: u64 = nd.iter().map(|n| perms(*n)).product();
    let mut dirs: Vec<Vec<u64>> = vec![];
    if all <= 720 {
        for mut k in 0..all {
            dirs.push(nd.iter().map(|n| { let p = k % perms(*n); k /= perms(*n); p }).collect());
        }
    } else {
        dirs.push(vec![0; nd.len()]);
        for (i, n) in nd.iter().enumerate() {
            for p in 1..perms(*n).min(720) {
                let mut v = vec![0; nd.len()];
                v[i] = p;
                dirs.push(v);
            }
        }
    }
    for d in &dirs {
        x.check(l, &e.cli, &How { dirs: d.clone(), ..Default::default() }, "directory order");
    }
    // the maps
    if let Some(exe) = &e.ordered {
        for front in [false, true] {
            let h = How { front, ..Default::default() };
            let tr = e.exec(exe, &dir, &h).1;
            let d = (1..=6).rev().find(|d| cost(&tr, *d) <= budget).unwrap_or(1);
            l.outcome(&format!("{} choice points, {d} deviations{}", if tr.len() > 9 { "10 or more".to_string() } else { tr.len().to_string() }, if d >= tr.len() { " (all orders)" } else { "" }));
            x.left = budget.max(cost(&tr, 1));
            x.maps(l, exe, &h, d, 0);
            for dd in dirs.iter().skip(1) {
                x.check(l, exe, &How { front, dirs: dd.clone(), ..Default::default() }, "directory and map order");
            }
        }
    }
    // repeated runs with the real, randomly seeded maps; elsewhere; over an earlier output
    let s = e.scratch();
    let other = s.join("some").join("where");
    for (k, b) in [("out", dir.clone()), ("out", dir.clone()), ("out2", dir.clone()), ("out3", other.clone()), ("out4", PathBuf::from("where"))].into_iter().enumerate() {
        let (out, arg) = b;
        if k == 3 {
            copy(&dir, &other);
        }
        let cwd = if k == 4 { s.join("some") } else { s.clone() };
        let r = e.plain(&dir, &cwd, &s.join(out), &arg);
        l.trace();
        l.step();
        l.state(&(name, "plain", k));
        if r != base {
            l.violation(format!("{name}:repeated"), format!("run {k}: {}", differ(&base, &r)));
        }
    }
    // over files that are longer, shorter or empty
    for (k, f) in [|t: &[u8]| [t, b"\n}} left over {{\n"].concat(), |t: &[u8]| t[..t.len() / 2].to_vec(), |_: &[u8]| vec![], |t: &[u8]| vec![b'}'; t.len() * 3]].into_iter().enumerate() {
        let out = s.join(format!("over{k}"));
        for (p, t) in &base.tree {
            std::fs::create_dir_all(out.join(p).parent().unwrap()).unwrap();
            std::fs::write(out.join(p), f(t)).unwrap();
        }
        let r = e.plain(&dir, &s, &out, &dir);
        l.trace();
        l.step();
        l.state(&(name, "over", k));
        if r != base {
            l.violation(format!("{name}:over"), format!("over other files ({k}): {}", differ(&base, &r)));
        }
    }
    std::fs::remove_dir_all(&s).unwrap();
}
fn copy(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for x in std::fs::read_dir(a).unwrap().flatten() {
        let t = b.join(x.file_name());
        if x.path().is_dir() { copy(&x.path(), &t) } else { std::fs::copy(x.path(), t).unwrap(); }
    }
}

/// The same tokens in another layout: every run of white space becomes `sep`, and `sep` surrounds the file.
fn relayout(text: &str, sep: &str) -> String {
    let mut o = String::from(sep.trim_start_matches(' '));
    let mut quoted = false;
    let mut escaped = false;
    let mut blank = false;
    for c in text.chars() {
        if !quoted && c.is_whitespace() {
            blank = true;
            continue;
        }
        if blank {
            // a division must not become a comment
            if o.ends_with('/') || c == '/' {
                o.push(' ');
            }
            o.push_str(sep);
            if c == '/' {
                o.push(' ');
            }
            blank = false;
        }
        o.push(c);
        if escaped {
            escaped = false;
        } else if quoted && c == '\\' {
            escaped = true;
        } else if c == '"' {
            quoted = !quoted;
        }
    }
    o.push_str(sep);
    o
}
const LAYOUTS: [(&str, &str); 11] = [
    ("spaces", "   "), ("tabs", "\t"), ("lines", "\n"), ("dos lines", "\r\n"), ("comments", " /* c */ "), ("bare comments", "/*c*/"),
    ("line comments", " // struct X { uint8 a; };\n"), ("markdown", "/*! a !*/"), ("doc comments", " /** doc\n * @see a\n */ "), ("stars", "/* * / ** \" ' // **/"), ("dos line comments", "//\r\n"),
];
fn relayout_files(a: &Path, b: &Path, sep: &str) {
    std::fs::create_dir_all(b).unwrap();
    for x in std::fs::read_dir(a).unwrap().flatten() {
        let t = b.join(x.file_name());
        if x.path().is_dir() {
            relayout_files(&x.path(), &t, sep);
        } else {
            std::fs::write(t, relayout(&std::fs::read_to_string(x.path()).unwrap(), sep)).unwrap();
        }
    }
}
/// White space, line ends and comments must not matter.
pub fn layouts(l: &mut Local, e: &Env, name: &str) {
    let dir = e.work.join("zs").join(name);
    let s = e.scratch();
    let base = e.plain(&dir, &s, &s.join("base"), &dir);
    l.trace();
    for (what, sep) in LAYOUTS {
        let zs = s.join("zs");
        relayout_files(&dir, &zs, sep);
        let out = s.join("out");
        let r = e.plain(&zs, &s, &out, &zs);
        l.trace();
        l.step();
        l.state(&(name, "layout", what));
        if r != base {
            l.violation(format!("{name}:layout"), format!("{what}: {}", differ(&base, &r)));
        }
        let _ = std::fs::remove_dir_all(&out);
        let _ = std::fs::remove_dir_all(&zs);
    }
    std::fs::remove_dir_all(&s).unwrap();
}

/// The schemas of the other properties: both default orders of the maps, first and last order of the directories.
pub fn corpus(l: &mut Local, e: &Env, u: &crate::ast::Unit, thorough: bool) {
    let dir = e.work.join("zs").join(&u.name);
    let _ = std::fs::remove_dir_all(&dir);
    for p in &u.pkgs {
        let f = dir.join(p.path());
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, p.zs()).unwrap();
    }
    if thorough {
        explore(l, e, &u.name, 200);
    } else {
        let (base, _, nd) = e.exec(&e.cli, &dir, &How::default());
        let last: Vec<u64> = nd.iter().map(|n| perms(*n) - 1).collect();
        for exe in [Some(&e.cli), e.ordered.as_ref()].into_iter().flatten() {
            for front in [false, true] {
                let (r, _, _) = e.exec(exe, &dir, &How { front, dirs: if front { last.clone() } else { vec![] }, ..Default::default() });
                l.trace();
                l.step();
                l.state(&(&u.name, exe, front));
                if r != base {
                    l.violation(format!("{}:orders", u.name), format!("{} (map default {}, directories {})", differ(&base, &r), if front { "front" } else { "back" }, if front { "reversed" } else { "in order" }));
                }
            }
        }
    }
    layouts(l, e, &u.name);
    std::fs::remove_dir_all(&dir).unwrap();
}

/// What a generated tree declares: paths of files and public items, in any order.
fn items(r: &Run) -> Vec<String> {
    let mut v = vec![];
    for (k, t) in &r.tree {
        for x in String::from_utf8_lossy(t).lines() {
            let x = x.trim();
            if x.starts_with("pub ") || x.starts_with("impl ") {
                v.push(format!("{k}: {x}"));
            }
        }
    }
    v.sort();
    v
}
/// Orders of imports and declarations: each variant must declare what the first one declares.
pub fn variants(l: &mut Local, e: &Env, base: &str, names: &[String]) {
    let mut first: Option<(Vec<String>, Run)> = None;
    for n in names {
        let (r, _, _) = e.exec(&e.cli, &e.work.join("zs").join(n), &How::default());
        l.trace();
        l.step();
        l.state(&(base, n));
        let it = items(&r);
        match &first {
            None => first = Some((it, r)),
            Some((f, fr)) => {
                if r.code != fr.code {
                    l.violation(format!("{base}:items"), format!("{n}: {}", differ(fr, &r)));
                } else if it != *f {
                    let gone = f.iter().find(|x| !it.contains(x));
                    let more = it.iter().find(|x| !f.contains(x));
                    l.violation(format!("{base}:items"), format!("{n}: gone {gone:?}, added {more:?}"));
                } else {
                    l.outcome(if r == *fr { "identical output" } else { "same items, other text" });
                }
            }
        }
    }
}

/// Schemas a user should not write; the compiler's verdict must not depend on any order either.
const RAW: [(&str, &[(&str, &str)]); 5] = [
    ("raw_module", &[("raw/module.zs", "package raw.module;\nstruct FooBar { uint8 a; };\nstruct Foo_Bar { uint16 b; };\nstruct Abc { FooBar x; Foo_Bar y; };\n")]),
    ("raw_twice", &[("one/pack.zs", "package pack;\nstruct Abc { uint8 a; };\n"), ("two/pack.zs", "package pack;\nstruct Abc { uint16 b; };\n"), ("other.zs", "package other;\nimport pack.*;\nstruct Use { Abc x; };\n")]),
    ("raw_unnamed", &[("a.zs", "struct Abc { uint8 a; };\n"), ("b.zs", "struct Bcd { uint16 b; };\n")]),
    ("raw_suffix", &[("pack.zs", "package pack;\nstruct Abc { uint8 a; };\n"), ("pack.ZSERIO", "package pack;\nstruct Bcd { uint8 a; };\n"), ("notes.txt", "nothing\n")]),
    ("raw_missing", &[("a.zs", "package a;\nimport b.*;\nimport c.*;\nstruct Abc { Leaf x; };\n"), ("b.zs", "package b;\nstruct Leaf { uint8 a; };\n"), ("d/e.zs", "package d.e;\nstruct Leaf { uint16 a; };\n")]),
];

/// Tasks of C18 that run the compiler.
pub fn tasks(r: &mut Runner, us: &[crate::ast::Unit], thorough: bool) {
    let _ = std::fs::remove_dir_all(Env::get().work.join("run"));
    let budget = if thorough { 20_000 } else { 700 };
    for (base, names) in crate::units::order::families(us) {
        let b2 = base.clone();
        r.task(format!("{base}: orders of imports and declarations"), move |l| variants(l, &Env::get(), &b2, &names));
    }
    for (n, files) in RAW {
        let d = Env::get().work.join("zs").join(n);
        for (p, t) in files {
            let p = d.join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, t).unwrap();
        }
        r.task(format!("{n}: orders met by the compiler"), move |l| explore(l, &Env::get(), n, budget));
    }
    for u in us {
        if crate::units::order::is_variant(&u.name) && !thorough {
            continue;
        }
        let n = u.name.clone();
        let small = crate::units::order::is_base(us, &n);
        let n2 = n.clone();
        r.task(format!("{n}: orders met by the compiler"), move |l| explore(l, &Env::get(), &n, if small { budget } else { budget / 20 }));
        r.task(format!("{n2}: layouts"), move |l| layouts(l, &Env::get(), &n2));
    }
    for u in crate::units::corpus(thorough) {
        r.task(format!("{}: corpus", u.name), move |l| corpus(l, &Env::get(), &u, thorough));
    }
    if Env::get().ordered.is_none() {
        r.assume("the compiler could not be built with chosen map orders: only directory orders and repeated runs were explored");
    }
}
