//! C24: runs the compiler on everything near a schema that is not one.
//!
//! One execution = one run of the real compiler on one text. Texts that are not in the grammar (decided by the
//! recogniser in syntax.rs, which agrees with the reference compiler) must be refused, and so must be the texts of
//! rules.rs; what the compiler lets through has to be refused by rustc. The well-formed texts beside them must pass.
use crate::{rules, syntax};
use mccore::{Local, Runner};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Tools {
    cli: PathBuf,
    rlib: PathBuf,
    deps: PathBuf,
    run: PathBuf,
}
impl Tools {
    fn get() -> Tools {
        let var = |n: &str| PathBuf::from(std::env::var(n).unwrap_or_else(|_| panic!("MACHINERY: {n} is not set")));
        Tools { cli: var("MC_CLI"), rlib: var("MC_RLIB"), deps: var("MC_DEPS"), run: var("VERIF_DIR").join("work/C24/run") }
    }
    fn scratch(&self) -> PathBuf {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = self.run.join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(p.join("zs")).unwrap();
        std::fs::create_dir_all(p.join("out")).unwrap();
        p
    }
    /// Whether the compiler accepts what is in the directory.
    fn compiles(&self, d: &Path) -> bool {
        done(Command::new(&self.cli).arg("-o").arg(d.join("out")).arg(d.join("zs")))
    }
    /// Whether rustc accepts what the compiler wrote.
    fn builds(&self, d: &Path) -> bool {
        done(
            Command::new("rustc").args(["--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-A", "warnings", "-o"]).arg(d.join("x.rmeta"))
                .arg("--extern").arg(format!("zserio={}", self.rlib.display())).arg("-L").arg(format!("dependency={}", self.deps.display())).arg(d.join("out/lib.rs")),
        )
    }
}
fn done(c: &mut Command) -> bool {
    let mut p = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("MACHINERY: cannot run a compiler");
    let t = Instant::now();
    let mut nap = 500;
    loop {
        if let Some(x) = p.try_wait().unwrap() {
            return x.success();
        }
        if t.elapsed() > Duration::from_secs(60) {
            // not what it should do, but it does not accept anything either
            let _ = p.kill();
            let _ = p.wait();
            return false;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 5 / 4).min(20_000);
    }
}
fn put(p: &Path, t: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, t).unwrap();
}

pub fn tasks(r: &mut Runner, thorough: bool) {
    let t = Arc::new(Tools::get());
    let judge = Arc::new(syntax::Judge::new());
    let mut edits = 0;
    for (name, seed) in syntax::SEEDS {
        let all = Arc::new(syntax::edits(seed, thorough));
        edits += all.len();
        const CHUNK: usize = 300;
        for k in 0..all.len().div_ceil(CHUNK) {
            let (all, t, judge) = (all.clone(), t.clone(), judge.clone());
            r.task(format!("edits of {name} #{k}"), move |l: &mut Local| {
                let d = t.scratch();
                for (what, text) in all.iter().skip(k * CHUNK).take(CHUNK) {
                    let (ok, n) = judge.is_schema(text);
                    l.state(text);
                    l.steps(n as u64);
                    if ok {
                        l.outcome("is a schema, not run");
                        continue;
                    }
                    put(&d.join("zs/seed.zs"), text);
                    l.trace();
                    if t.compiles(&d) {
                        l.violation(format!("syntax:{name}:{what}"), format!("the compiler accepts what is no schema: {text}"));
                    } else {
                        l.outcome("refused");
                    }
                }
                std::fs::remove_dir_all(&d).unwrap();
            });
        }
    }
    let rules = Arc::new(rules::rules());
    let n = rules.len();
    const CHUNK: usize = 25;
    for k in 0..n.div_ceil(CHUNK) {
        let (rules, t) = (rules.clone(), t.clone());
        r.task(format!("rules #{k}"), move |l: &mut Local| {
            for x in rules.iter().skip(k * CHUNK).take(CHUNK) {
                let d = t.scratch();
                put(&d.join("zs").join(format!("{}.zs", x.name)), &x.text);
                for (p, text) in &x.more {
                    put(&d.join("zs").join(p), text);
                }
                l.state(&x.text);
                l.step();
                l.trace();
                let by_compiler = !t.compiles(&d);
                let by_rustc = !by_compiler && !t.builds(&d);
                match (x.good, by_compiler, by_rustc) {
                    (true, false, false) => l.outcome("well-formed, accepted"),
                    (true, ..) => l.violation(format!("good:{}", x.what), format!("refused, though well-formed: {}", x.text)),
                    (false, true, _) => l.outcome("malformed, refused by the compiler"),
                    (false, _, true) => l.outcome("malformed, the generated code is refused"),
                    (false, ..) => l.violation(format!("rule:{}", x.what), format!("accepted, though malformed: {}", x.text)),
                }
                std::fs::remove_dir_all(&d).unwrap();
            }
        });
    }
    r.bound(format!("{edits} texts one edit away from {} schemas that use every rule of the grammar, {n} schemas that declare a name twice, name what is not there or pass a wrong number of arguments, and the ones they come from", syntax::SEEDS.len()));
}
