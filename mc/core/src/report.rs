//! Task runner, violation/known-finding reporting, evidence.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static IN_GUARD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// Outcome of one call into the code under test.
#[derive(Clone, Debug, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(x) => Out::Ok(f(x)),
            Out::Err(e) => Out::Err(e),
            Out::Panic(e) => Out::Panic(e),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(x) => Some(x),
            _ => None,
        }
    }
}

/// Runs code under test; panics become `Out::Panic`.
pub fn guard<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    IN_GUARD.with(|g| g.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(false));
    match r {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(e)) => Out::Err(format!("{:?}", e)),
        Err(_) => Out::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub struct Local {
    pub task: String,
    states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub violations: BTreeMap<String, String>,
    pub nviol: u64,
    pub samples: Vec<String>,
    pub capped: Option<String>,
    beat: Arc<AtomicU64>,
}

impl Local {
    /// Record a visited (abstract) state.
    pub fn state<H: Hash>(&mut self, h: &H) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.states.insert(s.finish());
        self.beat.fetch_add(1, Ordering::Relaxed);
    }
    /// One model trace was replayed against the implementation.
    pub fn trace(&mut self) {
        self.traces += 1;
        self.beat.fetch_add(1, Ordering::Relaxed);
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn outcome(&mut self, o: &str) {
        match self.outcomes.get_mut(o) {
            Some(n) => *n += 1,
            None => {
                self.outcomes.insert(o.to_string(), 1);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// `key` identifies the failing input; `detail` says what happened.
    pub fn violation(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        self.nviol += 1;
        let k = key.into();
        if self.violations.len() < 40 {
            self.violations.entry(k).or_insert(detail.into());
        }
    }
    pub fn nstates(&self) -> usize {
        self.states.len()
    }
}

type Task = (String, Box<dyn Fn(&mut Local) + Send + Sync>);

pub struct Runner {
    pub prop: String,
    pub thorough: bool,
    pub tier: String,
    pub threads: usize,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    tasks: Vec<Task>,
    t0: Instant,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Known findings of one property: key -> text.
fn known(prop: &str) -> Vec<(String, String)> {
    let mut r = vec![];
    let txt = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    for l in txt.lines() {
        // finding: property=<id> key=<key> what=<text>
        if let Some(rest) = l.strip_prefix(&format!("finding: property={} key=", prop)) {
            if let Some((k, w)) = rest.split_once(" what=") {
                r.push((k.to_string(), w.to_string()));
            }
        }
    }
    r
}

impl Runner {
    pub fn new(prop: &str) -> Runner {
        let tier = std::env::var("MC_TIER").unwrap_or("quick".into());
        Runner {
            prop: prop.into(),
            thorough: tier == "thorough",
            tier,
            threads: 8,
            bounds: vec![],
            assumptions: vec![],
            tasks: vec![],
            t0: Instant::now(),
        }
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }
    pub fn task(&mut self, name: impl Into<String>, f: impl Fn(&mut Local) + Send + Sync + 'static) {
        self.tasks.push((name.into(), Box::new(f)));
    }

    /// Runs everything, writes evidence and replays, prints the verdict and exits.
    pub fn run(self) -> ! {
        std::panic::set_hook(Box::new(|info| {
            let s = info.to_string();
            if !IN_GUARD.with(|g| g.get()) {
                eprintln!("MACHINERY-PANIC: {}", s);
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = s);
        }));
        let only = std::env::var("MC_TASK").ok();
        let n = self.tasks.len();
        let next = Arc::new(AtomicUsize::new(0));
        let tasks = Arc::new(self.tasks);
        let results: Arc<Mutex<Vec<Local>>> = Arc::new(Mutex::new(vec![]));
        let broken = Arc::new(Mutex::new(Vec::<String>::new()));
        let nthreads = self.threads;
        let current: Arc<Vec<(AtomicUsize, Arc<AtomicU64>)>> =
            Arc::new((0..nthreads).map(|_| (AtomicUsize::new(usize::MAX), Arc::new(AtomicU64::new(0)))).collect());
        let mut hs = vec![];
        for t in 0..nthreads {
            let (next, tasks, results, broken, current, only) =
                (next.clone(), tasks.clone(), results.clone(), broken.clone(), current.clone(), only.clone());
            hs.push(
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn(move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= tasks.len() {
                            current[t].0.store(usize::MAX, Ordering::SeqCst);
                            return;
                        }
                        if let Some(o) = &only {
                            if !tasks[i].0.contains(o.as_str()) {
                                continue;
                            }
                        }
                        current[t].0.store(i, Ordering::SeqCst);
                        let mut l = Local {
                            task: tasks[i].0.clone(),
                            states: HashSet::new(),
                            transitions: 0,
                            traces: 0,
                            outcomes: BTreeMap::new(),
                            violations: BTreeMap::new(),
                            nviol: 0,
                            samples: vec![],
                            capped: None,
                            beat: current[t].1.clone(),
                        };
                        let t1 = Instant::now();
                        let r = catch_unwind(AssertUnwindSafe(|| (tasks[i].1)(&mut l)));
                        if std::env::var("MC_TIMES").is_ok() {
                            eprintln!("{:.1} s {} ({} states, {} traces)", t1.elapsed().as_secs_f64(), l.task, l.states.len(), l.traces);
                        }
                        if r.is_err() {
                            broken
                                .lock()
                                .unwrap()
                                .push(format!("{}: {}", tasks[i].0, LAST_PANIC.with(|p| p.borrow().clone())));
                        }
                        results.lock().unwrap().push(l);
                    })
                    .unwrap(),
            );
        }
        // Watchdog: a task that makes no progress for a minute hangs in the code under test.
        let hang_after: u64 = std::env::var("MC_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(60);
        let mut last: Vec<(u64, usize, Instant)> = (0..nthreads).map(|_| (0, usize::MAX, Instant::now())).collect();
        let mut hung: Option<String> = None;
        'wait: loop {
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
            for t in 0..nthreads {
                let b = (current[t].1.load(Ordering::Relaxed), current[t].0.load(Ordering::SeqCst));
                if b.0 != last[t].0 || b.1 != last[t].1 || b.1 == usize::MAX {
                    last[t] = (b.0, b.1, Instant::now());
                } else if last[t].2.elapsed() > Duration::from_secs(hang_after) {
                    hung = Some(tasks[b.1].0.clone());
                    break 'wait;
                }
            }
        }
        let mut rs = std::mem::take(&mut *results.lock().unwrap());
        rs.sort_by(|a, b| a.task.cmp(&b.task));
        let (mut states, mut trans, mut traces, mut nviol) = (0u64, 0u64, 0u64, 0u64);
        let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples = vec![];
        let mut viol: Vec<(String, String, String)> = vec![];
        let mut caps = vec![];
        for l in &rs {
            states += l.states.len() as u64;
            trans += l.transitions;
            traces += l.traces;
            nviol += l.nviol;
            for (k, v) in &l.outcomes {
                *outcomes.entry(k.clone()).or_default() += v;
            }
            if samples.len() < 12 {
                samples.extend(l.samples.iter().take(1).cloned());
            }
            for (k, d) in &l.violations {
                viol.push((l.task.clone(), k.clone(), d.clone()));
            }
            if let Some(c) = &l.capped {
                caps.push(format!("{}: {}", l.task, c));
            }
        }
        if let Some(h) = hung {
            nviol += 1;
            viol.push((h.clone(), format!("hang:{}", h), format!("no progress for {hang_after} s: the code under test does not terminate")));
        }
        let kn = known(&self.prop);
        let mut hit: BTreeSet<usize> = BTreeSet::new();
        let mut fresh = vec![];
        for v in viol {
            match kn.iter().position(|k| k.0 == v.1) {
                Some(i) => {
                    hit.insert(i);
                }
                None => fresh.push(v),
            }
        }
        for (i, k) in kn.iter().enumerate() {
            if hit.contains(&i) {
                println!("KNOWN-FINDING: property={} {}", self.prop, k.1);
            }
        }
        let dir = verif_dir();
        let mut code = 0;
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        for (i, (task, k, d)) in fresh.iter().enumerate() {
            if i >= 10 && std::env::var("MC_ALL").is_err() {
                println!("... {} more violations", fresh.len() - i);
                break;
            }
            let mut h = std::collections::hash_map::DefaultHasher::new();
            k.hash(&mut h);
            let path = format!("{dir}/replays/{}-{:016x}.json", self.prop, h.finish());
            if let Ok(mut f) = std::fs::File::create(&path) {
                let _ = writeln!(
                    f,
                    "{{\"property\":{},\"task\":{},\"key\":{},\"detail\":{},\"replay\":{}}}",
                    json_str(&self.prop),
                    json_str(task),
                    json_str(k),
                    json_str(d),
                    json_str(&format!("MC_TASK={:?} bash /verif/check.sh {} {}", task, self.prop, self.tier))
                );
            }
            println!("VIOLATION property={} replay={}", self.prop, path);
            println!("  {} :: {}", k, d);
            code = 1;
        }
        let broken = broken.lock().unwrap();
        for b in broken.iter() {
            eprintln!("MACHINERY-ERROR: {}", b);
        }
        let list = |v: &[String]| v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
        let oc: Vec<String> = outcomes.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
        let wall = self.t0.elapsed().as_secs_f64();
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"tasks\":{},\"distinct_outcomes\":{{{}}},\"exhaustive\":{},\"caps\":[{}],\"bounds\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            json_str(&self.prop), json_str(&self.tier),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
            states, trans, traces, n, oc.join(","), caps.is_empty() && code == 0 && broken.is_empty(),
            list(&caps), list(&self.bounds), list(&samples), list(&self.assumptions), wall, fresh.len() as u64
        );
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        std::fs::write(format!("{dir}/evidence/{}.json", self.prop), ev).expect("evidence");
        println!(
            "{}: {} tasks, {} states, {} transitions, {} traces against the implementation, {} raw violations, {:.1} s",
            self.prop, n, states, trans, traces, nviol, wall
        );
        for (k, v) in outcomes.iter().take(12) {
            println!("  outcome {k}: {v}");
        }
        if code == 0 && !broken.is_empty() {
            code = 2;
        }
        std::io::stdout().flush().ok();
        std::process::exit(code);
    }
}
