//! Exhaustive enumeration engine: groups of indexed cases, run in parallel, each case compared
//! with the reference model. A parent process supervises (crash, hang) and a child explores.
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct Fail(pub String);
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail(s.to_string())
    }
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail(format!($($t)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::engine::Fail(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b))); }
    }};
}

pub const THREADS: usize = 8;
pub const SLOTS: usize = 32;

/// One per worker, in memory shared with the supervising parent.
#[repr(C)]
pub struct Slot {
    pub busy_since_ms: AtomicU64, // 0 = idle
    pub group: AtomicU64,
    pub index: AtomicU64,
}
#[repr(C)]
pub struct Shared {
    pub slots: [Slot; SLOTS],
    pub names: [[u8; 64]; 256],
    pub crashed_slot: AtomicU64,
}

pub fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000 + 1
}

thread_local! {
    pub static IN_IMPL: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    pub static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub struct Violation {
    pub group: String,
    pub index: usize,
    pub desc: String,
    pub msg: String,
}

pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    shared: &'static Shared,
    states: Vec<Mutex<HashSet<u64>>>,
    transitions: AtomicU64,
    validated: AtomicU64,
    cases: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    pub bounds: Mutex<Vec<String>>,
    group_sizes: Mutex<Vec<(String, usize)>>,
    violation: Mutex<Option<Violation>>,
    stop: AtomicBool,
    only: Option<(String, usize)>,
    start: Instant,
    ngroups: AtomicUsize,
    pub notes: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
}

pub struct W<'a> {
    pub cx: &'a Cx,
    group: &'a str,
    pub index: usize,
    slot: usize,
    states: HashSet<u64>,
    transitions: u64,
    validated: u64,
    cases: u64,
    outcomes: BTreeMap<&'static str, (u64, String)>,
    pub max_alloc: usize,
    pub total_alloc: usize,
}

pub fn h64<K: Hash + ?Sized>(k: &K) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 400 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// A panic outside `W::call`. The cases are the same in every run and none makes the harness panic on a tree
/// that behaves as the model says, so one is an answer the model has no place for; trouble with the machine aside.
pub fn blames_impl(m: &str) -> bool {
    !["os error", "spawn", "Os {", "memory", "storage", "space"].iter().any(|x| m.contains(x)) || m.contains("panicked at /repo/src/") || m.contains("IMPL:")
}
/// The code under test refuses something basic that a check needs to set itself up.
pub fn impl_broken(what: &str) -> ! {
    panic!("IMPL: {}", what)
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

impl Cx {
    pub fn new(prop: &str, thorough: bool, seed: u64, shared: &'static Shared, only: Option<(String, usize)>) -> Cx {
        std::panic::set_hook(Box::new(|info| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let text = format!("panicked at {}: {}", loc, m);
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = text.clone());
            if std::env::var("MC_DEBUG").is_ok() {
                eprintln!("{}", text);
            }
        }));
        Cx {
            prop: prop.into(),
            thorough,
            seed,
            shared,
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            outcomes: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
            group_sizes: Mutex::new(vec![]),
            violation: Mutex::new(None),
            stop: AtomicBool::new(false),
            only,
            start: Instant::now(),
            ngroups: AtomicUsize::new(0),
            notes: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// Runs `f` for every index below `n`, on all cores.
    pub fn group(&self, name: &str, n: usize, f: impl Fn(&mut W, usize) + Sync) {
        self.group_t(name, n, THREADS, f)
    }

    pub fn group_t(&self, name: &str, n: usize, threads: usize, f: impl Fn(&mut W, usize) + Sync) {
        if self.stop.load(Relaxed) {
            return;
        }
        let gid = self.ngroups.fetch_add(1, Relaxed);
        if gid < 256 {
            let dst = self.shared.names[gid].as_ptr() as *mut u8;
            let src = name.as_bytes();
            unsafe { std::ptr::copy_nonoverlapping(src.as_ptr(), dst, src.len().min(63)) };
        }
        self.group_sizes.lock().unwrap().push((name.to_string(), n));
        if let Some((g, _)) = &self.only {
            if g != name {
                return;
            }
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let chunk = (n / (threads * 64)).clamp(1, 4096);
        let harness_panic: Mutex<Option<String>> = Mutex::new(None);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, f, harness_panic) = (&next, &f, &harness_panic);
                let b = std::thread::Builder::new().stack_size(16 << 20);
                b.spawn_scoped(s, move || {
                    MY_SLOT.with(|m| m.set(t));
                    let mut w = W {
                        cx: self,
                        group: name,
                        index: 0,
                        slot: t,
                        states: HashSet::new(),
                        transitions: 0,
                        validated: 0,
                        cases: 0,
                        outcomes: BTreeMap::new(),
                        max_alloc: 0,
                        total_alloc: 0,
                    };
                    let slot = &self.shared.slots[t];
                    slot.group.store(gid as u64, Relaxed);
                    'outer: loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            if self.stop.load(Relaxed) {
                                break 'outer;
                            }
                            if let Some((_, o)) = &self.only {
                                if *o != i {
                                    continue;
                                }
                            }
                            w.index = i;
                            slot.index.store(i as u64, Relaxed);
                            slot.busy_since_ms.store(now_ms(), Relaxed);
                            crate::interpose::rng_reset(h64(&(name, i)));
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut w, i)));
                            slot.busy_since_ms.store(0, Relaxed);
                            if r.is_err() {
                                let m = LAST_PANIC.with(|p| p.borrow().clone());
                                if blames_impl(&m) {
                                    self.fail(name, i, "see group and index".into(), format!("the answer fits nothing the model knows: {}", m));
                                    break 'outer;
                                }
                                *harness_panic.lock().unwrap() = Some(format!("{} group {} index {}", m, name, i));
                                self.stop.store(true, Relaxed);
                                break 'outer;
                            }
                        }
                    }
                    self.merge(w);
                })
                .unwrap();
            }
        });
        if let Some(m) = harness_panic.into_inner().unwrap() {
            eprintln!("ENGINE ERROR (harness, not the code under test): {}", m);
            std::process::exit(3);
        }
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("[{}] group {} n={} {:.2}s", self.prop, name, n, t0.elapsed().as_secs_f64());
        }
    }

    fn merge(&self, w: W) {
        self.transitions.fetch_add(w.transitions, Relaxed);
        self.validated.fetch_add(w.validated, Relaxed);
        self.cases.fetch_add(w.cases, Relaxed);
        for h in w.states {
            self.states[(h & 63) as usize].lock().unwrap().insert(h);
        }
        let mut o = self.outcomes.lock().unwrap();
        let mut sm = self.samples.lock().unwrap();
        for (k, (n, sample)) in w.outcomes {
            let key = format!("{}/{}", w.group, k);
            if !o.contains_key(&key) && sm.len() < 60 {
                sm.push(format!("{} => {}: {}", w.group, k, sample));
            }
            *o.entry(key).or_insert(0) += n;
        }
    }

    pub fn fail(&self, group: &str, index: usize, desc: String, msg: String) {
        let mut v = self.violation.lock().unwrap();
        let better = match &*v {
            None => true,
            Some(o) => o.group == group && index < o.index,
        };
        if better {
            *v = Some(Violation { group: group.into(), index, desc, msg });
        }
        self.stop.store(true, Relaxed);
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    pub fn finish(self) -> i32 {
        let v = self.violation.into_inner().unwrap();
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let wall = self.start.elapsed().as_secs_f64();
        let replaying = self.only.is_some();
        let groups: serde_json::Map<String, serde_json::Value> = {
            let mut m = serde_json::Map::new();
            for (g, n) in self.group_sizes.into_inner().unwrap() {
                let e = m.entry(g).or_insert(serde_json::json!(0));
                *e = serde_json::json!(e.as_u64().unwrap() + n as u64);
            }
            m
        };
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": self.transitions.load(Relaxed),
                "traces_validated_against_impl": self.validated.load(Relaxed),
                "exhaustive": v.is_none(),
                "groups": groups,
                "bounds": self.bounds.into_inner().unwrap(),
                "outcomes": self.outcomes.into_inner().unwrap(),
                "samples": self.samples.into_inner().unwrap(),
                "how_counted": "states: distinct model states/inputs (hashed) visited; transitions: calls into the implementation; traces_validated_against_impl: complete cases whose every observation was compared with the reference model",
            },
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": (wall * 1000.0).round() / 1000.0,
            "violations": if v.is_some() {1} else {0},
        });
        if !replaying {
            write_evidence(&self.prop, &ev);
        }
        for n in self.notes.into_inner().unwrap() {
            println!("{}", n);
        }
        println!(
            "{} {}: states={} transitions={} validated={} wall={:.1}s",
            self.prop,
            if self.thorough { "thorough" } else { "quick" },
            states,
            self.transitions.load(Relaxed),
            self.validated.load(Relaxed),
            wall
        );
        if let Some(v) = v {
            report_violation(&self.prop, self.thorough, &v);
            return 1;
        }
        0
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn write_evidence(prop: &str, ev: &serde_json::Value) {
    let d = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{}/{}.json", d, prop);
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(ev).unwrap()) {
        eprintln!("ENGINE ERROR: cannot write {}: {}", p, e);
        std::process::exit(3);
    }
}

pub fn report_violation(prop: &str, thorough: bool, v: &Violation) {
    let d = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{}/{}.json", d, prop);
    let j = serde_json::json!({
        "property": prop, "tier": if thorough {"thorough"} else {"quick"},
        "group": v.group, "index": v.index, "case": v.desc, "message": v.msg,
        "rerun": format!("bash /verif/check.sh replay {}", p),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    let cut = |s: &str| s.chars().take(1500).collect::<String>();
    println!("group {} index {}\n  case: {}\n  problem: {}", v.group, v.index, cut(&v.desc), cut(&v.msg));
    println!("VIOLATION property={} replay={}", prop, p);
}

impl W<'_> {
    /// Notes a visited model state.
    pub fn state<K: Hash + ?Sized>(&mut self, k: &K) {
        self.states.insert(h64(k));
    }

    /// One call into the code under test. A panic in it is a violation of whatever is checked.
    pub fn call<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> R<T> {
        self.transitions += 1;
        crate::interpose::alloc_reset();
        IN_IMPL.with(|x| x.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_IMPL.with(|x| x.set(false));
        let (m, t) = crate::interpose::alloc_stats();
        self.max_alloc = m;
        self.total_alloc = t;
        match r {
            Ok(v) => Ok(v),
            Err(_) => Err(Fail(format!("{} {}", name, LAST_PANIC.with(|p| p.borrow().clone())))),
        }
    }

    /// One complete case. `body` returns the class of the outcome, or what went wrong.
    pub fn case<K: Hash>(&mut self, key: K, desc: impl Fn() -> String, body: impl FnOnce(&mut Self) -> R<&'static str>) {
        if self.cx.stopped() {
            return;
        }
        self.state(&(self.group, &key));
        self.cases += 1;
        if self.cases % 16 == 0 {
            self.cx.shared.slots[self.slot].busy_since_ms.store(now_ms(), Relaxed);
        }
        match body(self) {
            Ok(o) => {
                self.validated += 1;
                self.outcomes.entry(o).or_insert_with(|| (0, desc().chars().take(600).collect())).0 += 1;
            }
            Err(Fail(m)) => {
                let d = desc();
                self.cx.fail(self.group, self.index, d, m);
            }
        }
    }

    pub fn stopped(&self) -> bool {
        self.cx.stopped()
    }
    pub fn thorough(&self) -> bool {
        self.cx.thorough
    }
    /// A whole run of the implementation within a case.
    pub fn transition(&mut self) {
        self.transitions += 1;
        self.tick();
    }
    pub fn tick(&self) {
        self.cx.shared.slots[self.slot].busy_since_ms.store(now_ms(), Relaxed);
    }
}

pub fn alloc_shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let s = &*(p as *const Shared);
        s.crashed_slot.store(u64::MAX, Relaxed);
        s
    }
}

const HANG_MS: u64 = 120_000;

/// Runs `child` in a forked process and turns its crash or hang into a violation.
pub fn supervise(prop: &str, thorough: bool, seed: u64, child: impl FnOnce(&'static Shared) -> i32) -> i32 {
    let shared = alloc_shared();
    let t0 = now_ms();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        crate::interpose::install_crash_handler(shared);
        let rc = child(shared);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(rc) };
    }
    let blame = |slot: usize, what: &str| -> i32 {
        let s = &shared.slots[slot];
        let g = s.group.load(Relaxed) as usize;
        let n = &shared.names[g.min(255)];
        let name = String::from_utf8_lossy(&n[..n.iter().position(|b| *b == 0).unwrap_or(63)]).to_string();
        let v = Violation { group: name, index: s.index.load(Relaxed) as usize, desc: "see group and index".into(), msg: what.into() };
        write_evidence(
            prop,
            &serde_json::json!({
                "property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "model_checking",
                "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false,
                             "samples": [format!("group {} index {}: {}", v.group, v.index, what)]},
                "wall_s": (now_ms() - t0) as f64 / 1000.0, "violations": 1}),
        );
        report_violation(prop, thorough, &v);
        1
    };
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            if libc::WIFEXITED(st) {
                return libc::WEXITSTATUS(st);
            }
            let sig = libc::WTERMSIG(st);
            let c = shared.crashed_slot.load(Relaxed);
            if c < SLOTS as u64 {
                return blame(c as usize, &format!("the process died on signal {} inside the code under test", sig));
            }
            eprintln!("ENGINE ERROR: explorer died on signal {}", sig);
            return 3;
        }
        let now = now_ms();
        for i in 0..SLOTS {
            let b = shared.slots[i].busy_since_ms.load(Relaxed);
            if b != 0 && now > b + HANG_MS {
                unsafe { libc::kill(pid, libc::SIGKILL) };
                unsafe { libc::waitpid(pid, &mut st, 0) };
                return blame(i, &format!("a case did not finish within {} s", HANG_MS / 1000));
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}
