//! Exploration driver: case bookkeeping, panic/crash/hang capture, violation and evidence output.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const MAX_REPORTED: usize = 10;
/// A single case takes microseconds; one that takes this long does not terminate.
const HANG_SECS: u64 = 40;
const MAX_THREADS: usize = 64;

/// The case a worker is currently executing.
struct Slot {
    active: AtomicBool,
    seq: AtomicU64,
    case: Mutex<Vec<String>>,
}

pub struct Ctx {
    pub id: &'static str,
    pub level: &'static str,
    pub thorough: bool,
    seed: u64,
    start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub evals: AtomicU64,
    nontrivial: Vec<AtomicU64>,
    outcomes: Vec<AtomicU64>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<serde_json::Value>>,
    assumptions: Mutex<Vec<String>>,
    rule: Mutex<String>,
    violations: Mutex<Vec<(Vec<String>, String)>>,
    nviol: AtomicU64,
    known: Vec<(Vec<String>, String)>,
    known_hit: Mutex<BTreeMap<usize, String>>,
    slots: Arc<Vec<Slot>>,
    root: String,
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);

/// For the crash handler only.
static mut CRASH_SLOTS: Option<Arc<Vec<Slot>>> = None;
static mut CRASH_ID: &str = "";
static mut CRASH_ROOT: String = String::new();
/// The file being replayed.
static mut CRASH_FILE: Option<String> = None;

fn encode_case(args: &[String]) -> String {
    serde_json::to_string(args).unwrap()
}

/// Reports the case a crashing thread was executing. The process is about to die anyway.
extern "C" fn on_crash(sig: libc::c_int) {
    unsafe {
        static CRASHED: AtomicU64 = AtomicU64::new(0);
        let me = libc::pthread_self() as u64;
        match CRASHED.compare_exchange(0, me, SeqCst, SeqCst) {
            Ok(_) => {}
            // A crash while reporting.
            Err(by) if by == me => libc::_exit(70),
            // Another thread is reporting and will end the process.
            Err(_) => loop {
                libc::sleep(10);
            },
        }
        #[allow(static_mut_refs)]
        if let Some(file) = &CRASH_FILE {
            let line = format!("replay: killed by signal {sig}\nVIOLATION property={CRASH_ID} replay={file}\n");
            libc::write(1, line.as_ptr().cast(), line.len());
            libc::_exit(1);
        }
        let slot = SLOT.with(|s| s.get());
        #[allow(static_mut_refs)]
        if let Some(slots) = &CRASH_SLOTS {
            if slot < slots.len() && slots[slot].active.load(Relaxed) {
                if let Ok(case) = slots[slot].case.try_lock() {
                    let msg = format!("the process was killed by signal {sig} while executing this case");
                    let path = write_replay(CRASH_ROOT.as_str(), CRASH_ID, 0, &case, &msg);
                    let line = format!("VIOLATION property={} replay={}\n", CRASH_ID, path);
                    libc::write(1, line.as_ptr().cast(), line.len());
                    libc::_exit(1);
                }
            }
        }
        libc::_exit(70);
    }
}

fn install_crash_handler() {
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

fn write_replay(root: &str, id: &str, n: usize, case: &[String], msg: &str) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{n}.txt");
    let text = format!(
        "property: {id}\ncase: {}\nobserved: {msg}\nreplay with: ./run.sh {id} replay {path}\n",
        encode_case(case)
    );
    let _ = std::fs::write(&path, text);
    path
}

/// Hash for outcome counting (FNV-1a).
pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100000001b3))
}

/// Ordinals of the cases written out as samples.
const SAMPLED: [u64; 13] =
    [1, 10, 100, 1000, 3000, 10_000, 30_000, 100_000, 300_000, 1_000_000, 10_000_000, 100_000_000, 1_000_000_000];

const OUTCOME_BITS: usize = 1 << 22;
const NONTRIVIAL_BITS: usize = 1 << 29;

fn mark(bits: &[AtomicU64], h: u64) {
    let h = (h ^ (h >> 29)).wrapping_mul(0x9E3779B97F4A7C15) >> 16;
    let h = h as usize % (bits.len() * 64);
    let bit = 1 << (h % 64);
    if bits[h / 64].load(Relaxed) & bit == 0 {
        bits[h / 64].fetch_or(bit, Relaxed);
    }
}

fn marked(bits: &[AtomicU64]) -> u64 {
    bits.iter().map(|w| u64::from(w.load(SeqCst).count_ones())).sum()
}

pub type ReplayFn = fn(&Ctx, &[String]) -> Result<(), String>;

/// Entry point of a check binary.
pub fn run(id: &'static str, level: &'static str, explore: fn(&Ctx), replay: ReplayFn) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<String>().cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if SLOT.with(|s| s.get()) == usize::MAX {
            eprintln!("panic in the harness: {msg} at {loc}");
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("panicked: {msg} (at {loc})"));
    }));
    let mode = args.get(1).map(String::as_str).unwrap_or("quick");
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..MAX_THREADS)
            .map(|_| Slot { active: AtomicBool::new(false), seq: AtomicU64::new(0), case: Mutex::new(Vec::new()) })
            .collect(),
    );
    let ctx = Ctx {
        id,
        level,
        thorough: mode == "thorough",
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
        start: Instant::now(),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        evals: AtomicU64::new(0),
        nontrivial: (0..NONTRIVIAL_BITS / 64).map(|_| AtomicU64::new(0)).collect(),
        outcomes: (0..OUTCOME_BITS / 64).map(|_| AtomicU64::new(0)).collect(),
        counters: Mutex::default(),
        samples: Mutex::default(),
        assumptions: Mutex::default(),
        rule: Mutex::default(),
        violations: Mutex::default(),
        nviol: AtomicU64::new(0),
        known: load_known(&root, id),
        known_hit: Mutex::default(),
        slots: slots.clone(),
        root: root.clone(),
    };
    if mode == "replay" {
        let text = std::fs::read_to_string(&args[2]).expect("replay file");
        let line = text.lines().find_map(|l| l.strip_prefix("case: ")).expect("case line");
        let case: Vec<String> = serde_json::from_str(line).expect("case");
        unsafe {
            CRASH_ID = id;
            CRASH_FILE = Some(args[2].clone());
            let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        install_crash_handler();
        match guard(|| replay(&ctx, &case)) {
            Ok(()) => {
                println!("replay: property {id} holds for {line}");
                std::process::exit(0)
            }
            Err(e) => {
                println!("replay: {e}");
                println!("VIOLATION property={id} replay={}", args[2]);
                std::process::exit(1)
            }
        }
    }
    unsafe {
        CRASH_SLOTS = Some(slots.clone());
        CRASH_ID = id;
        #[allow(static_mut_refs)]
        CRASH_ROOT.push_str(&root);
    }
    unsafe {
        // A runaway allocation must not take the machine down.
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    install_crash_handler();
    let hang_root = root.clone();
    std::thread::spawn(move || watch(slots, id, hang_root));
    explore(&ctx);
    std::process::exit(ctx.finish());
}

fn watch(slots: Arc<Vec<Slot>>, id: &'static str, root: String) {
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); slots.len()];
    loop {
        std::thread::sleep(Duration::from_secs(1));
        for (s, l) in slots.iter().zip(&mut last) {
            let seq = s.seq.load(SeqCst);
            if !s.active.load(SeqCst) || seq != l.0 {
                *l = (seq, Instant::now());
            } else if l.1.elapsed().as_secs() >= HANG_SECS {
                let case = s.case.lock().unwrap().clone();
                let path = write_replay(&root, id, 0, &case, "the operation did not return");
                println!("VIOLATION property={id} replay={path}");
                unsafe { libc::_exit(1) }
            }
        }
    }
}

fn load_known(root: &str, id: &str) -> Vec<(Vec<String>, String)> {
    let text = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let want = format!("known: property={id} case=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&want))
        .filter_map(|l| {
            let mut de = serde_json::Deserializer::from_str(l).into_iter::<Vec<String>>();
            let case = de.next()?.ok()?;
            Some((case, l[de.byte_offset()..].trim().to_string()))
        })
        .collect()
}

/// Runs `f`, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow().clone())),
    }
}

impl Ctx {
    fn slot(&self) -> &Slot {
        let i = SLOT.with(|s| {
            if s.get() == usize::MAX {
                s.set(NEXT_SLOT.fetch_add(1, SeqCst) % MAX_THREADS);
            }
            s.get()
        });
        &self.slots[i]
    }

    /// Executes one case. `case` identifies it for replay.
    pub fn case(&self, case: &[&str], f: impl FnOnce() -> Result<(), String>) {
        let slot = self.slot();
        {
            let mut c = slot.case.lock().unwrap();
            c.resize(case.len(), String::new());
            for (d, s) in c.iter_mut().zip(case) {
                d.clear();
                d.push_str(s);
            }
        }
        slot.seq.fetch_add(1, Relaxed);
        slot.active.store(true, Relaxed);
        let r = guard(f);
        slot.active.store(false, Relaxed);
        let n = self.evals.fetch_add(1, Relaxed) + 1;
        if SAMPLED.contains(&n) {
            self.sample(case.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        }
        if let Err(e) = r {
            self.fail(case, e);
        }
    }

    pub fn fail(&self, case: &[&str], msg: String) {
        if let Some(i) = self.known.iter().position(|(c, _)| c.iter().map(String::as_str).eq(case.iter().copied())) {
            self.known_hit.lock().unwrap().entry(i).or_insert(msg);
            return;
        }
        self.nviol.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        // Keep the simplest counterexamples.
        v.push((case.iter().map(|s| s.to_string()).collect(), msg));
        if v.len() > 4 * MAX_REPORTED {
            Self::shrink(&mut v);
        }
    }

    fn shrink(v: &mut Vec<(Vec<String>, String)>) {
        v.sort_by_key(|(c, _)| (c.iter().map(String::len).sum::<usize>(), c.clone()));
        v.dedup_by(|a, b| a.0 == b.0);
        v.truncate(MAX_REPORTED);
    }

    /// True once a counterexample has been found.
    pub fn failed(&self) -> bool {
        self.nviol.load(Relaxed) > 0 || !self.known_hit.lock().unwrap().is_empty()
    }

    /// True once enough counterexamples have been found to stop early.
    pub fn stop(&self) -> bool {
        self.nviol.load(Relaxed) > 2000
    }

    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    /// Marks a case, identified by a hash, as non-trivial (counted once per hash).
    pub fn nontrivial(&self, h: u64) {
        mark(&self.nontrivial, h);
    }
    pub fn outcome(&self, h: u64) {
        mark(&self.outcomes, h);
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.into()).or_default() += n;
    }
    pub fn sample(&self, v: impl Into<serde_json::Value>) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 24 {
            s.push(v.into());
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    /// Runs a named phase and records how many cases it executed.
    pub fn phase(&self, name: &str, f: impl FnOnce()) {
        let before = self.evals.load(Relaxed);
        let t = Instant::now();
        f();
        let n = self.evals.load(Relaxed) - before;
        self.count(&format!("cases: {name}"), n);
        eprintln!("[{}] {name}: {n} cases, {:.1}s", self.id, t.elapsed().as_secs_f64());
    }

    fn finish(&self) -> i32 {
        let mut v = self.violations.lock().unwrap();
        Self::shrink(&mut v);
        let evals = self.evals.load(SeqCst);
        let states = self.states.load(SeqCst);
        let outcomes: u64 = marked(&self.outcomes);
        let mut cov = serde_json::Map::new();
        let samples = self.samples.lock().unwrap().clone();
        cov.insert("samples".into(), samples.into());
        if self.level == "model_checking" {
            cov.insert("states".into(), states.into());
            cov.insert("transitions".into(), self.transitions.load(SeqCst).into());
            cov.insert("traces_validated_against_impl".into(), evals.into());
        } else {
            cov.insert("evaluations".into(), evals.into());
            cov.insert("distinct_nontrivial".into(), marked(&self.nontrivial).into());
            if states > 0 {
                cov.insert("states".into(), states.into());
                cov.insert("transitions".into(), self.transitions.load(SeqCst).into());
            }
        }
        cov.insert("rule".into(), self.rule.lock().unwrap().clone().into());
        cov.insert("distinct_outcomes_at_least".into(), outcomes.into());
        cov.insert("exhaustive".into(), (!self.stop()).into());
        for (k, n) in self.counters.lock().unwrap().iter() {
            cov.insert(k.clone(), (*n).into());
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.nviol.load(SeqCst),
        });
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{dir}/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap() + "\n")
            .expect("write evidence");
        println!(
            "{}: {evals} cases, {states} states, {outcomes}+ distinct outcomes, {} violations, {:.1}s",
            self.id,
            self.nviol.load(SeqCst),
            self.start.elapsed().as_secs_f64()
        );
        for (i, (case, _)) in self.known.iter().enumerate() {
            let _ = case;
            if self.known_hit.lock().unwrap().contains_key(&i) {
                println!("KNOWN-FINDING: property={} {}", self.id, self.known[i].1);
            }
        }
        for (n, (case, msg)) in v.iter().enumerate() {
            let path = write_replay(&self.root, self.id, n, case, msg);
            println!("  {}: {}", encode_case(case), msg.replace('\n', " "));
            println!("VIOLATION property={} replay={path}", self.id);
        }
        i32::from(!v.is_empty())
    }
}

/// Runs `f(i)` for all `i < n` on all cores.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    par_stack(16 << 20, n, f)
}

/// The same with threads of the given stack size.
pub fn par_stack(stack: usize, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(32);
    let f = &f;
    let next = &next;
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}
