//! Running a check: counting, progress slots, panic/abort/hang capture, violations, known
//! findings, evidence.
use crate::alloc;
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*},
        Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

/// To standard error, which may be dead.
#[macro_export]
macro_rules! say {
    ($($t:tt)*) => {{
        use std::io::Write as _;
        let _ = writeln!(std::io::stderr(), $($t)*);
    }};
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One explored case, rendered as `key=value` lines only when needed.
pub trait Case {
    fn render(&self) -> Vec<(String, String)>;
}

impl<F: Fn() -> Vec<(String, String)>> Case for F {
    fn render(&self) -> Vec<(String, String)> {
        self()
    }
}

pub fn kv(k: &str, v: impl ToString) -> (String, String) {
    (k.to_string(), v.to_string())
}

pub struct Run {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub level: &'static str,
    start: Instant,
    /// named counters
    counters: Mutex<BTreeMap<&'static str, u64>>,
    notes: Mutex<BTreeMap<&'static str, String>>,
    samples: Mutex<Vec<String>>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub evaluations: AtomicU64,
    pub nontrivial: AtomicU64,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
    hit: Mutex<BTreeMap<String, u64>>,
    failing: AtomicBool,
}

static RUN: OnceLock<Run> = OnceLock::new();

pub fn run() -> &'static Run {
    RUN.get().expect("run not initialised")
}

const SLOTS: usize = 128;
struct Slot {
    count: AtomicU64,
    active: AtomicBool,
    p0: AtomicUsize,
    p1: AtomicUsize,
}
static SLOT: [Slot; SLOTS] = [const {
    Slot { count: AtomicU64::new(0), active: AtomicBool::new(false), p0: AtomicUsize::new(0), p1: AtomicUsize::new(0) }
}; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static CRASHED: AtomicUsize = AtomicUsize::new(usize::MAX);
static CRASH_SIG: AtomicUsize = AtomicUsize::new(0);
pub static HANG_SECS: AtomicU64 = AtomicU64::new(60);

thread_local! {
    static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

fn my_slot() -> usize {
    MY_SLOT.with(|s| {
        if s.get() == usize::MAX {
            let i = NEXT_SLOT.fetch_add(1, SeqCst);
            s.set(if i < SLOTS { i } else { SLOTS - 1 });
        }
        s.get()
    })
}

/// Reserve a progress slot range again (threads of a finished scope gave theirs up).
pub fn recycle_slots(to: usize) {
    NEXT_SLOT.store(to, SeqCst);
}

/// Run `f` as the case `case`; panics inside [`guard`], aborts, signals and hangs are attributed
/// to this case.
pub fn in_case<R>(case: &dyn Case, f: impl FnOnce() -> R) -> R {
    let i = my_slot();
    let raw: (usize, usize) = unsafe { std::mem::transmute::<&dyn Case, (usize, usize)>(case) };
    let s = &SLOT[i];
    let (old0, old1, old_active) = (s.p0.load(Relaxed), s.p1.load(Relaxed), s.active.load(Relaxed));
    s.p0.store(raw.0, Relaxed);
    s.p1.store(raw.1, Relaxed);
    s.count.fetch_add(1, Relaxed);
    s.active.store(true, Release);
    let limit = alloc::enter_case();
    let r = f();
    alloc::leave_case(limit);
    s.p0.store(old0, Relaxed);
    s.p1.store(old1, Relaxed);
    s.active.store(old_active, Release);
    r
}

fn slot_case(i: usize) -> Option<&'static dyn Case> {
    let s = &SLOT[i];
    if !s.active.load(Acquire) || s.p0.load(Relaxed) == 0 {
        return None;
    }
    let raw = (s.p0.load(Relaxed), s.p1.load(Relaxed));
    Some(unsafe { std::mem::transmute::<(usize, usize), &'static dyn Case>(raw) })
}

/// Run code under test; a panic in it becomes `Err(message)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(old));
    r.map_err(|_| format!("panicked: {}", PANIC_MSG.with(|m| m.borrow().clone())))
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn pause() -> i32;
    fn _exit(code: i32) -> !;
    fn setrlimit(what: i32, to: *const [u64; 2]) -> i32;
}
const RLIMIT_DATA: i32 = 2;
const SIGILL: i32 = 4;
const SIGABRT: i32 = 6;
const SIGBUS: i32 = 7;
const SIGFPE: i32 = 8;
const SIGSEGV: i32 = 11;

extern "C" fn on_signal(sig: i32) {
    let i = MY_SLOT.with(|s| s.get());
    CRASH_SIG.store(sig as usize, SeqCst);
    CRASHED.store(i, SeqCst);
    loop {
        unsafe { pause() };
    }
}

fn alloc_hook(msg: &str) {
    let i = MY_SLOT.with(|s| s.get());
    if i != usize::MAX && i < SLOTS {
        if let Some(c) = slot_case(i) {
            run().fail(c, msg);
            return;
        }
    }
    crate::say!("allocator misuse outside any case: {}", msg);
    unsafe { _exit(3) };
}

pub fn init(property: &str, tier: Tier, level: &'static str) -> &'static Run {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut known = Vec::new();
    if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for line in text.lines() {
            // finding: property=<id> key=<key> :: <what fails>
            if let Some(rest) = line.strip_prefix("finding: property=") {
                if let Some((id, rest)) = rest.split_once(' ') {
                    if id == property {
                        if let Some((k, what)) = rest.trim_start_matches("key=").split_once(" :: ") {
                            known.push((k.trim().to_string(), what.trim().to_string()));
                        }
                    }
                }
            }
        }
    }
    let r = Run {
        property: property.into(),
        tier,
        seed,
        root,
        level,
        start: Instant::now(),
        counters: Default::default(),
        notes: Default::default(),
        samples: Default::default(),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        evaluations: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        rule: Default::default(),
        assumptions: Default::default(),
        known,
        hit: Default::default(),
        failing: AtomicBool::new(false),
    };
    RUN.set(r).ok().expect("init twice");
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let mut m = format!("{}{}", msg, loc);
        if m.len() > 400 {
            let mut e = 400;
            while !m.is_char_boundary(e) {
                e -= 1;
            }
            m.truncate(e);
        }
        if GUARDED.with(|g| g.get()) {
            PANIC_MSG.with(|p| *p.borrow_mut() = m);
        } else {
            crate::say!("harness panic: {}", m);
        }
    }));
    alloc::set_hook(alloc_hook);
    // rather fail to allocate, which has a case, than be ended from outside
    unsafe { setrlimit(RLIMIT_DATA, &[26 << 30, 26 << 30]) };
    for sig in [SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV] {
        let act = SigAction { handler: on_signal as usize, mask: [0; 16], flags: 0x0800_0000 /* SA_ONSTACK */, restorer: 0 };
        unsafe { sigaction(sig, &act, std::ptr::null_mut()) };
    }
    std::thread::Builder::new()
        .name("watchdog".into())
        .stack_size(16 << 20)
        .spawn(|| {
            let mut last = [(0u64, 0u32); SLOTS];
            let mut tick = 0u64;
            loop {
                std::thread::sleep(Duration::from_millis(20));
                tick += 1;
                let c = CRASHED.load(SeqCst);
                if CRASH_SIG.load(SeqCst) != 0 {
                    let sig = CRASH_SIG.load(SeqCst);
                    if c < SLOTS {
                        if let Some(case) = slot_case(c) {
                            run().fail(case, &format!("the process was killed by signal {} (abort, stack overflow or invalid memory access)", sig));
                        }
                    }
                    crate::say!("harness crashed with signal {} outside any case", sig);
                    std::process::exit(3);
                }
                if tick % 50 == 0 {
                    for i in 0..SLOTS {
                        let s = &SLOT[i];
                        let n = s.count.load(Relaxed);
                        if s.active.load(Relaxed) && n == last[i].0 {
                            last[i].1 += 1;
                            LONGEST.fetch_max(last[i].1 as u64, Relaxed);
                            if last[i].1 as u64 >= HANG_SECS.load(Relaxed) {
                                if let Some(case) = slot_case(i) {
                                    run().fail(case, &format!("no termination within {} s", HANG_SECS.load(Relaxed)));
                                }
                            }
                        } else {
                            last[i] = (n, 0);
                        }
                    }
                }
            }
        })
        .unwrap();
    run()
}

static LONGEST: AtomicU64 = AtomicU64::new(0);

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Run {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// quick / thorough choice
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }
    pub fn count(&self, k: &'static str, n: u64) {
        *self.counters.lock().unwrap().entry(k).or_insert(0) += n;
    }
    pub fn note(&self, k: &'static str, v: impl ToString) {
        self.notes.lock().unwrap().insert(k, v.to_string());
    }
    pub fn rule(&self, r: &str) {
        *self.rule.lock().unwrap() = r.into();
    }
    pub fn assume(&self, a: &str) {
        self.assumptions.lock().unwrap().push(a.into());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 20 {
            let mut s = s();
            if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
            }
            v.push(s);
        }
    }
    /// Count one explored state and keep it as a sample now and then (at powers of two).
    pub fn state(&self, s: impl FnOnce() -> String) {
        let n = self.states.fetch_add(1, Relaxed) + 1;
        if n.is_power_of_two() && n >= 16 {
            self.sample(s);
        }
    }
    /// Count one evaluated case, likewise; `nontrivial` as the rule says.
    pub fn eval(&self, nontrivial: bool, s: impl FnOnce() -> String) {
        let n = self.evaluations.fetch_add(1, Relaxed) + 1;
        if nontrivial {
            self.nontrivial.fetch_add(1, Relaxed);
        }
        if n.is_power_of_two() && n >= 16 {
            self.sample(s);
        }
    }
    /// Many nontrivial evaluations at once.
    pub fn eval_n(&self, n: u64) {
        self.evaluations.fetch_add(n, Relaxed);
        self.nontrivial.fetch_add(n, Relaxed);
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Report a violation (unless it is a listed known finding) and end the process.
    pub fn fail(&self, case: &dyn Case, msg: &str) {
        self.fail_keyed(case, msg, "")
    }

    pub fn fail_keyed(&self, case: &dyn Case, msg: &str, key: &str) {
        if !key.is_empty() {
            if let Some((k, what)) = self.known.iter().find(|(k, _)| k == key) {
                let mut h = self.hit.lock().unwrap();
                let n = h.entry(k.clone()).or_insert(0);
                *n += 1;
                if *n == 1 {
                    println!("KNOWN-FINDING: property={} {}", self.property, what);
                }
                return;
            }
        }
        if self.failing.swap(true, SeqCst) {
            // another thread is already reporting; do not return into a broken exploration
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        let kvs = case.render();
        let mut text = String::new();
        let _ = writeln!(text, "property={}", self.property);
        for (k, v) in &kvs {
            let _ = writeln!(text, "{}={}", k, v.replace('\\', "\\\\").replace('\n', "\\n"));
        }
        let _ = writeln!(text, "message={}", msg.replace('\\', "\\\\").replace('\n', "\\n"));
        let mut h: u64 = 0xcbf29ce484222325;
        for b in text.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.case", self.property, h));
        let _ = std::fs::write(&path, &text);
        if kvs.iter().any(|(k, v)| k == "replaying" && v == "1") {
            println!("REPLAY FAILS: {}", msg);
        }
        println!("{}", text);
        println!("VIOLATION property={} replay={}", self.property, path.display());
        self.write_evidence(1);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }

    pub fn write_evidence(&self, violations: u64) {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
            jstr(&self.property),
            jstr(if self.quick() { "quick" } else { "thorough" }),
            self.seed,
            jstr(self.level),
        );
        let mut items: Vec<String> = Vec::new();
        if self.level == "model_checking" {
            items.push(format!("  \"states\": {}", self.states.load(SeqCst)));
            items.push(format!("  \"transitions\": {}", self.transitions.load(SeqCst)));
            items.push(format!("  \"traces_validated_against_impl\": {}", self.traces.load(SeqCst)));
        }
        if self.level == "exploration" || self.level == "fault_enumeration" {
            items.push(format!("  \"evaluations\": {}", self.evaluations.load(SeqCst)));
            items.push(format!("  \"distinct_nontrivial\": {}", self.nontrivial.load(SeqCst)));
        }
        items.push(format!("  \"rule\": {}", jstr(&self.rule.lock().unwrap())));
        items.push("  \"exhaustive\": true".to_string());
        for (k, v) in self.counters.lock().unwrap().iter() {
            items.push(format!("  {}: {}", jstr(k), v));
        }
        for (k, v) in self.notes.lock().unwrap().iter() {
            items.push(format!("  {}: {}", jstr(k), jstr(v)));
        }
        let s: Vec<String> = self.samples.lock().unwrap().iter().map(|s| format!("   {}", jstr(s))).collect();
        items.push(format!("  \"samples\": [\n{}\n  ]", s.join(",\n")));
        o.push_str(&items.join(",\n"));
        o.push_str("\n },\n \"assumptions\": [");
        let a: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| jstr(s)).collect();
        o.push_str(&a.join(", "));
        let known: u64 = self.hit.lock().unwrap().len() as u64;
        let _ = write!(o, "],\n \"wall_s\": {:.2},\n \"violations\": {},\n \"known_findings_seen\": {}\n}}\n", self.elapsed(), violations, known);
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.property)), o);
    }

    pub fn finish(&self) -> ! {
        self.count("longest case, whole seconds (the watchdog's limit is 60)", LONGEST.load(SeqCst));
        self.write_evidence(0);
        println!(
            "OK property={} tier={:?} states={} transitions={} traces={} evaluations={} nontrivial={} wall={:.1}s",
            self.property, self.tier,
            self.states.load(SeqCst), self.transitions.load(SeqCst), self.traces.load(SeqCst),
            self.evaluations.load(SeqCst), self.nontrivial.load(SeqCst), self.elapsed(),
        );
        for (k, v) in self.counters.lock().unwrap().iter() {
            println!("  {} = {}", k, v);
        }
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(0)
    }
}

pub const THREADS: usize = 8;

/// Run `f(i)` for every i in 0..n on all cores. Each worker has a large stack.
pub fn par_for(n: usize, f: impl Fn(usize) + Sync) {
    par_for_stack(n, 64 << 20, f)
}

pub fn par_for_stack(n: usize, stack: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let base = NEXT_SLOT.load(SeqCst);
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for _ in 0..THREADS.min(n.max(1)) {
            let h = std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i);
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            if h.join().is_err() {
                crate::say!("a worker of the harness panicked");
                std::process::exit(3);
            }
        }
    });
    NEXT_SLOT.store(base, SeqCst);
}
