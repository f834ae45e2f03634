//! Runs the cases of a check on all cores, writes evidence and replay files, prints verdicts.

use crate::rng::{Rng, mix};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

/// A broken property
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// Stable signature, compared with the known findings
    pub key: String,
}

pub type Res<T = ()> = Result<T, Fail>;

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), key: String::new() }
    }
    pub fn keyed(key: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), key: key.into() }
    }
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Fail::new(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($t:tt)*) => { if !$cond { return Err($crate::Fail::new(format!($($t)*))); } };
}

/// One execution: random source, trace for the replay file, and counters for the evidence
pub struct Case {
    pub seed: u64,
    pub idx: u64,
    pub rng: Rng,
    pub thorough: bool,
    pub trace: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub evals: u64,
    pub verbose: bool,
}

impl Case {
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        let s = s();
        if self.verbose {
            println!("  {s}");
        }
        if self.trace.len() < 4000 {
            self.trace.push(s);
        }
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn saw(&mut self, h: u64) {
        if self.distinct.len() < 200_000 {
            self.distinct.insert(h);
        }
    }
}

pub struct Ctx {
    pub id: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    pub verif: String,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    total: Mutex<Total>,
    replay: Option<(String, u64, u64)>,
    pub scale: f64,
    threads: usize,
}

#[derive(Default)]
struct Total {
    evals: u64,
    cases: u64,
    planned: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    fails: Vec<(String, u64, u64, Fail, Vec<String>)>,
    harness_errors: Vec<String>,
    known: BTreeMap<String, u64>,
    cut_short: bool,
}

/// Watchdog: every worker publishes when it started the current call into the code under test
pub static IN_CALL: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
pub static CASE_OF: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static IDX_OF: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(63) };
}

fn cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain libc call with a valid out pointer
    if unsafe { libc::clock_gettime(clock, &mut ts) } != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn call_begin() {
    let slot = SLOT.with(|s| s.get());
    IN_CALL[slot].store(cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID).max(1), Ordering::Relaxed);
}
pub fn call_end() {
    let slot = SLOT.with(|s| s.get());
    IN_CALL[slot].store(0, Ordering::Relaxed);
}

/// CPU seconds after which a single call counts as hanging
const HANG_CPU_S: u64 = 40;

pub fn quiet_panics() {
    if std::env::var("VERBOSE_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = panic_text(info.payload());
        if std::env::var("VERBOSE_PANICS").is_ok() {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

impl Ctx {
    /// `replay`: (batch name, case seed, case index)
    pub fn new(id: &'static str, replay: Option<(String, u64, u64)>) -> Self {
        install_panic_hook();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        crash::install(id, &verif, thorough);
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(32);
        Ctx {
            id,
            seed,
            thorough,
            start: Instant::now(),
            verif,
            level: "exploration",
            rule: String::new(),
            assumptions: Vec::new(),
            total: Mutex::new(Total::default()),
            replay,
            scale,
            threads,
        }
    }

    /// Known findings of this property: signature -> text
    fn known_findings(&self) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        let Ok(text) = std::fs::read_to_string(format!("{}/known-findings.txt", self.verif)) else {
            return m;
        };
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("finding: ")
                && let Some(rest) = rest.strip_prefix(&format!("property={} ", self.id))
                && let Some((sig, what)) = rest.split_once(' ')
                && let Some(sig) = sig.strip_prefix("signature=")
            {
                m.insert(sig.to_string(), what.to_string());
            }
        }
        m
    }

    /// Run `quick` (or `thorough`) cases of `f`, named `batch`
    pub fn batch(
        &self,
        batch: &'static str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Case) -> Res + Sync,
    ) {
        // A batch of one is not repeated
        let times = if quick == 1 { 1 } else { 6 };
        let n = times * if self.thorough { thorough } else { quick };
        let n = ((n as f64) * self.scale).ceil() as u64;
        if let Some((b, seed, idx)) = &self.replay {
            if b == batch {
                let mut case = self.case(*seed, *idx);
                case.verbose = true;
                CASE_OF[63].store(*seed, Ordering::Relaxed);
                IDX_OF[63].store(*idx, Ordering::Relaxed);
                println!("replaying {} {batch} {seed:#x}", self.id);
                self.one(batch, &mut case, &f);
                self.merge(case, 1);
            }
            return;
        }
        let known = self.known_findings();
        crash::BATCH.store(Box::into_raw(Box::new(batch)), Ordering::SeqCst);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let limit_s = if self.thorough { 800.0 } else { 420.0 };
        let batch_hash = crate::hash_bytes(7, batch.as_bytes());
        self.total.lock().unwrap().planned += n;
        let pthreads = Mutex::new(Vec::<(usize, libc::pthread_t)>::new());
        std::thread::scope(|s| {
            let mut handles = Vec::new();
            for slot in 0..self.threads {
                let (next, stop, f, pthreads, known) = (&next, &stop, &f, &pthreads, &known);
                handles.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            SLOT.with(|x| x.set(slot));
                            // SAFETY: always valid for the calling thread
                            pthreads.lock().unwrap().push((slot, unsafe { libc::pthread_self() }));
                            let mut local = self.case(0, 0);
                            local.trace.clear();
                            loop {
                                let idx = next.fetch_add(1, Ordering::Relaxed);
                                if idx >= n || stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if self.start.elapsed().as_secs_f64() > limit_s {
                                    self.total.lock().unwrap().cut_short = true;
                                    break;
                                }
                                let seed = mix(mix(self.seed) ^ batch_hash.wrapping_add(mix(idx)));
                                CASE_OF[slot].store(seed, Ordering::Relaxed);
                                IDX_OF[slot].store(idx, Ordering::Relaxed);
                                let mut case = self.case(seed, idx);
                                std::mem::swap(&mut case.distinct, &mut local.distinct);
                                let ok = self.one_known(batch, &mut case, f, known);
                                std::mem::swap(&mut case.distinct, &mut local.distinct);
                                local.evals += case.evals.max(1);
                                for (k, v) in &case.counts {
                                    *local.counts.entry(k).or_insert(0) += v;
                                }
                                local.idx += 1;
                                if idx < 2 && case.trace.len() > 2 {
                                    let mut t = self.total.lock().unwrap();
                                    if t.samples.len() < 6 {
                                        let text: Vec<_> = case.trace.iter().take(30).cloned().collect();
                                        t.samples.push(format!("{batch} case {seed:#x}: {}", text.join("; ")));
                                    }
                                }
                                if !ok {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            let n = local.idx;
                            self.merge(local, n);
                        })
                        .unwrap(),
                );
            }
            let (done, pthreads) = (&done, &pthreads);
            s.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    for (slot, th) in pthreads.lock().unwrap().iter() {
                        let began = IN_CALL[*slot].load(Ordering::Relaxed);
                        if began == 0 {
                            continue;
                        }
                        let mut clock = 0;
                        // SAFETY: the thread is alive while it is inside a call
                        if unsafe { libc::pthread_getcpuclockid(*th, &mut clock) } != 0 {
                            continue;
                        }
                        let now = cpu_ns(clock);
                        if now > began + HANG_CPU_S * 1_000_000_000 && IN_CALL[*slot].load(Ordering::Relaxed) == began {
                            let seed = CASE_OF[*slot].load(Ordering::Relaxed);
                            let idx = IDX_OF[*slot].load(Ordering::Relaxed);
                            let fail = Fail::new(format!(
                                "a single call used more than {HANG_CPU_S} s of CPU time without returning"
                            ));
                            self.total.lock().unwrap().fails.push((batch.into(), seed, idx, fail, vec![]));
                            let rc = self.finish_inner();
                            std::process::exit(rc);
                        }
                    }
                }
            });
            for h in handles {
                if h.join().is_err() {
                    self.total.lock().unwrap().harness_errors.push("worker died".into());
                }
            }
            done.store(true, Ordering::Relaxed);
        });
    }

    /// A case that runs once, on the calling thread
    pub fn single(&self, batch: &'static str, f: impl Fn(&mut Case) -> Res + Sync) {
        self.batch(batch, 1, 1, f);
    }

    fn case(&self, seed: u64, idx: u64) -> Case {
        Case {
            seed,
            idx,
            rng: Rng::new(seed),
            thorough: self.thorough,
            trace: Vec::new(),
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            evals: 0,
            verbose: false,
        }
    }

    fn one(&self, batch: &'static str, case: &mut Case, f: &(impl Fn(&mut Case) -> Res + Sync)) -> bool {
        self.one_known(batch, case, f, &BTreeMap::new())
    }

    fn one_known(
        &self,
        batch: &'static str,
        case: &mut Case,
        f: &(impl Fn(&mut Case) -> Res + Sync),
        known: &BTreeMap<String, String>,
    ) -> bool {
        crate::flash::COLLISIONS.with(|c| c.set(0));
        let r = catch_unwind(AssertUnwindSafe(|| f(case)));
        call_end();
        match r {
            Ok(Ok(())) => true,
            Ok(Err(fail)) => {
                let mut t = self.total.lock().unwrap();
                // A false header with a valid 16 bit CRC was met: the format cannot tell it from a real
                // one. This happens about once in 65536 torn headers, so only a few are excused.
                if crate::flash::COLLISIONS.with(|c| c.get()) > 0 {
                    let n = t.counts.entry("excused_crc_collisions".into()).or_insert(0);
                    *n += 1;
                    if *n <= if self.thorough { 20 } else { 3 } {
                        return true;
                    }
                }
                if !fail.key.is_empty() && known.contains_key(&fail.key) {
                    *t.known.entry(fail.key.clone()).or_insert(0) += 1;
                    return true;
                }
                if self.replay.is_some() {
                    println!("FAILED: {}", fail.msg);
                }
                t.fails.push((batch.into(), case.seed, case.idx, fail, std::mem::take(&mut case.trace)));
                false
            }
            Err(_) => {
                // The check itself tripped over what the code under test returned
                let fail = Fail::new(format!("the observed behaviour makes no sense to the monitor: {}", last_panic()));
                if self.replay.is_some() {
                    println!("FAILED: {}", fail.msg);
                }
                let mut t = self.total.lock().unwrap();
                t.fails.push((batch.into(), case.seed, case.idx, fail, std::mem::take(&mut case.trace)));
                false
            }
        }
    }

    fn merge(&self, case: Case, cases: u64) {
        let mut t = self.total.lock().unwrap();
        t.evals += case.evals;
        t.cases += cases;
        if t.distinct.len() < 4_000_000 {
            t.distinct.extend(case.distinct);
        }
        for (k, v) in case.counts {
            *t.counts.entry(k.to_string()).or_insert(0) += v;
        }
    }

    pub fn add_count(&self, what: &str, n: u64) {
        *self.total.lock().unwrap().counts.entry(what.into()).or_insert(0) += n;
    }
    pub fn get_count(&self, what: &str) -> u64 {
        self.total.lock().unwrap().counts.get(what).copied().unwrap_or(0)
    }
    pub fn failed(&self) -> bool {
        !self.total.lock().unwrap().fails.is_empty()
    }
    /// The run is worthless if this was never observed
    pub fn require(&self, what: &str, at_least: u64) {
        if self.replay.is_some() || self.failed() || self.scale < 1.0 || self.total.lock().unwrap().cut_short {
            return;
        }
        let got = self.get_count(what);
        if got < at_least {
            self.total
                .lock()
                .unwrap()
                .harness_errors
                .push(format!("observed only {got} of {what}, expected at least {at_least}"));
        }
    }

    /// Write the evidence, print the verdict; returns the exit code
    pub fn finish(&self) -> i32 {
        self.finish_inner()
    }

    fn finish_inner(&self) -> i32 {
        let known = self.known_findings();
        let mut t = self.total.lock().unwrap();
        t.fails.sort_by_key(|f| f.2);
        if self.replay.is_some() {
            return i32::from(!t.fails.is_empty());
        }
        let wall = self.start.elapsed().as_secs_f64();
        let mut j = String::from("{");
        let _ = write!(
            j,
            "\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},",
            js(self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            js(self.level)
        );
        let _ = write!(
            j,
            "\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"cases\":{},\"cases_planned\":{},\"cut_short\":{},\"observed\":{{",
            t.evals,
            t.distinct.len(),
            js(&self.rule),
            t.cases,
            t.planned,
            t.cut_short
        );
        let counts: Vec<_> = t.counts.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
        j.push_str(&counts.join(","));
        j.push_str("},\"samples\":[");
        let samples: Vec<_> = t.samples.iter().map(|s| js(s)).collect();
        j.push_str(&samples.join(","));
        j.push_str("]},\"assumptions\":[");
        let a: Vec<_> = self.assumptions.iter().map(|s| js(s)).collect();
        j.push_str(&a.join(","));
        let _ = write!(j, "],\"wall_s\":{wall:.2},\"violations\":{}}}\n", t.fails.len());
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", self.verif, self.id), j) {
            println!("cannot write evidence: {e}");
            return 2;
        }
        for (sig, what) in &known {
            let n = t.known.get(sig).copied().unwrap_or(0);
            println!("KNOWN-FINDING: property={} {what} (signature {sig}, seen {n} times in this run)", self.id);
        }
        println!(
            "{}: {} cases, {} evaluations, {} distinct, {:.1} s",
            self.id,
            t.cases,
            t.evals,
            t.distinct.len(),
            wall
        );
        for (k, v) in &t.counts {
            println!("   {k}: {v}");
        }
        if let Some((batch, seed, idx, fail, trace)) = t.fails.first() {
            let dir = format!("{}/replays", self.verif);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}-{batch}-{seed:016x}.txt", self.id);
            let mut text = format!(
                "property={}\nbatch={batch}\ncase_seed={seed}\ncase_idx={idx}\ntier={}\n# {}\n# replay with: ./check replay {path}\n",
                self.id,
                if self.thorough { "thorough" } else { "quick" },
                fail.msg.replace('\n', "\n# ")
            );
            for line in trace {
                text.push_str(line);
                text.push('\n');
            }
            let _ = std::fs::write(&path, text);
            println!("{}", fail.msg);
            if !fail.key.is_empty() {
                println!("signature {}", fail.key);
            }
            println!("VIOLATION property={} replay={path}", self.id);
            return 1;
        }
        if !t.harness_errors.is_empty() {
            for e in t.harness_errors.iter().take(5) {
                println!("harness error: {e}");
            }
            return 2;
        }
        if t.cut_short {
            println!("note: stopped early because the machine is slow");
        }
        0
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A stack overflow, a double panic or endless memory use ends the whole process: say which case
/// it was before that happens.
mod crash {
    use super::{CASE_OF, IDX_OF, SLOT};
    use std::fmt::Write as _;
    use std::sync::OnceLock;
    use std::sync::atomic::{AtomicPtr, Ordering};

    pub static BATCH: AtomicPtr<&'static str> = AtomicPtr::new(std::ptr::null_mut());
    static WHERE: OnceLock<(&'static str, String, bool)> = OnceLock::new();

    struct Buf([u8; 700], usize);
    impl std::fmt::Write for Buf {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                if self.1 < self.0.len() - 1 {
                    self.0[self.1] = b;
                    self.1 += 1;
                }
            }
            Ok(())
        }
    }

    extern "C" fn on_abort(sig: libc::c_int) {
        let slot = SLOT.try_with(|s| s.get()).unwrap_or(63);
        let (seed, idx) = (CASE_OF[slot].load(Ordering::Relaxed), IDX_OF[slot].load(Ordering::Relaxed));
        let Some((id, dir, thorough)) = WHERE.get() else { return };
        let batch = BATCH.load(Ordering::SeqCst);
        // SAFETY: null or leaked
        let batch = if batch.is_null() { "none" } else { unsafe { *batch } };
        let mut path = Buf([0; 700], 0);
        let _ = write!(path, "{dir}/replays/{id}-{batch}-{seed:016x}.txt");
        let mut text = Buf([0; 700], 0);
        let tier = if *thorough { "thorough" } else { "quick" };
        let _ = write!(
            text,
            "property={id}\nbatch={batch}\ncase_seed={seed}\ncase_idx={idx}\ntier={tier}\n# the process was aborted by signal {sig}\n"
        );
        let mut out = Buf([0; 700], 0);
        let _ = write!(out, "the process was aborted by signal {sig} during case {seed:#x} of {batch} (stack overflow, endless memory use, or a panic while panicking)\nVIOLATION property={id} replay=");
        // SAFETY: only async-signal-safe calls, on buffers that live until then; the path is nul-terminated
        unsafe {
            let fd = libc::open(path.0.as_ptr().cast(), libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
            if fd >= 0 {
                libc::write(fd, text.0.as_ptr().cast(), text.1);
            }
            libc::write(1, out.0.as_ptr().cast(), out.1);
            libc::write(1, path.0.as_ptr().cast(), path.1);
            libc::write(1, b"\n".as_ptr().cast(), 1);
            libc::_exit(1);
        }
    }

    pub fn install(id: &'static str, dir: &str, thorough: bool) {
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let _ = WHERE.set((id, dir.to_string(), thorough));
        // SAFETY: plain libc calls. The handler of the standard library for stack overflows stays,
        // it ends with an abort.
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_abort as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(libc::SIGABRT, &sa, std::ptr::null_mut());
            let limit = libc::rlimit { rlim_cur: MEMORY, rlim_max: MEMORY };
            libc::setrlimit(libc::RLIMIT_AS, &limit);
        }
    }

    /// Far more than any check needs
    const MEMORY: u64 = 16 << 30;
}
