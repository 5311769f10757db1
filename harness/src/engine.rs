//! Exhaustive enumeration engine.
//!
//! A check enumerates a finite, deterministically numbered set of cases.  The engine splits the
//! case numbers over forked worker processes, so that an abort, a stack overflow, an endless loop
//! or an absurd allocation of the code under test is confined to one case, is attributed to that
//! case, and the remaining cases are still explored.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------
// Allocation accounting

pub struct Accounting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
static FLAG: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());

#[inline]
fn account(delta: i64) {
    let now = LIVE.fetch_add(delta, Ordering::Relaxed) + delta;
    if delta > 0 {
        if now > PEAK.load(Ordering::Relaxed) {
            PEAK.store(now, Ordering::Relaxed);
        }
        if now > LIMIT.load(Ordering::Relaxed) {
            let flag = FLAG.load(Ordering::Relaxed);
            if !flag.is_null() {
                unsafe { (*flag).store(delta as u64, Ordering::SeqCst) };
            }
            unsafe { libc::_exit(77) };
        }
    }
}

unsafe impl GlobalAlloc for Accounting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Sets the number of bytes that may be allocated on top of what is live right now.
pub fn set_alloc_budget(extra: Option<i64>) {
    match extra {
        Some(x) => LIMIT.store(LIVE.load(Ordering::Relaxed) + x, Ordering::Relaxed),
        None => LIMIT.store(i64::MAX, Ordering::Relaxed),
    }
}

// ------------------------------------------------------------------------------------------
// Panic capture

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("RCV_DEBUG").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Sign of life of a worker: every guarded call and every counter tick moves it.
static BEAT: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());

fn beat() {
    let p = BEAT.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe { (*p).fetch_add(1, Ordering::Relaxed) };
    }
}

/// CPU seconds used by a process so far (NaN when it cannot be told).
fn cpu_seconds(pid: i32) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return f64::NAN };
    let Some((_, rest)) = s.rsplit_once(')') else { return f64::NAN };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(f64::NAN);
    (t(11) + t(12)) / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64
}

/// Runs `f`, turning a panic into `Err(message at location)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    beat();
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

// ------------------------------------------------------------------------------------------
// Per-worker recording

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identity of what fails (matched against the known findings).
    pub key: String,
    pub detail: String,
    pub section: String,
    pub case: u64,
}

#[derive(Default)]
pub struct Rec {
    pub counts: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    distinct: HashSet<u64>,
    section: String,
    case: u64,
    max_viol: usize,
}

pub const MAX_VIOL_PER_WORKER: usize = 6;

impl Rec {
    pub fn count(&mut self, name: &str, n: u64) {
        beat();
        if let Some(c) = self.counts.get_mut(name) {
            *c += n;
        } else {
            self.counts.insert(name.to_string(), n);
        }
    }
    pub fn outcome(&mut self, name: &str) {
        if let Some(c) = self.outcomes.get_mut(name) {
            *c += 1;
        } else if self.outcomes.len() < 400 {
            self.outcomes.insert(name.to_string(), 1);
        } else {
            self.count("outcomes_not_listed", 1);
        }
    }
    /// Records a distinct non-trivial case by its content.
    pub fn distinct(&mut self, bytes: &[u8]) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(fnv(bytes));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let v = s();
            self.samples.push(truncate(&v, 400));
        }
    }
    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        let key = key.into();
        // One witness per key is enough; known findings recur often.
        if self.violations.iter().any(|v| v.key == key) {
            self.count("repeated_violations", 1);
            return;
        }
        self.violations.push(Violation {
            key,
            detail: truncate(&detail.into(), 6000),
            section: self.section.clone(),
            case: self.case,
        });
    }
    pub fn full(&self) -> bool {
        self.violations.len() >= self.max_viol
    }
    /// Runs `f` under a panic guard; a panic is recorded as a violation.
    pub fn no_panic<T>(&mut self, key: &str, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.fail(key, format!("panic: {p}; case: {}", what()));
                None
            }
        }
    }
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(4096) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 4096 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

// ------------------------------------------------------------------------------------------
// Check context

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: i64,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub bounds: Vec<String>,
    pub exhaustive: bool,
    pub rec: Rec,
    distinct: HashSet<u64>,
    sections: Vec<(String, u64)>,
    start: Instant,
    deadline: Instant,
    verif: std::path::PathBuf,
    cut: Vec<String>,
}

#[derive(Clone)]
pub struct Opts {
    /// CPU seconds a case may use without any sign of life (a finished call, a counter tick)
    /// before it is reported as a hang.  CPU time, so that a busy machine is no hang; ten times
    /// as many seconds of real time count as well, for code that waits instead of computing.
    pub case_timeout: f64,
    /// Bytes a worker may allocate beyond its base (per worker, not per case).
    pub alloc_limit: i64,
    pub shards: usize,
    pub silence_stderr: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            case_timeout: 20.0,
            alloc_limit: 3 << 30,
            shards: 8,
            silence_stderr: true,
        }
    }
}

#[repr(C)]
#[repr(align(128))]
struct Shared {
    /// Current case + 1; 0 = none.
    current: AtomicU64,
    done: AtomicU64,
    alloc_flag: AtomicU64,
    finished: AtomicU64,
    beat: AtomicU64,
}

impl Ctx {
    pub fn new(id: &'static str, tier: Tier, seed: i64, verif: std::path::PathBuf) -> Self {
        let budget = match tier {
            Tier::Quick => 600,
            Tier::Thorough => 3600 * 3,
        };
        Ctx {
            id,
            tier,
            seed,
            level: "exploration",
            rule: String::new(),
            assumptions: vec![],
            bounds: vec![],
            exhaustive: true,
            rec: Rec { max_viol: 100, ..Default::default() },
            distinct: HashSet::new(),
            sections: vec![],
            start: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(budget),
            verif,
            cut: vec![],
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }

    /// Runs `f(case, rec)` for every case number in `0..n`.
    pub fn par(&mut self, section: &str, n: u64, f: impl Fn(u64, &mut Rec)) {
        self.par_opts(section, n, Opts::default(), f)
    }

    pub fn par_opts(&mut self, section: &str, n: u64, opts: Opts, f: impl Fn(u64, &mut Rec)) {
        if let Ok(only) = std::env::var("RCV_ONLY") {
            // RCV_ONLY=section:case replays one case in this process, without a guard process.
            if let Some((s, c)) = only.rsplit_once(':') {
                if s == section {
                    let c: u64 = c.parse().unwrap();
                    let mut r = Rec { section: section.into(), case: c, max_viol: 100, ..Default::default() };
                    f(c, &mut r);
                    self.rec.violations.extend(r.violations);
                    self.sections.push((section.into(), 1));
                    *self.rec.counts.entry("cases".into()).or_insert(0) += 1;
                }
            }
            return;
        }
        let t0 = Instant::now();
        let shards = (opts.shards as u64).min(n).max(1);
        let tmp = std::env::temp_dir().join(format!("rcv-{}-{}", std::process::id(), fnv(section.as_bytes())));
        std::fs::create_dir_all(&tmp).unwrap();
        let shared: *mut Shared = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>() * shards as usize,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut Shared
        };
        assert!(shared as isize != -1);
        let sh = |i: u64| -> &'static Shared { unsafe { &*shared.add(i as usize) } };

        struct W {
            pid: i32,
            gen: u32,
            last: (u64, u64),
            last_change: Instant,
            /// CPU time at `last_change`, taken once the case has lasted for a second.
            cpu: f64,
            looked: Instant,
        }
        let spawn = |shard: u64, from: u64, gen: u32| -> i32 {
            let _ = std::io::stdout().flush();
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork failed");
            if pid != 0 {
                return pid;
            }
            // Worker process.
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                if opts.silence_stderr && std::env::var_os("RCV_DEBUG").is_none() {
                    let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(fd, 2);
                }
            }
            let s = sh(shard);
            BEAT.store(&s.beat as *const AtomicU64 as *mut AtomicU64, Ordering::Relaxed);
            FLAG.store(&s.alloc_flag as *const AtomicU64 as *mut AtomicU64, Ordering::Relaxed);
            set_alloc_budget(Some(opts.alloc_limit));
            let mut rec = Rec { section: section.into(), max_viol: MAX_VIOL_PER_WORKER, ..Default::default() };
            let path = tmp.join(format!("{shard}.{gen}.json"));
            let mut i = from;
            let mut stopped = false;
            let mut nviol = 0;
            let mut last_dump = Instant::now();
            while i < n {
                s.current.store(i + 1, Ordering::SeqCst);
                rec.case = i;
                if let Err(p) = guard(|| f(i, &mut rec)) {
                    rec.fail("panic", format!("panic: {p}"));
                }
                s.done.fetch_add(1, Ordering::SeqCst);
                rec.count("cases", 1);
                i += shards;
                if rec.violations.len() != nviol || last_dump.elapsed().as_millis() > 500 {
                    // Violations, and from time to time all counters, are made durable: a later
                    // case may kill this worker.
                    nviol = rec.violations.len();
                    dump_rec(&path, &rec, false);
                    last_dump = Instant::now();
                }
                if rec.full() {
                    stopped = i < n;
                    break;
                }
            }
            if stopped {
                rec.count("stopped_early", 1);
            }
            s.current.store(0, Ordering::SeqCst);
            dump_rec(&path, &rec, true);
            s.finished.store(1, Ordering::SeqCst);
            unsafe { libc::_exit(0) };
        };

        let mut ws: Vec<Option<W>> = vec![];
        for i in 0..shards {
            ws.push(Some(W { pid: spawn(i, i, 0), gen: 0, last: (0, 0), last_change: Instant::now(), cpu: f64::NAN, looked: Instant::now() }));
        }
        let mut files: Vec<std::path::PathBuf> = vec![];
        let mut crash_count = 0;
        let mut timed_out = false;
        while ws.iter().any(|w| w.is_some()) {
            std::thread::sleep(Duration::from_millis(2));
            if Instant::now() > self.deadline {
                timed_out = true;
            }
            for i in 0..shards {
                let Some(w) = ws[i as usize].as_mut() else { continue };
                let s = sh(i);
                let mut status = 0;
                let r = unsafe { libc::waitpid(w.pid, &mut status, libc::WNOHANG) };
                let cur = s.current.load(Ordering::SeqCst);
                let mut dead: Option<(String, String)> = None;
                if r == w.pid {
                    if s.finished.load(Ordering::SeqCst) == 1 {
                        files.push(tmp.join(format!("{}.{}.json", i, w.gen)));
                        ws[i as usize] = None;
                        continue;
                    }
                    if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 77 {
                        dead = Some(("alloc".into(), format!("allocation limit exceeded (last request {} bytes)", s.alloc_flag.load(Ordering::SeqCst))));
                    } else if libc::WIFSIGNALED(status) {
                        let sig = libc::WTERMSIG(status);
                        let k = match sig {
                            libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT => "crash",
                            _ => "killed",
                        };
                        dead = Some((k.into(), format!("worker died with signal {sig} (stack overflow or abort)")));
                    } else {
                        dead = Some(("exit".into(), format!("worker exited with status {status:#x}")));
                    }
                } else if timed_out {
                    unsafe { libc::kill(w.pid, libc::SIGKILL) };
                    unsafe { libc::waitpid(w.pid, &mut status, 0) };
                    files.push(tmp.join(format!("{}.{}.json", i, w.gen)));
                    ws[i as usize] = None;
                    continue;
                } else if (cur, s.beat.load(Ordering::Relaxed)) != w.last {
                    w.last = (cur, s.beat.load(Ordering::Relaxed));
                    w.last_change = Instant::now();
                    w.cpu = f64::NAN;
                } else if w.looked.elapsed().as_secs_f64() > 0.5 {
                    w.looked = Instant::now();
                    let waited = w.last_change.elapsed().as_secs_f64();
                    let cpu = cpu_seconds(w.pid);
                    if w.cpu.is_nan() {
                        w.cpu = cpu;
                    }
                    if cpu - w.cpu > opts.case_timeout || waited > 10.0 * opts.case_timeout {
                        unsafe { libc::kill(w.pid, libc::SIGKILL) };
                        unsafe { libc::waitpid(w.pid, &mut status, 0) };
                        dead = Some(("hang".into(), format!("no sign of life within {} s of CPU time", opts.case_timeout)));
                    }
                }
                if let Some((k, d)) = dead {
                    let case = cur.saturating_sub(1);
                    files.push(tmp.join(format!("{}.{}.json", i, w.gen)));
                    crash_count += 1;
                    if k == "killed" || k == "exit" {
                        eprintln!("rcv: worker failure in section {section} case {case}: {d}");
                        std::process::exit(3);
                    }
                    let key = format!("{section}:{k}");
                    if !self.rec.violations.iter().any(|v| v.key == key) {
                        self.rec.violations.push(Violation { key, detail: format!("{d}; case {case} of section {section}"), section: section.into(), case });
                    }
                    let gen = w.gen + 1;
                    let next = case + shards;
                    if next < n && crash_count < 12 {
                        s.current.store(0, Ordering::SeqCst);
                        s.alloc_flag.store(0, Ordering::SeqCst);
                        ws[i as usize] = Some(W { pid: spawn(i, next, gen), gen, last: (0, 0), last_change: Instant::now(), cpu: f64::NAN, looked: Instant::now() });
                    } else {
                        if next < n {
                            self.cut.push(format!("section {section}: stopped after {crash_count} crashes"));
                        }
                        ws[i as usize] = None;
                    }
                }
            }
        }
        for p in files {
            if let Ok(text) = std::fs::read_to_string(&p) {
                self.merge(&text);
            }
            let d = p.with_extension("dist");
            if let Ok(b) = std::fs::read(&d) {
                for c in b.chunks_exact(8) {
                    self.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
        if timed_out {
            self.cut.push(format!("section {section}: wall-clock budget reached"));
        }
        let _ = std::fs::remove_dir_all(&tmp);
        unsafe { libc::munmap(shared as *mut _, std::mem::size_of::<Shared>() * shards as usize) };
        self.sections.push((section.into(), n));
        if std::env::var_os("RCV_TIMES").is_some() {
            eprintln!("{} {section}: n={n} {:.2}s", self.id, t0.elapsed().as_secs_f64());
        }
    }

    /// A single case run in this process (already guarded against panics).
    pub fn one(&mut self, section: &str, f: impl Fn(&mut Rec)) {
        let o = Opts { shards: 1, ..Default::default() };
        self.par_opts(section, 1, o, |_, r| f(r));
    }

    fn merge(&mut self, text: &str) {
        let v: serde_json::Value = match serde_json::from_str(text) {
            Ok(v) => v,
            Err(_) => return,
        };
        for (k, n) in v["counts"].as_object().unwrap() {
            *self.rec.counts.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for (k, n) in v["outcomes"].as_object().unwrap() {
            *self.rec.outcomes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for s in v["samples"].as_array().unwrap() {
            if self.rec.samples.len() < 12 {
                self.rec.samples.push(s.as_str().unwrap().into());
            }
        }
        for s in v["violations"].as_array().unwrap() {
            let viol = Violation {
                key: s["key"].as_str().unwrap().into(),
                detail: s["detail"].as_str().unwrap().into(),
                section: s["section"].as_str().unwrap().into(),
                case: s["case"].as_u64().unwrap(),
            };
            match self.rec.violations.iter_mut().find(|x| x.key == viol.key) {
                // keep the witness with the smallest case number: the enumeration is ordered
                // simplest first
                Some(x) if x.section == viol.section && viol.case < x.case => *x = viol,
                Some(_) => (),
                None => self.rec.violations.push(viol),
            }
        }
    }

    /// Writes evidence, prints the verdict, and returns the exit code.
    /// The check itself panicked outside of a worker.
    pub fn aborted(&mut self, e: &str) {
        self.rec.violations.push(Violation { key: "aborted".into(), detail: format!("the check was cut short by a panic: {e}"), section: "main".into(), case: 0 });
    }

    pub fn finish(mut self) -> i32 {
        let known = load_known(&self.verif, self.id);
        let mut code = 0;
        let mut new_viol = 0;
        let mut known_hit: Vec<String> = vec![];
        let dir = self.verif.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        self.rec.violations.sort_by(|a, b| (a.section.clone(), a.case).cmp(&(b.section.clone(), b.case)));
        for v in &self.rec.violations {
            if let Some(k) = known.iter().find(|k| k.0 == v.key) {
                known_hit.push(k.0.clone());
                continue;
            }
            new_viol += 1;
            let name = format!("{}-{:016x}.json", self.id, fnv(format!("{}{}", v.section, v.key).as_bytes()));
            let path = dir.join(name);
            let j = serde_json::json!({
                "property": self.id, "key": v.key, "section": v.section, "case": v.case,
                "tier": format!("{:?}", self.tier).to_lowercase(),
                "detail": v.detail,
                "replay": format!("RCV_ONLY='{}:{}' bash /verif/check.sh {} {:?}", v.section, v.case, self.id, self.tier).to_string().replace("Quick","quick").replace("Thorough","thorough"),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            println!("VIOLATION property={} replay={} key={} :: {}", self.id, path.display(), v.key, truncate(&v.detail.replace('\n', " "), 500));
            code = 1;
        }
        for (key, what) in &known {
            if known_hit.contains(key) {
                println!("KNOWN-FINDING: property={} {}", self.id, what);
            }
        }
        let total: u64 = self.rec.counts.get("cases").copied().unwrap_or(0);
        let get = |n: &str| self.rec.counts.get(n).copied().unwrap_or(0);
        let mut cov = serde_json::Map::new();
        use serde_json::json;
        let evaluations = if get("evaluations") > 0 { get("evaluations") } else { total };
        match self.level {
            "model_checking" => {
                cov.insert("states".into(), json!(get("states")));
                cov.insert("transitions".into(), json!(get("transitions")));
                cov.insert("traces_validated_against_impl".into(), json!(get("traces")));
            }
            _ => {
                cov.insert("evaluations".into(), json!(evaluations));
                cov.insert("distinct_nontrivial".into(), json!(self.distinct.len() as u64 + get("distinct_by_construction")));
            }
        }
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.rec.samples));
        cov.insert("exhaustive".into(), json!(self.exhaustive && self.cut.is_empty() && get("stopped_early") == 0 && get("capped") == 0));
        cov.insert("bounds".into(), json!(self.bounds));
        cov.insert("cases".into(), json!(total));
        cov.insert("sections".into(), json!(self.sections.iter().map(|(s, n)| json!({"section": s, "cases": n})).collect::<Vec<_>>()));
        cov.insert("distinct_outcomes".into(), json!(self.rec.outcomes.len()));
        cov.insert("outcomes".into(), json!(self.rec.outcomes));
        cov.insert("counters".into(), json!(self.rec.counts));
        if !self.cut.is_empty() {
            cov.insert("not_completed".into(), json!(self.cut));
        }
        if !known_hit.is_empty() {
            cov.insert("known_findings_seen".into(), json!(known_hit));
        }
        let ev = json!({
            "property": self.id,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": new_viol,
        });
        let p = self.verif.join("evidence").join(format!("{}.json", self.id));
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence {}: {e}", p.display());
            return 3;
        }
        if total == 0 {
            eprintln!("no case was explored");
            return 3;
        }
        println!(
            "{} {:?}: {} cases, {} evaluations, {} distinct outcomes, {:.1} s, {}",
            self.id, self.tier, total, evaluations, self.rec.outcomes.len(), self.start.elapsed().as_secs_f64(),
            if code == 0 { "no violation" } else { "VIOLATED" }
        );
        for c in &self.cut {
            println!("note: {c}");
        }
        code
    }
}

fn dump_rec(path: &std::path::Path, rec: &Rec, last: bool) {
    let v: Vec<_> = rec
        .violations
        .iter()
        .map(|v| serde_json::json!({"key": v.key, "detail": v.detail, "section": v.section, "case": v.case}))
        .collect();
    let j = serde_json::json!({"counts": rec.counts, "outcomes": rec.outcomes, "samples": rec.samples, "violations": v});
    let tmp = path.with_extension("tmp");
    let _ = std::fs::write(&tmp, j.to_string());
    let _ = std::fs::rename(&tmp, path);
    if last {
        let mut b = Vec::with_capacity(rec.distinct.len() * 8);
        for d in &rec.distinct {
            b.extend_from_slice(&d.to_le_bytes());
        }
        let _ = std::fs::write(path.with_extension("dist"), b);
    }
}

fn load_known(verif: &std::path::Path, id: &str) -> Vec<(String, String)> {
    let p = verif.join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(&p) else { return vec![] };
    let v: serde_json::Value = serde_json::from_str(&t).expect("known_findings.json");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == id)
                .map(|e| (e["key"].as_str().unwrap().to_string(), e["what"].as_str().unwrap().to_string()))
                .collect()
        })
        .unwrap_or_default()
}
