//! Drives the generated-input search: shards of proptest value trees, panic
//! capture, shrinking, counting, evidence and supervision of aborts and hangs.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub const WORKERS: usize = 8;
/// One per worker, and one for the thread that replays saved inputs.
const SLOTS: usize = WORKERS + 1;
const FAM_CORPUS: u64 = u64::MAX;
const FAM_KNOWN: u64 = u64::MAX - 1;
/// CPU seconds one generated case may use before it is triaged as a hang. Cases are
/// sized to take milliseconds (the largest families: a few seconds).
pub const CPU_BUDGET_S: u64 = 60;

pub fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("VP_VERIF_DIR") {
        return PathBuf::from(d);
    }
    // <verif>/harness is the crate directory.
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a case records about itself while it runs.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub excluded: u64,
    pub sub_evals: u64,
    pub note: Option<String>,
}
impl Cx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Mark the case non-trivial by the check's stated rule.
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c
    }
}

pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// The code under test may print; its output must not mix with the check's own lines.
static REAL_OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
pub fn silence_stdout() {
    unsafe {
        let real = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if real >= 0 && null >= 0 {
            libc::dup2(null, 1);
            REAL_OUT.store(real, SeqCst);
        }
    }
}
pub fn say_line(mut s: String) {
    s.push('\n');
    let b = s.as_bytes();
    let mut p = 0;
    while p < b.len() {
        let n = unsafe { libc::write(REAL_OUT.load(SeqCst), b[p..].as_ptr() as *const libc::c_void, b.len() - p) };
        if n <= 0 {
            break;
        }
        p += n as usize;
    }
}
macro_rules! say {
    ($($a:tt)*) => { say_line(format!($($a)*)) };
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CUT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m: String = msg.chars().take(300).collect();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}")));
        if !IN_CUT.with(|c| c.get()) {
            eprintln!("harness panic at {loc}: {m}");
        }
    }));
}

/// Call into the code under test; a panic there becomes Err("panic at ...").
pub fn cut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = IN_CUT.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_CUT.with(|c| c.set(prev));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub trait Fam: Sync + Send {
    fn name(&self) -> &'static str;
    fn cases(&self, t: Tier) -> u64;
    fn shard(&self, sh: &Shard) -> ShardOut;
    fn replay(&self, case: &Value) -> Result<Outcome, String>;
    #[allow(dead_code)]
    /// Run the case that `data` stands for, as the generator's random choices (fuzz/ only).
    fn fuzz(&self, id: &str, data: &[u8]);
    /// Regenerate case `idx` of a shard; returns its JSON.
    fn regen(&self, seed: u64, id: &str, shard: u64, idx: u64) -> Value;
    /// Shrink case `idx` of a shard against an external predicate (true = still fails).
    fn shrink_ext(&self, seed: u64, id: &str, shard: u64, idx: u64, steps: usize, pred: &mut dyn FnMut(&Value) -> bool) -> Value;
}

pub struct Family<C: 'static> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strat: fn() -> BoxedStrategy<C>,
    pub run: fn(&C, &mut Cx) -> Outcome,
}

pub struct Shard<'a> {
    pub id: &'a str,
    pub seed: u64,
    pub fam_idx: usize,
    pub shard: u64,
    pub count: u64,
    pub stop: &'a AtomicBool,
    pub slot: &'a Slot,
}
#[derive(Default)]
pub struct ShardOut {
    pub evals: u64,
    pub sub_evals: u64,
    pub excluded: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, String, u64)>,
    pub harness_error: Option<String>,
}

/// Shared-memory record of what a worker is doing (read by the supervisor).
#[repr(C)]
pub struct Slot {
    pub active: AtomicU64,
    pub fam: AtomicU64,
    pub shard: AtomicU64,
    pub idx: AtomicU64,
    pub cpu_start_ms: AtomicU64,
    pub tid_clock: AtomicU64,
    pub hang: AtomicU64,
    pub phase: AtomicU64,
}

impl Slot {
    /// Bind the slot to the calling thread's CPU clock.
    fn own(&self) {
        unsafe {
            let mut clk: libc::clockid_t = 0;
            libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
            self.tid_clock.store(clk as u32 as u64, SeqCst);
        }
    }
    fn during<T>(&self, fam: u64, idx: u64, f: impl FnOnce() -> T) -> T {
        self.fam.store(fam, SeqCst);
        self.idx.store(idx, SeqCst);
        self.cpu_start_ms.store(thread_cpu_ms(), SeqCst);
        self.active.store(1, SeqCst);
        let r = f();
        self.active.store(0, SeqCst);
        r
    }
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn runner_for(seed: u64, id: &str, fam: &str, shard: u64) -> TestRunner {
    let mut s = [0u8; 32];
    for i in 0..4u64 {
        let h = hash64(&[&seed.to_le_bytes(), id.as_bytes(), fam.as_bytes(), &shard.to_le_bytes(), &i.to_le_bytes()]);
        s[(i as usize) * 8..(i as usize + 1) * 8].copy_from_slice(&h.to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

fn thread_cpu_ms() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

/// Ok(outcome) or Err(harness error)
fn guarded<C>(run: fn(&C, &mut Cx) -> Outcome, c: &C, cx: &mut Cx) -> Result<Outcome, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c, cx))) {
        Ok(o) => Ok(o),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            // a call that the check did not guard, yet the panic is the library's
            if m.split(": ").next().is_some_and(|l| l.contains("/smdiff-")) {
                return Ok(Err(m));
            }
            Err(m)
        }
    }
}

/// Follow the tree down while the case still fails.
fn shrink<C: std::fmt::Debug>(tree: &mut dyn ValueTree<Value = C>, mut best: (C, String), run: &mut dyn FnMut(&C) -> Result<Outcome, String>) -> ((C, String), u64) {
    let t0 = thread_cpu_ms();
    let mut steps = 0;
    let mut moved = tree.simplify();
    while moved && steps < 3000 && thread_cpu_ms() - t0 < 20_000 {
        steps += 1;
        let c = tree.current();
        match run(&c) {
            Ok(Err(m)) => {
                best = (c, m);
                moved = tree.simplify();
            }
            _ => moved = tree.complicate(),
        }
    }
    (best, steps)
}

#[allow(dead_code)]
/// Bytes of a fuzzer, followed by enough fixed ones for a whole case.
fn padded(d: &[u8]) -> Vec<u8> {
    static TAIL: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let tail = TAIL.get_or_init(|| (0..8192u64).flat_map(|i| hash64(&[&i.to_le_bytes(), b"tail"]).to_le_bytes()).collect());
    [d, &tail[..]].concat()
}

impl<C> Fam for Family<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            self.quick
        } else {
            self.thorough
        }
    }
    fn shard(&self, sh: &Shard) -> ShardOut {
        let mut out = ShardOut::default();
        let mut runner = runner_for(sh.seed, sh.id, self.name, sh.shard);
        let strat = (self.strat)();
        for idx in 0..sh.count {
            if sh.stop.load(SeqCst) {
                break;
            }
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    out.harness_error = Some(format!("generator of {} failed: {e}", self.name));
                    return out;
                }
            };
            let case = tree.current();
            sh.slot.fam.store(sh.fam_idx as u64, SeqCst);
            sh.slot.shard.store(sh.shard, SeqCst);
            sh.slot.idx.store(idx, SeqCst);
            sh.slot.phase.store(0, SeqCst);
            sh.slot.cpu_start_ms.store(thread_cpu_ms(), SeqCst);
            sh.slot.active.store(1, SeqCst);
            let mut cx = Cx::default();
            let r = guarded(self.run, &case, &mut cx);
            sh.slot.active.store(0, SeqCst);
            out.evals += 1;
            out.sub_evals += cx.sub_evals;
            out.excluded += cx.excluded;
            for l in &cx.labels {
                *out.labels.entry(l).or_insert(0) += 1;
            }
            match r {
                Err(e) => {
                    out.harness_error = Some(format!("{}: {e}; case {}", self.name, serde_json::to_string(&case).unwrap_or_default().chars().take(2000).collect::<String>()));
                    sh.stop.store(true, SeqCst);
                    return out;
                }
                Ok(Ok(())) => {
                    if cx.nontrivial && out.distinct.len() < DISTINCT_CAP {
                        let s = serde_json::to_vec(&case).unwrap();
                        if out.distinct.insert(hash64(&[&s])) && out.samples.len() < 2 && s.len() < 3000 {
                            out.samples.push(json!({"family": self.name, "case": serde_json::to_value(&case).unwrap(), "classes": cx.labels, "note": cx.note}));
                        }
                    }
                }
                Ok(Err(msg)) => {
                    // Someone else already failed: do not spend time shrinking here.
                    if sh.stop.swap(true, SeqCst) {
                        break;
                    }
                    sh.slot.phase.store(1, SeqCst);
                    let (best, steps) = shrink(&mut *tree, (case, msg), &mut |c| {
                        sh.slot.cpu_start_ms.store(thread_cpu_ms(), SeqCst);
                        sh.slot.active.store(1, SeqCst);
                        let r = guarded(self.run, c, &mut Cx::default());
                        sh.slot.active.store(0, SeqCst);
                        r
                    });
                    out.failure = Some((serde_json::to_value(&best.0).unwrap(), best.1, steps));
                    return out;
                }
            }
        }
        out
    }
    fn fuzz(&self, id: &str, data: &[u8]) {
        thread_local! { static S: RefCell<Option<Box<dyn std::any::Any>>> = const { RefCell::new(None) }; }
        S.with(|s| {
            let mut s = s.borrow_mut();
            let st = s.get_or_insert_with(|| Box::new((self.strat)())).downcast_ref::<BoxedStrategy<C>>().unwrap();
            let cfg = Config { failure_persistence: None, ..Config::default() };
            let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::PassThrough, &padded(data)));
            let Ok(mut t) = st.new_tree(&mut r) else { return };
            let c = t.current();
            let tell = |c: &C, m: &str| {
                let f = ReplayFile { property: id.into(), family: self.name.into(), message: m.into(), case: serde_json::to_value(c).unwrap(), mode: String::new() };
                eprintln!("\nVPCASE {}", serde_json::to_string(&f).unwrap());
            };
            if std::env::var_os("VPF_DUMP").is_some() {
                return tell(&c, "the process died");
            }
            match guarded(self.run, &c, &mut Cx::default()) {
                Ok(Ok(())) => {}
                Ok(Err(m)) => {
                    let (best, _) = shrink(&mut *t, (c, m), &mut |c| guarded(self.run, c, &mut Cx::default()));
                    tell(&best.0, &best.1);
                    std::process::abort()
                }
                Err(m) => {
                    eprintln!("\nVPERROR {m}");
                    std::process::abort()
                }
            }
        })
    }
    fn replay(&self, case: &Value) -> Result<Outcome, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad case: {e}"))?;
        guarded(self.run, &c, &mut Cx::default())
    }
    fn regen(&self, seed: u64, id: &str, shard: u64, idx: u64) -> Value {
        let mut runner = runner_for(seed, id, self.name, shard);
        let strat = (self.strat)();
        let mut last = None;
        for _ in 0..=idx {
            last = Some(strat.new_tree(&mut runner).unwrap());
        }
        serde_json::to_value(last.unwrap().current()).unwrap()
    }
    fn shrink_ext(&self, seed: u64, id: &str, shard: u64, idx: u64, steps: usize, pred: &mut dyn FnMut(&Value) -> bool) -> Value {
        let mut runner = runner_for(seed, id, self.name, shard);
        let strat = (self.strat)();
        let mut tree = strat.new_tree(&mut runner).unwrap();
        for _ in 0..idx {
            tree = strat.new_tree(&mut runner).unwrap();
        }
        let mut best = serde_json::to_value(tree.current()).unwrap();
        let mut moved = tree.simplify();
        let mut n = 0;
        while moved && n < steps {
            n += 1;
            let v = serde_json::to_value(tree.current()).unwrap();
            if pred(&v) {
                best = v;
                moved = tree.simplify();
            } else {
                moved = tree.complicate();
            }
        }
        best
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// How "non-trivial" is decided.
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Box<dyn Fam>>,
    /// (class, minimum count in the quick tier): generator health, an error exit when missed.
    pub floors: Vec<(&'static str, u64)>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct ReplayFile {
    pub property: String,
    pub family: String,
    pub message: String,
    pub case: Value,
    #[serde(default)]
    pub mode: String,
}

fn write_replay(id: &str, fam: &str, msg: &str, case: &Value, mode: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = serde_json::to_string_pretty(&ReplayFile {
        property: id.into(),
        family: fam.into(),
        message: msg.into(),
        case: case.clone(),
        mode: mode.into(),
    })
    .unwrap();
    let h = hash64(&[fam.as_bytes(), serde_json::to_string(case).unwrap().as_bytes()]);
    let p = dir.join(format!("{id}-{fam}-{h:016x}.json"));
    std::fs::write(&p, body).expect("write replay");
    p
}

pub struct Known {
    pub case_file: String,
    pub signature: String,
    pub text: String,
}
/// known_findings.txt: `known: property=<id> case=<file under corpus/known> signature="<substring>" <what fails>`
pub fn known_findings(id: &str) -> Vec<Known> {
    let mut v = Vec::new();
    let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else { return v };
    for line in s.lines() {
        let Some(rest) = line.trim().strip_prefix("known: ") else { continue };
        let Some(rest) = rest.strip_prefix("property=") else { continue };
        let (p, rest) = rest.split_once(' ').unwrap_or((rest, ""));
        if p != id {
            continue;
        }
        let Some(rest) = rest.strip_prefix("case=") else { continue };
        let (c, rest) = rest.split_once(' ').unwrap_or((rest, ""));
        let Some(rest) = rest.strip_prefix("signature=\"") else { continue };
        let (sig, text) = rest.split_once('"').unwrap_or((rest, ""));
        v.push(Known { case_file: c.into(), signature: sig.into(), text: text.trim().into() });
    }
    v
}

fn evidence_path(id: &str) -> PathBuf {
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{id}.json"))
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

struct SlotMap {
    ptr: *mut Slot,
}
unsafe impl Sync for SlotMap {}
impl SlotMap {
    fn open(path: &Path) -> SlotMap {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots");
        f.set_len((SLOTS * std::mem::size_of::<Slot>()) as u64).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOTS * std::mem::size_of::<Slot>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        SlotMap { ptr: p as *mut Slot }
    }
    fn get(&self, i: usize) -> &Slot {
        unsafe { &*self.ptr.add(i) }
    }
}

const SHARDS: u64 = 64;
/// A quick run on a slow machine stops generating after this long; what it explored
/// until then is what it reports.
const QUICK_DEADLINE_S: u64 = 240;
const THOROUGH_DEADLINE_S: u64 = 3600;
/// Distinct non-trivial cases are counted up to here per shard and family.
const DISTINCT_CAP: usize = 200_000;

fn shard_count(total: u64, shard: u64) -> u64 {
    total / SHARDS + if shard < total % SHARDS { 1 } else { 0 }
}

fn corpus_files(id: &str) -> Vec<PathBuf> {
    let Ok(rd) = std::fs::read_dir(verif_dir().join("corpus").join(id)) else { return Vec::new() };
    let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map(|x| x == "json").unwrap_or(false)).collect();
    files.sort();
    files
}

/// Ends the process when a case uses more CPU time than any case needs.
fn watchdog(map: &'static SlotMap) {
    loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        for w in 0..SLOTS {
            let sl = map.get(w);
            if sl.active.load(SeqCst) != 1 {
                continue;
            }
            let clk = sl.tid_clock.load(SeqCst) as u32 as libc::clockid_t;
            let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
            if unsafe { libc::clock_gettime(clk, &mut ts) } != 0 {
                continue;
            }
            let ms = ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000;
            let st = sl.cpu_start_ms.load(SeqCst);
            if ms > st + CPU_BUDGET_S * 1000 && sl.active.load(SeqCst) == 1 {
                sl.hang.store(1, SeqCst);
                eprintln!("watchdog: worker {w} used more than {CPU_BUDGET_S} CPU seconds on one case");
                unsafe { libc::_exit(70) };
            }
        }
    }
}

/// The worker process: runs everything, exits 0 / 1 (violation) / 2 (error).
pub fn worker(check: &Check, tier: Tier, seed: u64, slots: &Path) -> i32 {
    let t0 = std::time::Instant::now();
    let map: &'static SlotMap = Box::leak(Box::new(SlotMap::open(slots)));
    map.get(WORKERS).own();
    std::thread::spawn(move || watchdog(map));
    let mut violations: Vec<(String, PathBuf)> = Vec::new();

    // 1. saved inputs (regressions) first.
    let mut corpus_n = 0u64;
    {
        let files = corpus_files(check.id);
        for (i, f) in files.iter().enumerate() {
            let rf: ReplayFile = match std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str(&s).ok()) {
                Some(r) => r,
                None => {
                    eprintln!("error: unreadable corpus file {}", f.display());
                    return 2;
                }
            };
            let Some(fam) = check.families.iter().find(|x| x.name() == rf.family) else {
                eprintln!("error: corpus file {} names unknown family {}", f.display(), rf.family);
                return 2;
            };
            let r = map.get(WORKERS).during(FAM_CORPUS, i as u64, || fam.replay(&rf.case));
            corpus_n += 1;
            match r {
                Err(e) => {
                    eprintln!("error: corpus case {}: {e}", f.display());
                    return 2;
                }
                Ok(Err(m)) => {
                    let p = write_replay(check.id, &rf.family, &m, &rf.case, "");
                    say!("saved input {} fails: {m}", f.display());
                    violations.push((m, p));
                }
                Ok(Ok(())) => {}
            }
        }
    }
    // 2. known findings.
    let mut known_lines = Vec::new();
    for (i, k) in known_findings(check.id).into_iter().enumerate() {
        let f = verif_dir().join("corpus/known").join(&k.case_file);
        let rf: ReplayFile = match std::fs::read_to_string(&f).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(r) => r,
            None => {
                eprintln!("error: unreadable known-finding case {}", f.display());
                return 2;
            }
        };
        let Some(fam) = check.families.iter().find(|x| x.name() == rf.family) else {
            eprintln!("error: known-finding case names unknown family {}", rf.family);
            return 2;
        };
        match map.get(WORKERS).during(FAM_KNOWN, i as u64, || fam.replay(&rf.case)) {
            Err(e) => {
                eprintln!("error: {e}");
                return 2;
            }
            Ok(Ok(())) => say!("note: known finding {} no longer fails", k.case_file),
            Ok(Err(m)) if m.contains(&k.signature) => {
                say!("KNOWN-FINDING: property={} {}", check.id, k.text);
                known_lines.push(json!({"case": k.case_file, "observed": m}));
            }
            Ok(Err(m)) => {
                let p = write_replay(check.id, &rf.family, &m, &rf.case, "");
                violations.push((m, p));
            }
        }
    }

    // 3. generated search.
    let stop = AtomicBool::new(!violations.is_empty());
    let mut tasks: Vec<(usize, u64, u64)> = Vec::new();
    for sh in 0..SHARDS {
        for (fi, f) in check.families.iter().enumerate() {
            let n = shard_count(f.cases(tier), sh);
            // for development: one family only
            let skip = std::env::var("VP_ONLY").is_ok_and(|o| o != f.name());
            if n > 0 && !skip {
                tasks.push((fi, sh, n));
            }
        }
    }
    let late = AtomicBool::new(false);
    let deadline = if tier == Tier::Quick { QUICK_DEADLINE_S } else { THOROUGH_DEADLINE_S };
    let gen0 = std::time::Instant::now();
    let next = AtomicUsize::new(0);
    let outs: Mutex<Vec<(usize, ShardOut)>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for w in 0..WORKERS {
            let (next, outs, tasks, stop, late, gen0) = (&next, &outs, &tasks, &stop, &late, &gen0);
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let slot = map.get(w);
                    slot.own();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= tasks.len() || stop.load(SeqCst) {
                            break;
                        }
                        if gen0.elapsed().as_secs() > deadline {
                            late.store(true, SeqCst);
                            break;
                        }
                        let (fi, sh, n) = tasks[i];
                        let o = check.families[fi].shard(&Shard { id: check.id, seed, fam_idx: fi, shard: sh, count: n, stop, slot });
                        outs.lock().unwrap().push((fi, o));
                    }
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            let _ = h.join();
        }
    });

    let mut evals = 0;
    let mut sub = 0;
    let mut excluded = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
    let mut per_fam: BTreeMap<&str, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut seen_fam: BTreeMap<usize, usize> = BTreeMap::new();
    let mut outs = outs.into_inner().unwrap();
    outs.sort_by_key(|o| o.0);
    for (fi, o) in outs {
        evals += o.evals;
        sub += o.sub_evals;
        excluded += o.excluded;
        *per_fam.entry(check.families[fi].name()).or_insert(0) += o.evals;
        for (k, v) in o.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        distinct.extend(o.distinct);
        for s in o.samples {
            let n = seen_fam.entry(fi).or_insert(0);
            if *n < 2 {
                *n += 1;
                samples.push(s);
            }
        }
        if let Some(e) = o.harness_error {
            eprintln!("error: {e}");
            return 2;
        }
        if let Some((case, msg, steps)) = o.failure {
            let fam = check.families[fi].name();
            let p = write_replay(check.id, fam, &msg, &case, "");
            say!("{}/{} fails (after {} shrink steps): {}", check.id, fam, steps, msg);
            violations.push((msg, p));
        }
    }
    let ev = json!({
        "property": check.id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": evals + corpus_n,
            "distinct_nontrivial": distinct.len(),
            "rule": check.rule,
            "samples": samples,
            "classes": labels,
            "families": per_fam,
            "oracle_evaluations_inside_cases": sub,
            "excluded_by_construction": excluded,
            "saved_inputs_replayed": corpus_n,
            "stopped_by_deadline": late.load(SeqCst),
            "known_findings_observed": known_lines,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
        "assumptions": check.assumptions,
    });
    std::fs::write(evidence_path(check.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    if !violations.is_empty() {
        for (m, p) in &violations {
            say!("  {m}");
            say!("VIOLATION property={} replay={}", check.id, p.display());
        }
        return 1;
    }
    let late = late.load(SeqCst);
    if late {
        say!("note: stopped generating after {deadline} s; the counts below are what was explored");
    }
    let mut low = false;
    for (l, min) in &check.floors {
        let got = labels.get(l).copied().unwrap_or(0);
        if got < *min {
            eprintln!("generator health: class {l:?} seen {got} times, expected at least {min}");
            low = true;
        }
    }
    if low && !late && std::env::var("VP_IGNORE_FLOORS").is_err() {
        return 2;
    }
    say!(
        "{}: held on {} generated cases ({} distinct non-trivial, {} inner evaluations) in {:.1}s",
        check.id,
        evals,
        distinct.len(),
        sub,
        t0.elapsed().as_secs_f64()
    );
    for (k, v) in labels {
        say!("    {k}: {v}");
    }
    0
}

fn set_limits(cpu: Option<u64>) {
    unsafe {
        if let Some(c) = cpu {
            let r = libc::rlimit { rlim_cur: c, rlim_max: c + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
        }
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}

/// Run one case from a replay file in this process; used in child processes.
pub fn one(check: &Check, file: &Path, cpu: Option<u64>) -> i32 {
    set_limits(cpu);
    let rf: ReplayFile = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay")).expect("parse replay");
    let Some(f) = check.families.iter().find(|x| x.name() == rf.family) else {
        eprintln!("unknown family {}", rf.family);
        return 2;
    };
    match f.replay(&rf.case) {
        Err(e) => {
            eprintln!("error: {e}");
            2
        }
        Ok(Ok(())) => {
            say!("{} {}: holds on this input", check.id, rf.family);
            0
        }
        Ok(Err(m)) => {
            say!("{} {}: {m}", check.id, rf.family);
            say!("VIOLATION property={} replay={}", check.id, file.display());
            1
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Died {
    No(i32),
    Hang,
    Abort(i32),
}
fn run_child(id: &str, file: &Path, cpu: u64) -> Died {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe)
        .args(["one", id, file.to_str().unwrap(), &cpu.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("spawn");
    match st.signal() {
        Some(s) if s == libc::SIGXCPU || s == libc::SIGKILL => Died::Hang,
        Some(s) => Died::Abort(s),
        None => Died::No(st.code().unwrap_or(2)),
    }
}

/// The supervisor: runs the worker in a child process and triages a death.
pub fn supervise(check: &Check, tier: Tier, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let work = verif_dir().join("work");
    let _ = std::fs::create_dir_all(&work);
    let slots = work.join(format!("slots-{}-{}", check.id, std::process::id()));
    let _ = std::fs::remove_file(&slots);
    let map = SlotMap::open(&slots);
    let exe = std::env::current_exe().unwrap();
    let t0 = std::time::Instant::now();
    let st = std::process::Command::new(&exe)
        .args(["worker", check.id, if tier == Tier::Quick { "quick" } else { "thorough" }, &seed.to_string(), slots.to_str().unwrap()])
        .status()
        .expect("spawn worker");
    let finish = |code: i32| {
        let _ = std::fs::remove_file(&slots);
        code
    };
    if let Some(c) = st.code() {
        if c == 0 || c == 1 || c == 2 {
            return finish(c);
        }
    }
    eprintln!("worker process died ({:?}, signal {:?}); triaging the cases in flight", st.code(), st.signal());
    let mut cands: Vec<(usize, bool)> = Vec::new();
    for w in 0..SLOTS {
        let s = map.get(w);
        if s.active.load(SeqCst) == 1 {
            cands.push((w, s.hang.load(SeqCst) == 1));
        }
    }
    cands.sort_by_key(|c| !c.1);
    let any_hang = cands.iter().any(|c| c.1);
    for (w, hang) in cands {
        if any_hang && !hang {
            continue;
        }
        let s = map.get(w);
        let fi = s.fam.load(SeqCst);
        let (fam_name, case, gen): (String, Value, Option<(usize, u64, u64)>) = if fi >= FAM_KNOWN {
            let i = s.idx.load(SeqCst) as usize;
            let file = if fi == FAM_CORPUS {
                corpus_files(check.id)[i].clone()
            } else {
                verif_dir().join("corpus/known").join(&known_findings(check.id)[i].case_file)
            };
            let rf: ReplayFile = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            (rf.family, rf.case, None)
        } else {
            let f = &check.families[fi as usize];
            let (sh, idx) = (s.shard.load(SeqCst), s.idx.load(SeqCst));
            (f.name().to_string(), f.regen(seed, check.id, sh, idx), Some((fi as usize, sh, idx)))
        };
        let p = write_replay(check.id, &fam_name, "died", &case, "child");
        let d = run_child(check.id, &p, CPU_BUDGET_S);
        eprintln!("triage worker {w}: {:?}", d);
        let what = match &d {
            Died::No(1) => "fails".to_string(),
            Died::No(_) => {
                let _ = std::fs::remove_file(&p);
                continue;
            }
            Died::Hang => format!("does not terminate (more than {CPU_BUDGET_S} s of CPU time on a case that normally takes milliseconds, twice)"),
            Died::Abort(sig) => format!("ends the process with signal {sig} (allocation failure or stack overflow)"),
        };
        let mut final_case = case.clone();
        if let (Died::Abort(_), Some((fi, sh, idx))) = (&d, gen) {
            let _ = std::fs::remove_file(&p);
            let tmp = work.join(format!("shrink-{}.json", std::process::id()));
            let want = d.clone();
            let start = std::time::Instant::now();
            final_case = check.families[fi].shrink_ext(seed, check.id, sh, idx, 400, &mut |v| {
                if start.elapsed().as_secs() > 60 {
                    return false;
                }
                let body = serde_json::to_string(&ReplayFile { property: check.id.into(), family: fam_name.clone(), message: String::new(), case: v.clone(), mode: "child".into() }).unwrap();
                std::fs::write(&tmp, body).unwrap();
                run_child(check.id, &tmp, 10) == want
            });
            let _ = std::fs::remove_file(&tmp);
        }
        let p = write_replay(check.id, &fam_name, &what, &final_case, "child");
        say!("{}/{} {what}", check.id, fam_name);
        say!("VIOLATION property={} replay={}", check.id, p.display());
        let ev = json!({
            "property": check.id, "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "seed": seed, "level": check.level,
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": check.rule, "samples": [{"family": fam_name, "case": final_case}], "note": "the run ended in the case reported; counts of the other cases were lost with the process"},
            "wall_s": t0.elapsed().as_secs_f64(), "violations": 1, "assumptions": check.assumptions,
        });
        let _ = std::fs::write(evidence_path(check.id), serde_json::to_string_pretty(&ev).unwrap());
        return finish(1);
    }
    eprintln!("error: the worker died but no case in flight reproduces it");
    finish(2)
}

/// As `replay`, in a child process and without a word.
pub fn replay_quietly(check: &Check, file: &Path) -> i32 {
    match run_child(check.id, file, CPU_BUDGET_S) {
        Died::No(c) => c,
        _ => 1,
    }
}

/// Replay a file: exit 1 with a VIOLATION line when it still fails.
pub fn replay(check: &Check, file: &Path) -> i32 {
    let rf: ReplayFile = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay")).expect("parse replay");
    if rf.mode == "child" {
        return match run_child(check.id, file, CPU_BUDGET_S) {
            Died::No(c) => {
                say!("{} {}: child exit {c}", check.id, rf.family);
                if c == 1 {
                    say!("VIOLATION property={} replay={}", check.id, file.display());
                }
                c
            }
            d => {
                say!("{} {}: {:?}", check.id, rf.family, d);
                say!("VIOLATION property={} replay={}", check.id, file.display());
                1
            }
        };
    }
    one(check, file, None)
}
