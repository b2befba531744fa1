//! Choice-sequence generation, case execution, shrinking, sharded running, replay and evidence.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a over the Hash stream: stable between runs and processes
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for &x in b {
                self.0 ^= x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    Rng(f.finish()).next()
}

enum Mode {
    Rng(Rng),
    Replay(Vec<u64>, usize),
}

/// Source of every random decision of a case. The decisions are recorded, so a case can be
/// replayed from them and shrunk by editing them.
pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    /// Something of great length is in this case already
    pub huge: bool,
}

/// A case that takes more decisions than this is discarded: it would take too long.
const MAX_CHOICES: usize = 3_000_000;
struct TooLong;

impl Src {
    pub fn seeded(seed: u64) -> Self {
        Src {
            mode: Mode::Rng(Rng::new(seed)),
            rec: vec![],
            huge: false,
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            mode: Mode::Replay(choices, 0),
            rec: vec![],
            huge: false,
        }
    }
    /// Uniform in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Rng(r) => {
                if n == 1 {
                    0
                } else {
                    ((r.next() as u128 * n as u128) >> 64) as u64
                }
            }
            Mode::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.push(v);
        v
    }
    pub fn bits(&mut self) -> u64 {
        let v = match &mut self.mode {
            Mode::Rng(r) => r.next(),
            Mode::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v
            }
        };
        self.push(v);
        v
    }
    fn push(&mut self, v: u64) {
        if self.rec.len() >= MAX_CHOICES {
            std::panic::resume_unwind(Box::new(TooLong));
        }
        self.rec.push(v);
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    /// True in one case out of `n`.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == n - 1 && n > 1
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    /// Index drawn with the given weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let mut v = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x as u64 {
                return i;
            }
            v -= x as u64;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// A size up to about `max`: mostly small, sometimes anywhere up to `max`.
    pub fn size(&mut self, max: usize) -> usize {
        let cap = match self.below(16) {
            0..=5 => 2,
            6..=10 => 5,
            11..=13 => 12,
            14 => 40,
            _ => max,
        };
        let cap = cap.min(max);
        self.range(0, cap)
    }
}

// ---------------------------------------------------------------- cases

pub enum Stop {
    Fail(String),
    Discard,
}
pub type R = Result<(), Stop>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err($crate::engine::Stop::Fail(format!($($arg)*))); } };
}
#[macro_export]
macro_rules! assume {
    ($c:expr) => {
        if !$c {
            return Err($crate::engine::Stop::Discard);
        }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub key: u64,
    pub verbose: bool,
    pub shown: String,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    /// Declares the generated case: used to count distinct cases, and shown in samples and replays.
    pub fn case<T: Hash + ?Sized>(&mut self, t: &T, show: impl FnOnce() -> String) {
        self.key = hash64(t) ^ self.key.rotate_left(17);
        if self.verbose {
            if !self.shown.is_empty() {
                self.shown.push('\n');
            }
            self.shown.push_str(&show());
        }
    }
}

pub type CheckFn = fn(&mut Src, &mut Ctx) -> R;

pub struct Sub {
    pub name: &'static str,
    pub f: CheckFn,
    pub quick: u64,
    pub thorough: u64,
}
pub fn sub(name: &'static str, f: CheckFn, quick: u64) -> Sub {
    Sub {
        name,
        f,
        quick,
        thorough: quick * 40,
    }
}

/// A deep or long input run in a child process of its own, where a stack overflow shows as a signal.
pub struct Probe {
    pub name: &'static str,
    pub f: fn() -> Result<(), String>,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    pub probes: Vec<Probe>,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Pass,
    Discard,
    Fail(String),
    HarnessBug(String),
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = Some((loc, msg));
    }));
}

thread_local! {
    static LOGGING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// A logger for every message, on those threads which want it; what it is told is only rendered.
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            struct Sink;
            impl std::fmt::Write for Sink {
                fn write_str(&mut self, _: &str) -> std::fmt::Result {
                    Ok(())
                }
            }
            let _ = std::fmt::write(&mut Sink, *r.args());
        }
    }
    fn flush(&self) {}
}

pub fn with_logging<T>(f: impl FnOnce() -> T) -> T {
    // The global level stays off until a case wants messages: rendering them takes time
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&Log);
        log::set_max_level(log::LevelFilter::Trace);
    });
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LOGGING.with(|l| l.set(false));
        }
    }
    let _off = Off;
    LOGGING.with(|l| l.set(true));
    f()
}

pub fn exec(f: CheckFn, src: &mut Src, cx: &mut Ctx) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| f(src, cx)));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Stop::Discard)) => Outcome::Discard,
        Ok(Err(Stop::Fail(m))) => Outcome::Fail(m),
        Err(p) if p.is::<TooLong>() => Outcome::Discard,
        Err(_) => {
            let (loc, msg) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            // The harness's own files are given relative to its crate
            if loc.starts_with("src/") {
                Outcome::HarnessBug(format!("panic in harness at {loc}: {msg}"))
            } else {
                Outcome::Fail(format!("panic at {loc}: {msg}"))
            }
        }
    }
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    hash64(&(seed, prop, sub, idx))
}

// ---------------------------------------------------------------- shrinking

fn fails(f: CheckFn, choices: &[u64]) -> Option<(Vec<u64>, String)> {
    let mut src = Src::replay(choices.to_vec());
    let mut cx = Ctx::default();
    crate::tick();
    match exec(f, &mut src, &mut cx) {
        Outcome::Fail(m) => Some((src.rec, m)),
        _ => None,
    }
}

pub fn shrink(
    mut best: Vec<u64>,
    mut msg: String,
    mut budget: usize,
    secs: u64,
    mut test: impl FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let mut improved = true;
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if budget == 0 || t0.elapsed().as_secs() >= secs {
                return (best, msg);
            }
            budget -= 1;
            match test(&cand) {
                Some((rec, m)) if simpler(&rec, &best) => {
                    best = rec;
                    msg = m;
                    improved = true;
                    true
                }
                _ => false,
            }
        }};
    }
    while improved {
        improved = false;
        // Delete chunks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                let mut c = best.clone();
                if i <= c.len() {
                    c.drain(lo..i);
                    attempt!(c);
                }
                i = lo.min(best.len());
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // Zero chunks
        for k in [16usize, 4] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + k).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += k;
            }
        }
        // Reduce single values
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) && i < best.len() {
                    let (mut lo, mut hi) = (0, best[i]);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    // Decrement together with deleting the next choice (lengths and their items)
                    if i + 1 < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.remove(i + 1);
                        attempt!(c);
                    }
                }
            }
            i += 1;
        }
    }
    (best, msg)
}

// ---------------------------------------------------------------- json

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (c as u32) > 0x7e => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("…[cut]");
        t
    }
}

// ---------------------------------------------------------------- running

pub struct Env {
    pub verif: PathBuf,
    pub tier: String,
    pub seed: u64,
    pub workers: u64,
    pub scale: f64,
}

impl Env {
    pub fn load() -> Env {
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
        Env {
            verif,
            tier: match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => "thorough".into(),
                _ => "quick".into(),
            },
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.trim().parse::<i64>().ok())
                .unwrap_or(1) as u64,
            workers: std::env::var("VERIF_WORKERS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(8),
            scale: std::env::var("VERIF_SCALE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1.0),
        }
    }
    pub fn count(&self, s: &Sub) -> u64 {
        let n = if self.tier == "thorough" {
            s.thorough
        } else {
            s.quick
        };
        ((n as f64 * self.scale) as u64).max(1)
    }
    pub fn work(&self, id: &str) -> PathBuf {
        self.verif.join("work").join(id)
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    discards: u64,
    labels: BTreeMap<String, u64>,
    per_sub: BTreeMap<String, u64>,
    keys: HashSet<u64>,
    samples: Vec<String>,
}

/// Runs the cases of one shard; writes `<work>/<shard>.out`.
pub fn worker(prop: &Prop, env: &Env, shard: u64) {
    let dir = env.work(prop.id);
    let cur_path = dir.join(format!("{shard}.cur"));
    let cur = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(&cur_path)
        .unwrap();
    let mut st = Stats::default();
    let mut failure: Option<String> = None;
    let mut bug: Option<String> = None;
    'outer: for (si, s) in prop.subs.iter().enumerate() {
        let n = env.count(s);
        let mut idx = shard;
        let mut sampled = 0;
        while idx < n {
            {
                use std::os::unix::fs::FileExt;
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&(si as u64).to_le_bytes());
                b[8..].copy_from_slice(&idx.to_le_bytes());
                let _ = cur.write_at(&b, 0);
            }
            let mut src = Src::seeded(case_seed(env.seed, prop.id, s.name, idx));
            let mut cx = Ctx {
                verbose: shard == 0 && sampled < 3,
                ..Ctx::default()
            };
            crate::tick();
            let out = exec(s.f, &mut src, &mut cx);
            match out {
                Outcome::Pass => {
                    st.evaluations += 1;
                    for l in &cx.labels {
                        *st.labels.entry(format!("{}:{}", s.name, l)).or_default() += 1;
                    }
                    *st.per_sub.entry(s.name.into()).or_default() += 1;
                    if cx.nontrivial {
                        st.keys.insert(hash64(&(s.name, cx.key)));
                        if cx.verbose {
                            st.samples
                                .push(format!("[{}] {}", s.name, cut(&cx.shown, 600)));
                            sampled += 1;
                        }
                    }
                }
                Outcome::Discard => st.discards += 1,
                Outcome::HarnessBug(m) => {
                    bug = Some(format!("{} case {idx}: {m}", s.name));
                    break 'outer;
                }
                Outcome::Fail(m) => {
                    // First as found: shrinking may meet a case that does not come back
                    let raw = replay_text_shown(prop, s, &src.rec, &m, env, idx, "");
                    std::fs::write(dir.join(format!("{shard}.fail")), raw).unwrap();
                    let (choices, msg) = shrink(src.rec, m, 6000, 20, |c| fails(s.f, c));
                    failure = Some(replay_text(prop, s, &choices, &msg, env, idx));
                    break 'outer;
                }
            }
            idx += env.workers;
        }
    }
    let mut o = String::new();
    writeln!(o, "evaluations {}", st.evaluations).unwrap();
    writeln!(o, "discards {}", st.discards).unwrap();
    for (k, v) in &st.labels {
        writeln!(o, "label {v} {k}").unwrap();
    }
    for (k, v) in &st.per_sub {
        writeln!(o, "sub {v} {k}").unwrap();
    }
    for s in &st.samples {
        writeln!(o, "sample {}", s.replace('\\', "\\\\").replace('\n', "\\n")).unwrap();
    }
    if let Some(b) = bug {
        writeln!(o, "bug {}", b.replace('\n', " ")).unwrap();
    }
    if let Some(f) = &failure {
        std::fs::write(dir.join(format!("{shard}.fail")), f).unwrap();
    }
    let mut keys = Vec::with_capacity(st.keys.len() * 8);
    for k in &st.keys {
        keys.extend_from_slice(&k.to_le_bytes());
    }
    std::fs::write(dir.join(format!("{shard}.keys")), keys).unwrap();
    std::fs::write(dir.join(format!("{shard}.out")), o).unwrap();
}

pub fn describe(f: CheckFn, choices: &[u64]) -> (String, Outcome) {
    let mut src = Src::replay(choices.to_vec());
    let mut cx = Ctx {
        verbose: true,
        ..Ctx::default()
    };
    let out = exec(f, &mut src, &mut cx);
    (cx.shown, out)
}

fn replay_text(prop: &Prop, s: &Sub, choices: &[u64], msg: &str, env: &Env, idx: u64) -> String {
    let (shown, _) = describe(s.f, choices);
    replay_text_shown(prop, s, choices, msg, env, idx, &shown)
}

fn replay_text_shown(
    prop: &Prop,
    s: &Sub,
    choices: &[u64],
    msg: &str,
    env: &Env,
    idx: u64,
    shown: &str,
) -> String {
    let cs: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    format!(
        "property {}\nsub {}\nchoices {}\norigin seed={} case={}\nmessage:\n{}\ncase:\n{}\n",
        prop.id,
        s.name,
        cs.join(","),
        env.seed,
        idx,
        msg,
        shown
    )
}

pub fn parse_replay(text: &str) -> Option<(String, String, Vec<u64>)> {
    let mut id = None;
    let mut sub = None;
    let mut ch = None;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = id.or(Some(x.to_owned()));
        } else if let Some(x) = l.strip_prefix("sub ") {
            sub = sub.or(Some(x.to_owned()));
        } else if let Some(x) = l.strip_prefix("choices ") {
            ch = ch.or(Some(x.split(',').filter_map(|c| c.parse().ok()).collect()));
        } else if l == "choices" {
            ch = ch.or(Some(vec![]));
        } else if l.starts_with("message:") {
            break;
        }
    }
    Some((id?, sub?, ch?))
}

fn signal_of(st: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    st.signal()
}

/// Signals a stack overflow, abort or memory error raises in the process itself; SIGKILL (out of
/// memory, watchdog) and SIGTERM come from outside and are errors of the check.
fn is_crash(sig: i32) -> bool {
    matches!(sig, 4 | 6 | 7 | 8 | 11)
}

/// Exit of a process in which a single case made no progress for a long time.
pub const EXIT_STUCK: i32 = 4;

/// Whether the case alone ends its process, or gets stuck, as well.
fn replay_in_child(path: &Path) -> bool {
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe)
        .arg("replay")
        .arg(path)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    st.map_or(false, |st| {
        st.code() == Some(EXIT_STUCK) || signal_of(&st).map_or(false, is_crash)
    })
}

pub struct Known {
    pub entries: Vec<(String, String, String)>, // property, signature, text
}

pub fn load_known(env: &Env) -> Known {
    let mut entries = vec![];
    if let Ok(t) = std::fs::read_to_string(env.verif.join("known_findings.txt")) {
        for l in t.lines() {
            // finding: property=<id> signature=<sig> :: <what fails>
            if let Some(rest) = l.strip_prefix("finding: property=") {
                let mut it = rest.splitn(2, " signature=");
                let (Some(p), Some(r)) = (it.next(), it.next()) else {
                    continue;
                };
                let mut it = r.splitn(2, " :: ");
                let (Some(sig), Some(what)) = (it.next(), it.next()) else {
                    continue;
                };
                entries.push((p.to_owned(), sig.to_owned(), what.to_owned()));
            }
        }
    }
    Known { entries }
}

/// Runs a whole check: exit code to use.
pub fn run(prop: &Prop, env: &Env) -> i32 {
    let t0 = Instant::now();
    let dir = env.work(prop.id);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let known = load_known(env);

    let mut violations: Vec<(String, String)> = vec![]; // replay text, summary
    let mut known_hits: Vec<String> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut probe_notes: Vec<String> = vec![];
    let mut evals = 0u64;

    // Probes, each in a process of its own
    let mut probe_children = vec![];
    for p in &prop.probes {
        let child = std::process::Command::new(&exe)
            .arg("probe")
            .arg(prop.id)
            .arg(p.name)
            .stderr(std::process::Stdio::null())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .unwrap();
        probe_children.push((p, child));
    }
    let mut workers = vec![];
    for shard in 0..env.workers {
        let child = std::process::Command::new(&exe)
            .arg("worker")
            .arg(prop.id)
            .arg(shard.to_string())
            .stderr(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .spawn()
            .unwrap();
        workers.push((shard, child));
    }
    let mut probes_run = 0u64;
    for (p, child) in probe_children {
        let out = child.wait_with_output().unwrap();
        probes_run += 1;
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let sig = signal_of(&out.status);
        let (failed, msg) = match (out.status.code(), sig) {
            (Some(0), _) => (false, String::new()),
            (Some(1), _) => (true, text.trim().to_owned()),
            (Some(EXIT_STUCK), _) => (true, "does not end".to_owned()),
            (_, Some(s)) if is_crash(s) => (true, format!("process died with signal {s}")),
            (c, s) => {
                errors.push(format!("probe {}: exit {c:?} signal {s:?}", p.name));
                continue;
            }
        };
        probe_notes.push(format!(
            "{}: {}",
            p.name,
            if failed { msg.as_str() } else { "ok" }
        ));
        if failed {
            // Known findings are keyed on the probe and on how it fails
            let kind = match (sig, out.status.code()) {
                (Some(_), _) => "crash",
                (_, Some(EXIT_STUCK)) => "stuck",
                _ => "wrong",
            };
            let s = format!("probe/{}/{}", p.name, kind);
            if let Some((_, _, what)) = known
                .entries
                .iter()
                .find(|(id, k, _)| id == prop.id && *k == s)
            {
                known_hits.push(what.clone());
            } else {
                violations.push((
                    format!(
                        "property {}\nprobe {}\nmessage:\n{}\n",
                        prop.id, p.name, msg
                    ),
                    format!("probe {}: {}", p.name, msg),
                ));
            }
        }
    }
    let mut per_shard_fail = vec![];
    let mut confirmed: HashSet<&str> = HashSet::new();
    for (shard, mut child) in workers {
        let status = child.wait().unwrap();
        if let Ok(f) = std::fs::read_to_string(dir.join(format!("{shard}.fail"))) {
            per_shard_fail.push(f);
            continue;
        }
        if status.success() {
            continue;
        }
        // Died, or got stuck in a case
        let hung = status.code() == Some(EXIT_STUCK);
        match signal_of(&status) {
            sig if hung || sig.map_or(false, is_crash) => {
                let how = match sig {
                    Some(sig) => format!("died with signal {sig}"),
                    None => "does not end".into(),
                };
                let cur = std::fs::read(dir.join(format!("{shard}.cur"))).unwrap_or_default();
                if cur.len() < 16 {
                    errors.push(format!("worker {shard} {how} before any case"));
                    continue;
                }
                let si = u64::from_le_bytes(cur[..8].try_into().unwrap()) as usize;
                let idx = u64::from_le_bytes(cur[8..16].try_into().unwrap());
                let s = &prop.subs[si];
                // The decisions cannot be recorded by the process that died: a replay that gives
                // the seed of the case stands for them
                let seed = case_seed(env.seed, prop.id, s.name, idx);
                let text = format!(
                    "property {}\nsub {}\nseed {}\norigin seed={} case={}\nmessage:\nthe process {}\n",
                    prop.id, s.name, seed, env.seed, idx, how
                );
                let p = dir.join(format!("{shard}.crash"));
                std::fs::write(&p, &text).unwrap();
                // (once for each sub-check: a case that gets stuck takes its time)
                if confirmed.contains(s.name) || replay_in_child(&p) {
                    confirmed.insert(s.name);
                    per_shard_fail.push(text);
                } else {
                    errors.push(format!(
                        "worker {shard} {how}, not reproduced by its case"
                    ));
                }
            }
            s => errors.push(format!("worker {shard} failed: {:?} {s:?}", status.code())),
        }
    }

    let mut discards = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_sub: BTreeMap<String, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    for shard in 0..env.workers {
        let Ok(t) = std::fs::read_to_string(dir.join(format!("{shard}.out"))) else {
            continue;
        };
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "evaluations" => evals += v.parse::<u64>().unwrap_or(0),
                "discards" => discards += v.parse::<u64>().unwrap_or(0),
                "label" | "sub" => {
                    let (n, name) = v.split_once(' ').unwrap();
                    let m = if k == "label" {
                        &mut labels
                    } else {
                        &mut per_sub
                    };
                    *m.entry(name.to_owned()).or_default() += n.parse::<u64>().unwrap();
                }
                "sample" => samples.push(v.replace("\\n", "\n").replace("\\\\", "\\")),
                "bug" => errors.push(v.to_owned()),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("{shard}.keys"))) {
            for c in b.chunks_exact(8) {
                keys.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    if samples.is_empty() {
        samples.push("no non-trivial case was completed in this run".into());
    }

    // One violation per sub-check: the simplest reproduction
    let mut by_sub: BTreeMap<String, String> = BTreeMap::new();
    for f in per_shard_fail {
        let s = f
            .lines()
            .find_map(|l| l.strip_prefix("sub "))
            .unwrap_or("")
            .to_owned();
        match by_sub.get(&s) {
            Some(g) if g.len() <= f.len() => {}
            _ => {
                by_sub.insert(s, f);
            }
        }
    }
    for (s, f) in by_sub {
        let m = f
            .split("message:\n")
            .nth(1)
            .unwrap_or("")
            .split("\ncase:")
            .next()
            .unwrap_or("")
            .to_owned();
        violations.push((f, format!("{s}: {m}")));
    }

    // Evidence
    let mut ev = String::new();
    let join = |m: &BTreeMap<String, u64>| {
        m.iter()
            .map(|(k, v)| format!("{}: {v}", json_str(k)))
            .collect::<Vec<_>>()
            .join(", ")
    };
    write!(
        ev,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"discarded\": {},\n  \"cases_per_subcheck\": {{{}}},\n  \"labels\": {{{}}},\n  \"probes\": [{}]\n }},\n \"assumptions\": [],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(&env.tier),
        env.seed as i64,
        evals + probes_run,
        keys.len(),
        json_str(prop.rule),
        samples
            .iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(", "),
        discards,
        join(&per_sub),
        join(&labels),
        probe_notes
            .iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(", "),
        t0.elapsed().as_secs_f64(),
        violations.len()
    )
    .unwrap();
    std::fs::create_dir_all(env.verif.join("evidence")).unwrap();
    std::fs::write(
        env.verif.join("evidence").join(format!("{}.json", prop.id)),
        ev,
    )
    .unwrap();

    let _ = std::fs::remove_dir_all(&dir);
    for k in &known_hits {
        println!("KNOWN-FINDING: property={} {}", prop.id, k);
    }
    println!(
        "{}: {} cases ({} discarded), {} distinct non-trivial, {:.1} s",
        prop.id,
        evals + probes_run,
        discards,
        keys.len(),
        t0.elapsed().as_secs_f64()
    );
    if !violations.is_empty() {
        let rdir = env.verif.join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        for (i, (text, summary)) in violations.iter().enumerate() {
            let path = rdir.join(format!("{}-{}.txt", prop.id, i));
            std::fs::write(&path, text).unwrap();
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            println!("  {}", cut(&summary.replace('\n', "\n  "), 1500));
        }
        let _ = std::io::stdout().flush();
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}: {}", prop.id, e);
        }
        return 3;
    }
    0
}
