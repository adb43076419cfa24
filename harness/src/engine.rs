//! A small property-based testing engine.
//!
//! Every random decision a generator makes is one recorded integer ("choice"); a failing case is
//! the list of its choices, so shrinking works on that list for every generator (data, histories,
//! text, fault plans) and the shrunk list is the replay file.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------
// Choices
// ------------------------------------------------------------------------------------------------

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    pos: usize,
    /// 0..=100, drawn first; generators scale collection sizes with it.
    pub size: u64,
    /// Where the choices are written as they are made, so that a crash does not lose them.
    mirror: Option<PathBuf>,
}

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        let mut s = Src { state: seed, replay: None, rec: Vec::new(), pos: 0, size: 0, mirror: None };
        s.size = s.below(101);
        s
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        let mut s = Src { state: 0, replay: Some(choices), rec: Vec::new(), pos: 0, size: 0, mirror: None };
        s.size = s.below(101);
        s
    }

    /// Uniform in `0..n`; 0 is the simplest value.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => {
                let x = splitmix(&mut self.state);
                ((x as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(p) = &self.mirror {
            let _ = std::fs::write(p, join(&self.rec));
        }
        v
    }

    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability `num/den`; the shrunk value is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn choose<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.usize(items.len());
        &items[i]
    }

    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        self.choose(items).clone()
    }

    /// Index drawn with the given weights; put the simplest alternative first.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        weights.len() - 1
    }

    /// A list of `min..=max` items, generated with "another?" flags so that deletion shrinks well.
    pub fn list<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut out = Vec::new();
        while out.len() < min {
            out.push(f(self));
        }
        let span = (max - out.len().min(max)) as u64;
        let target = 1 + span * (20 + self.size) / 120;
        while out.len() < max {
            // expected number of extra items is about target / 2
            if !self.chance(target, target + 2) {
                break;
            }
            out.push(f(self));
        }
        out
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = i - self.usize(i + 1);
            items.swap(i, j);
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Cases and failures
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub detail: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, detail: impl Into<String>) -> Self {
        Fail { sig: sig.into(), detail: detail.into() }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) };
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !$cond { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) } };
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub key: u64,
    pub want_sample: bool,
    pub sample: Option<String>,
    pub tags: Vec<&'static str>,
    pub evals: u64,
}

impl Case {
    pub fn tag(&mut self, t: &'static str) {
        if !self.tags.contains(&t) {
            self.tags.push(t);
        }
    }
    pub fn tag_if(&mut self, c: bool, t: &'static str) {
        if c {
            self.tag(t)
        }
    }
    /// Identify the input of this case (for counting distinct cases) and say if it is non-trivial.
    pub fn input<T: Hash + ?Sized>(&mut self, key: &T, nontrivial: bool) {
        let mut h = DefaultHasher::new();
        key.hash(&mut h);
        self.key = h.finish();
        self.nontrivial = nontrivial;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
}

pub struct Explicit {
    pub name: String,
    pub run: Box<dyn Fn() -> Res + Send + Sync>,
}

pub struct Known {
    pub sig: &'static str,
    /// `Some(description of what fails)` while the defect is present.
    pub probe: fn() -> Option<String>,
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Src, &mut Case) -> Res,
    pub explicit: fn() -> Vec<Explicit>,
    pub known: fn() -> Vec<Known>,
}

pub fn no_explicit() -> Vec<Explicit> {
    Vec::new()
}

pub fn no_known() -> Vec<Known> {
    Vec::new()
}

// ------------------------------------------------------------------------------------------------
// Running one case
// ------------------------------------------------------------------------------------------------

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Run `f`; a panic becomes `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

/// Run `f`; a panic becomes a failure of the property.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    no_panic(f).map_err(|m| Fail::new(format!("panic:{}", what), format!("{} panicked: {}", what, m)))
}

fn run_case(p: &Prop, src: &mut Src, case: &mut Case) -> Res {
    match no_panic(|| (p.run)(src, case)) {
        Ok(r) => r,
        Err(m) => Err(Fail::new("panic", format!("panicked: {}", m))),
    }
}

// ------------------------------------------------------------------------------------------------
// Shrinking
// ------------------------------------------------------------------------------------------------

pub fn shrink(
    mut best: Vec<u64>,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
    budget: usize,
    limit: Duration,
) -> Vec<u64> {
    let start = Instant::now();
    let mut tries = 0usize;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        if tries >= budget || start.elapsed() > limit {
            return false;
        }
        tries += 1;
        if let Some(rec) = fails(cand) {
            // accept only if simpler: shorter, or same length and lexicographically smaller
            if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                *best = rec;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        for k in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                if lo < best.len() && lo > 0 {
                    let mut c = best.clone();
                    c.drain(lo..i.min(c.len()));
                    if attempt(&c, &mut best) {
                        i = i.min(best.len());
                        continue;
                    }
                    // deletion that also lowers the preceding choice (a length or flag)
                    let mut c = best.clone();
                    c.drain(lo..i.min(c.len()));
                    if lo > 0 && lo <= c.len() && c[lo - 1] > 0 {
                        c[lo - 1] -= 1;
                        if attempt(&c, &mut best) {
                            i = i.min(best.len());
                            continue;
                        }
                    }
                }
                i -= 1;
            }
        }
        // zero blocks, lower single values
        for k in [8usize, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|v| *v > 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|v| *v = 0);
                    let _ = attempt(&c, &mut best);
                }
                i += 1;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            if hi > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(&c, &mut best) {
                    let mut rounds = 0;
                    while lo + 1 < hi && i < best.len() && rounds < 24 {
                        rounds += 1;
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(&c, &mut best) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        let _ = attempt(&c, &mut best);
                    }
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > limit {
            return best;
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Worker
// ------------------------------------------------------------------------------------------------

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    let mut s = seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ h ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s)
}

fn case_budget(p: &Prop, tier: &str) -> u64 {
    if let Ok(n) = std::env::var("VH_CASES") {
        if let Ok(n) = n.parse() {
            return n;
        }
    }
    if tier == "thorough" {
        p.thorough
    } else {
        p.quick
    }
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: u64,
    keys: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// Wall-clock watchdog: when it fires, the case is looked at again on its own.
const HANG_SECS: u64 = 60;
/// A case alone gets this much processor time; they normally need well under a tenth of a second.
const ALONE_CPU: f64 = 60.0;

/// Runs the cases `part`, `part + parts`, ... of one property in this process and leaves `report`
/// behind: either `ok` plus the counts, or `fail` plus the failing case, or `hang`.
pub fn worker(p: &'static Prop, tier: &str, seed: u64, part: u64, parts: u64, base: &Path) -> i32 {
    install_panic_hook();
    let report = base.join(format!("report.{}", part));
    let progress = base.join(format!("progress.{}", part));
    let keys_file = base.join(format!("keys.{}", part));
    let n = case_budget(p, tier);
    let prog = std::fs::File::create(&progress).expect("progress file");
    let start = Instant::now();
    let cap = Duration::from_secs(if tier == "thorough" { 3000 } else { 600 });

    let mut explicit_n = 0u64;
    if part == 0 {
        for e in (p.explicit)() {
            explicit_n += 1;
            let r = match no_panic(|| (e.run)()) {
                Ok(r) => r,
                Err(m) => Err(Fail::new("panic", format!("panicked: {}", m))),
            };
            if let Err(f) = r {
                let body = format!("fail\n{} 0 0\nexplicit={}\nsig={}\n{}\n", explicit_n, e.name, f.sig, f.detail);
                std::fs::write(&report, body).unwrap();
                return 1;
            }
        }
    }

    let beat: Arc<(AtomicU64, AtomicU64)> = Arc::new((AtomicU64::new(u64::MAX), AtomicU64::new(0)));
    {
        let beat = beat.clone();
        let report = report.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = start.elapsed().as_millis() as u64;
            let idx = beat.0.load(Ordering::SeqCst);
            let t = beat.1.load(Ordering::SeqCst);
            if idx != u64::MAX && now > t + HANG_SECS * 1000 {
                let _ = std::fs::write(&report, format!("hang\n{}\n", idx));
                std::process::exit(3);
            }
        });
    }

    let body = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut local = Totals::default();
            let step = (n / 10).max(1);
            let mut i = part;
            let mut since = 0u32;
            while i < n {
                since += 1;
                if since % 64 == 0 && start.elapsed() > cap {
                    break;
                }
                let _ = prog.write_at(&(i + 1).to_le_bytes(), 0);
                beat.1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                beat.0.store(i, Ordering::SeqCst);
                let mut src = Src::random(case_seed(seed, p.id, i));
                let mut case = Case { want_sample: i % step < 16, ..Default::default() };
                let r = run_case(p, &mut src, &mut case);
                beat.0.store(u64::MAX, Ordering::SeqCst);
                local.evaluations += 1 + case.evals;
                if case.nontrivial {
                    local.nontrivial += 1;
                    local.keys.insert(case.key);
                    if let Some(s) = case.sample {
                        if local.samples.len() < 12 {
                            local.samples.push((i, s));
                        }
                    }
                }
                for t in case.tags {
                    *local.tags.entry(t).or_insert(0) += 1;
                }
                if let Err(f) = r {
                    return failed(p, i, src.rec.clone(), f, &local, explicit_n);
                }
                i += parts;
            }
            let keys: Vec<u8> = local.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
            let _ = std::fs::write(&keys_file, keys);
            let mut body = format!("ok\n{} {} {}\n", local.evaluations + explicit_n, local.nontrivial, explicit_n);
            for (k, v) in &local.tags {
                body.push_str(&format!("tag {} {}\n", v, k));
            }
            for (i, s) in &local.samples {
                body.push_str(&format!("sample {} {}\n", i / step, esc(s)));
            }
            body
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| "lost\n".to_string());
    let failed = body.starts_with("fail");
    std::fs::write(&report, body).unwrap();
    if failed {
        1
    } else {
        0
    }
}

fn failed(p: &'static Prop, idx: u64, choices: Vec<u64>, first: Fail, t: &Totals, explicit_n: u64) -> String {
    let sig = first.sig.clone();
    let best = shrink(
        choices,
        |c| {
            let mut src = Src::replay(c.to_vec());
            let mut case = Case::default();
            match run_case(p, &mut src, &mut case) {
                Err(f) if f.sig == sig => Some(src.rec),
                _ => None,
            }
        },
        6000,
        Duration::from_secs(30),
    );
    let mut src = Src::replay(best.clone());
    let mut case = Case { want_sample: true, ..Default::default() };
    let f = run_case(p, &mut src, &mut case).err().unwrap_or(first);
    format!(
        "fail\n{} {} {}\ncase={}\nchoices={}\nsig={}\n{}\n{}\n",
        t.evaluations + explicit_n,
        t.nontrivial,
        t.keys.len(),
        idx,
        join(&best),
        f.sig,
        f.detail,
        case.sample.map(|s| format!("--- input ---\n{}", s)).unwrap_or_default()
    )
}

// ------------------------------------------------------------------------------------------------
// Supervisor
// ------------------------------------------------------------------------------------------------

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn write_replay(id: &str, name: &str, body: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.txt", id, name));
    let _ = std::fs::write(&path, body);
    path
}

fn spawn_self(args: &[String]) -> std::io::Result<std::process::Child> {
    let exe = std::env::current_exe()?;
    let noisy = std::env::var("VH_NOISY").is_ok();
    Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(if noisy { Stdio::inherit() } else { Stdio::null() })
        .stderr(if noisy { Stdio::inherit() } else { Stdio::null() })
        .spawn()
}

/// Runs `vh one` on a replay body in a child; true if it fails.
fn child_fails(id: &str, choices: &[u64], dir: &Path, secs: u64) -> bool {
    let f = dir.join("try.txt");
    let body = format!(
        "property={}\nchoices={}\n",
        id,
        join(choices)
    );
    std::fs::write(&f, body).unwrap();
    let mut ch = match spawn_self(&["replay".into(), f.display().to_string()]) {
        Ok(c) => c,
        Err(_) => return false,
    };
    let start = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => return !st.success(),
            Ok(None) => {
                if start.elapsed() > Duration::from_secs(secs) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return false;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            Err(_) => return false,
        }
    }
}

pub fn supervise(p: &'static Prop, tier: &str, seed: u64) -> i32 {
    let started = Instant::now();
    let dir = verif_dir().join("work").join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("work dir");
    let r = supervise_in(p, tier, seed, &dir, started);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn violation(id: &str, name: &str, body: String) -> i32 {
    let path = write_replay(id, name, &body);
    println!("{}", body.lines().take(60).collect::<Vec<_>>().join("\n"));
    println!("VIOLATION property={} replay={}", id, path.display());
    1
}

enum Ended {
    Ok(String),
    Fail(String),
    Hang(u64),
    /// died without a report: its last case
    Died(u64, std::process::ExitStatus),
}

/// Runs all parts; the first part that does not hold ends the run.
fn run_parts(p: &'static Prop, tier: &str, seed: u64, dir: &Path) -> Vec<Ended> {
    let parts = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).min(8) as u64;
    let mut children: Vec<Option<std::process::Child>> = Vec::new();
    for k in 0..parts {
        let _ = std::fs::remove_file(dir.join(format!("report.{}", k)));
        children.push(Some(
            spawn_self(&[
                "worker".into(),
                p.id.into(),
                tier.into(),
                seed.to_string(),
                k.to_string(),
                parts.to_string(),
                dir.display().to_string(),
            ])
            .expect("spawn worker"),
        ));
    }
    let mut done = Vec::new();
    let mut bad = false;
    while children.iter().any(|c| c.is_some()) {
        let mut idle = true;
        for (k, slot) in children.iter_mut().enumerate() {
            let status = match slot {
                Some(c) => match c.try_wait() {
                    Ok(Some(st)) => st,
                    _ => continue,
                },
                None => continue,
            };
            idle = false;
            *slot = None;
            let text = std::fs::read_to_string(dir.join(format!("report.{}", k))).unwrap_or_default();
            let end = match text.lines().next() {
                Some("ok") => Ended::Ok(text),
                Some("fail") => Ended::Fail(text),
                Some("hang") => Ended::Hang(text.lines().nth(1).and_then(|v| v.parse().ok()).unwrap_or(0)),
                _ => {
                    let b = std::fs::read(dir.join(format!("progress.{}", k))).unwrap_or_default();
                    let mut a = [0u8; 8];
                    if b.len() >= 8 {
                        a.copy_from_slice(&b[..8]);
                    }
                    Ended::Died(u64::from_le_bytes(a).saturating_sub(1), status)
                }
            };
            bad |= !matches!(end, Ended::Ok(_));
            done.push(end);
        }
        if bad {
            for slot in children.iter_mut() {
                if let Some(mut c) = slot.take() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
        }
        if idle {
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    done
}

enum Alone {
    Exit(std::process::ExitStatus),
    /// used up its processor-time allowance without finishing
    Spinning,
    /// neither finished nor used much processor time: the machine is too busy to tell
    Unknown,
}

/// Processor seconds used so far by a child of ours.
fn cpu_secs(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or("");
    let f: Vec<u64> = rest.split_whitespace().map(|v| v.parse().unwrap_or(0)).collect();
    if f.len() > 12 {
        (f[11] + f[12]) as f64 / 100.0
    } else {
        0.0
    }
}

/// Runs one case alone in a child with an allowance of processor time (not wall-clock time).
fn run_alone(spec: &str, rec: &Path, cpu: f64) -> Alone {
    let _ = std::fs::remove_file(rec);
    let mut ch = spawn_self(&["case".into(), spec.into(), rec.display().to_string()]).expect("spawn");
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => return Alone::Exit(st),
            _ => {
                let spinning = cpu_secs(ch.id()) > cpu;
                if spinning || t.elapsed() > Duration::from_secs(300) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return if spinning { Alone::Spinning } else { Alone::Unknown };
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
}

fn no_answer(id: &str, why: &str) -> i32 {
    println!("NO-ANSWER property={} {}", id, why);
    2
}

fn supervise_in(p: &'static Prop, tier: &str, seed: u64, dir: &Path, started: Instant) -> i32 {
    for attempt in 0..2 {
        let ends = run_parts(p, tier, seed, dir);
        let mut ev = Evidence { p, tier, seed, started, evaluations: 0, nontrivial: 0, distinct: 0, explicit: 0, tags: BTreeMap::new(), samples: Vec::new() };
        let mut keys: HashSet<u64> = HashSet::new();
        let mut bad = None;
        for (k, e) in ends.iter().enumerate() {
            match e {
                Ended::Ok(text) => {
                    let mut lines = text.lines().skip(1);
                    let c: Vec<u64> = lines.next().unwrap_or("").split(' ').filter_map(|v| v.parse().ok()).collect();
                    ev.evaluations += c.first().copied().unwrap_or(0);
                    ev.nontrivial += c.get(1).copied().unwrap_or(0);
                    ev.explicit += c.get(2).copied().unwrap_or(0);
                    for l in lines {
                        let mut it = l.splitn(3, ' ');
                        match (it.next(), it.next(), it.next()) {
                            (Some("tag"), Some(v), Some(k)) => {
                                *ev.tags.entry(k.to_string()).or_insert(0) += v.parse().unwrap_or(0)
                            }
                            (Some("sample"), Some(b), Some(s)) => {
                                let b: u64 = b.parse().unwrap_or(0);
                                if !ev.samples.iter().any(|x| x.0 == b) {
                                    ev.samples.push((b, s.to_string()));
                                }
                            }
                            _ => {}
                        }
                    }
                    let _ = k;
                }
                e => bad = Some(e),
            }
        }
        for k in 0..8 {
            let b = std::fs::read(dir.join(format!("keys.{}", k))).unwrap_or_default();
            for c in b.chunks_exact(8) {
                keys.insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
            }
        }
        ev.distinct = keys.len() as u64;
        ev.samples.sort();
        match bad {
            None => {
                install_panic_hook();
                for k in (p.known)() {
                    if let Ok(Some(what)) = no_panic(|| (k.probe)()) {
                        if known_listed(p.id, k.sig) {
                            println!("KNOWN-FINDING: property={} {}", p.id, what);
                        } else {
                            let body = format!("property={}\nexplicit=known:{}\nsig={}\n{}\n", p.id, k.sig, k.sig, what);
                            ev.write(1);
                            return violation(p.id, &format!("known-{}", k.sig), body);
                        }
                    }
                }
                ev.write(0);
                println!(
                    "property={} tier={} seed={} evaluations={} distinct_nontrivial={} explicit={} wall_s={:.1} : held",
                    p.id, tier, seed, ev.evaluations, ev.distinct, ev.explicit, started.elapsed().as_secs_f64()
                );
                return 0;
            }
            Some(Ended::Fail(text)) => {
                let mut lines = text.lines().skip(1);
                let c: Vec<u64> = lines.next().unwrap_or("").split(' ').filter_map(|v| v.parse().ok()).collect();
                ev.evaluations += c.first().copied().unwrap_or(0);
                ev.nontrivial += c.get(1).copied().unwrap_or(0);
                ev.distinct += c.get(2).copied().unwrap_or(0);
                let rest: Vec<&str> = lines.collect();
                let body = format!("property={}\nseed={}\n{}\n", p.id, seed, rest.join("\n"));
                ev.write(1);
                let mut h = DefaultHasher::new();
                body.hash(&mut h);
                return violation(p.id, &format!("{:08x}", h.finish() as u32), body);
            }
            Some(Ended::Hang(idx)) => {
                let spec = format!("{}:{}:{}", p.id, seed, idx);
                if let Alone::Spinning = run_alone(&spec, &dir.join("rec"), ALONE_CPU) {
                    let body = format!(
                        "property={}\nseed={}\ncase={}\nsig=no-termination\nrun alone, the case was still going after {} s of processor time\n",
                        p.id, seed, spec, ALONE_CPU
                    );
                    ev.write(1);
                    return violation(p.id, &format!("hang-{}", idx), body);
                }
            }
            Some(Ended::Died(idx, st)) => {
                // stack overflow, abort, out of memory: find out if this case does it
                let spec = format!("{}:{}:{}", p.id, seed, idx);
                let rec = dir.join("rec");
                let crashed = match run_alone(&spec, &rec, ALONE_CPU) {
                    // killed from outside (for example for memory): no answer
                    Alone::Exit(s) if s.signal() == Some(9) => false,
                    Alone::Exit(s) => s.signal().is_some() || s.code().map(|c| c > 1).unwrap_or(true),
                    _ => false,
                };
                if crashed {
                    let choices: Vec<u64> = std::fs::read_to_string(&rec)
                        .unwrap_or_default()
                        .split(',')
                        .filter_map(|x| x.trim().parse().ok())
                        .collect();
                    let mut best = choices.clone();
                    if !choices.is_empty() && child_fails(p.id, &choices, dir, 60) {
                        best = shrink(
                            choices,
                            |c| if child_fails(p.id, c, dir, 60) { Some(c.to_vec()) } else { None },
                            1500,
                            Duration::from_secs(45),
                        );
                    }
                    let body = format!(
                        "property={}\nseed={}\ncase={}\nchoices={}\nsig=crash\nthe process running the case died: {:?}\n",
                        p.id,
                        seed,
                        spec,
                        join(&best),
                        st
                    );
                    ev.write(1);
                    return violation(p.id, &format!("crash-{}", idx), body);
                }
                if attempt == 1 {
                    return no_answer(p.id, &format!("a worker died twice ({:?}) and no single case reproduces it", st));
                }
            }
            Some(Ended::Ok(_)) => unreachable!(),
        }
    }
    no_answer(p.id, "the run stalled twice")
}

fn known_listed(id: &str, sig: &str) -> bool {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let want = format!("finding: property={} sig={} ", id, sig);
    text.lines().any(|l| l.starts_with(&want))
}

struct Evidence<'a> {
    p: &'static Prop,
    tier: &'a str,
    seed: u64,
    started: Instant,
    evaluations: u64,
    nontrivial: u64,
    distinct: u64,
    explicit: u64,
    tags: BTreeMap<String, u64>,
    /// (bucket, already escaped text)
    samples: Vec<(u64, String)>,
}

impl Evidence<'_> {
    fn write(&self, violations: u64) {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let quoted = |it: Vec<String>| it.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(",\n      ");
        let tags: Vec<String> = self.tags.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
        let body = format!(
            "{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"nontrivial\": {},\n    \"explicit_cases\": {},\n    \"rule\": \"{}\",\n    \"classes\": {{{}}},\n    \"samples\": [\n      {}\n    ]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
            self.p.id,
            self.tier,
            self.seed,
            self.evaluations,
            self.distinct,
            self.nontrivial,
            self.explicit,
            esc(self.p.rule),
            tags.join(", "),
            quoted(self.samples.iter().map(|s| s.1.clone()).collect()),
            quoted(self.p.assumptions.iter().map(|a| esc(a)).collect()),
            self.started.elapsed().as_secs_f64(),
            violations
        );
        let _ = std::fs::write(dir.join(format!("{}.json", self.p.id)), body);
    }
}

// ------------------------------------------------------------------------------------------------
// Replays
// ------------------------------------------------------------------------------------------------

/// `vh case ID:SEED:IDX OUT`: run one generated case, leaving its choices in OUT before it runs.
pub fn one_case(p: &'static Prop, seed: u64, idx: u64, out: &Path) -> i32 {
    install_panic_hook();
    let out = out.to_path_buf();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut src = Src::random(case_seed(seed, p.id, idx));
            src.mirror = Some(out.clone());
            let mut case = Case::default();
            match run_case(p, &mut src, &mut case) {
                Ok(()) => 0,
                Err(f) => {
                    println!("{}: {}", f.sig, f.detail);
                    1
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2)
}

fn join(c: &[u64]) -> String {
    c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}

pub fn replay(file: &Path, props: &[&'static Prop]) -> i32 {
    install_panic_hook();
    let text = std::fs::read_to_string(file).expect("replay file");
    let mut id = String::new();
    let mut choices: Option<Vec<u64>> = None;
    let mut explicit = None;
    let mut case: Option<String> = None;
    for l in text.lines() {
        if let Some(v) = l.strip_prefix("property=") {
            if id.is_empty() {
                id = v.to_string();
            }
        } else if let Some(v) = l.strip_prefix("choices=") {
            let c: Vec<u64> = v.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            if !c.is_empty() {
                choices = Some(c);
            }
        } else if let Some(v) = l.strip_prefix("explicit=") {
            explicit = Some(v.to_string());
        } else if let Some(v) = l.strip_prefix("case=") {
            if v.contains(':') {
                case = Some(v.to_string());
            }
        }
    }
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => *p,
        None => {
            println!("unknown property {}", id);
            return 2;
        }
    };
    if let Some(name) = explicit {
        for e in (p.explicit)() {
            if e.name == name {
                return match no_panic(|| (e.run)()) {
                    Ok(Ok(())) => 0,
                    Ok(Err(f)) => {
                        println!("{}: {}", f.sig, f.detail);
                        1
                    }
                    Err(m) => {
                        println!("panicked: {}", m);
                        1
                    }
                };
            }
        }
        return 2;
    }
    let src = match (choices, case) {
        (Some(c), _) => Src::replay(c),
        (None, Some(spec)) => {
            let mut it = spec.split(':');
            let _ = it.next();
            let seed: u64 = it.next().and_then(|v| v.parse().ok()).unwrap_or(1);
            let idx: u64 = it.next().and_then(|v| v.parse().ok()).unwrap_or(0);
            Src::random(case_seed(seed, p.id, idx))
        }
        _ => Src::replay(Vec::new()),
    };
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut src = src;
            let mut case = Case { want_sample: true, ..Default::default() };
            let r = run_case(p, &mut src, &mut case);
            if let Some(s) = case.sample {
                println!("--- input ---\n{}\n-------------", s);
            }
            match r {
                Ok(()) => {
                    println!("replay: held");
                    0
                }
                Err(f) => {
                    println!("{}: {}", f.sig, f.detail);
                    1
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2)
}

pub fn dbg<T: Debug>(v: &T) -> String {
    format!("{:?}", v)
}

/// A directory of its own for a case; it goes with the value.
pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static NO: AtomicU64 = AtomicU64::new(0);
        let n = NO.fetch_add(1, Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("vh-scratch-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
