//! Monitoring runtime shared by the harness crates.
//!
//! A *check* is a list of sections; a section is a number of independent cases. Every case drives
//! the real code, observes what it does, and an oracle in the case returns `Err` when what was
//! observed refutes the property. A case is a function of (seed, section, index) only, so it can be
//! replayed on its own. The process that runs the cases is a child: the parent turns the death of
//! the child by a signal (stack overflow, abort) into a violation of the case it was running.
//!
//! Verdicts: 0 = held on what was observed, 1 = violated, 3 = inconclusive (error of the check).

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod gen;
pub mod rng;
pub use rng::Rng;

// ------------------------------------------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type Check = Result<(), Fail>;

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail {
            sig: String::new(),
            msg,
        }
    }
}

impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail::from(msg.to_string())
    }
}

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::Fail::from(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::Fail::from(format!($($arg)*))); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err($crate::Fail::from(format!(
                        "{}: observed {:?}, expected {:?}", format!($($arg)*), a, b)));
                }
            }
        }
    };
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// The state of one case: its source of randomness and what it observed.
pub struct Case<'a> {
    pub index: u64,
    pub tier: Tier,
    pub rng: Rng,
    pub replaying: bool,
    local: &'a mut Local,
}

#[derive(Default)]
struct Local {
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    enumerated: u64,
    samples: Vec<String>,
}

pub fn hash_of<T: Hash + ?Sized>(value: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    value.hash(&mut h);
    h.finish()
}

impl Case<'_> {
    /// Count an observed event.
    pub fn count(&mut self, event: &str, n: u64) {
        if let Some(v) = self.local.counts.get_mut(event) {
            *v += n;
        } else {
            self.local.counts.insert(event.to_string(), n);
        }
    }

    /// Record that a non-trivial case with this identity was judged by the oracle.
    pub fn distinct<T: Hash + ?Sized>(&mut self, value: &T) {
        self.local.distinct.insert(hash_of(value));
    }

    /// Record `n` cases of an enumeration, which are distinct because it does not repeat itself.
    pub fn distinct_enumerated(&mut self, n: u64) {
        self.local.enumerated += n;
    }

    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.local.samples.len() < 3 {
            let mut s = f();
            if s.len() > 400 {
                let mut i = 400;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push('…');
            }
            self.local.samples.push(s);
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

// ------------------------------------------------------------------------------------------------

struct Violation {
    section: String,
    index: u64,
    fail: Fail,
}

pub struct Runner {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    started: Instant,
    replay: Option<(String, u64)>,
    totals: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    enumerated: u64,
    evaluations: u64,
    samples: Vec<String>,
    violations: Vec<Violation>,
    known: Vec<(String, String)>,
    known_hit: BTreeSet<String>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    sections: Vec<(String, u64)>,
    inconclusive: Vec<String>,
    min_distinct: u64,
    exhaustive_notes: Vec<String>,
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Run `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

impl Runner {
    pub fn rule(&mut self, rule: &str) {
        self.rules.push(rule.to_string());
    }
    pub fn assume(&mut self, text: &str) {
        self.assumptions.push(text.to_string());
    }
    pub fn min_distinct(&mut self, n: u64) {
        self.min_distinct = n;
    }
    pub fn exhaustive(&mut self, note: &str) {
        self.exhaustive_notes.push(note.to_string());
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `quick` cases, or `mult` times as many in the thorough tier.
    pub fn n(&self, quick: u64, mult: u64) -> u64 {
        if self.thorough() {
            quick * mult
        } else {
            quick
        }
    }

    /// Run `n` cases in parallel.
    pub fn section<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(&mut Case<'_>) -> Check + Sync,
    {
        let threads = self.threads;
        self.section_on(name, n, threads, f)
    }

    /// Run `n` cases on one thread, for cases that observe process-wide state or start threads.
    pub fn section_seq<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(&mut Case<'_>) -> Check + Sync,
    {
        self.section_on(name, n, 1, f)
    }

    fn section_on<F>(&mut self, name: &str, n: u64, threads: usize, f: F)
    where
        F: Fn(&mut Case<'_>) -> Check + Sync,
    {
        let only = match &self.replay {
            Some((s, i)) if s == name => Some(*i),
            Some(_) => return,
            None => None,
        };
        let budget = Duration::from_secs(if self.thorough() { 240 } else { 100 });
        let t0 = Instant::now();
        let next = AtomicU64::new(only.unwrap_or(0));
        let end = only.map(|i| i + 1).unwrap_or(n);
        let failures: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
        let merged: Mutex<(Local, u64)> = Mutex::new((Local::default(), 0));
        let stop = AtomicBool::new(false);
        let journal = std::fs::OpenOptions::new()
            .write(true)
            .open(std::env::var("VMON_JOURNAL").unwrap_or_else(|_| "/dev/null".into()))
            .ok();
        let (tier, seed, property, replaying) =
            (self.tier, self.seed, self.property.clone(), only.is_some());
        let known: HashSet<String> = self.known.iter().map(|k| k.0.clone()).collect();
        let known_hits: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
        let slots = AtomicUsize::new(0);
        std::thread::scope(|scope| {
            for _ in 0..threads.min((end - next.load(Ordering::Relaxed)).max(1) as usize) {
                let body = || {
                    let slot = slots.fetch_add(1, Ordering::Relaxed);
                    let mut local = Local::default();
                    let mut evaluated = 0u64;
                    loop {
                        let index = next.fetch_add(1, Ordering::Relaxed);
                        if index >= end || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if evaluated % 16 == 0 && t0.elapsed() > budget {
                            break;
                        }
                        if let Some(j) = &journal {
                            let line = format!("{:<48}{:>15}\n", name, index);
                            let _ = j.write_at(line.as_bytes(), (slot * 64) as u64);
                        }
                        let rng = Rng::new(seed ^ hash_of(&(property.as_str(), name, index)));
                        let mut case = Case {
                            index,
                            tier,
                            rng,
                            replaying,
                            local: &mut local,
                        };
                        let r = match catch(|| f(&mut case)) {
                            Ok(r) => r,
                            Err(p) => Err(Fail::from(format!("panic: {p}"))),
                        };
                        PROGRESS.fetch_add(1, Ordering::Relaxed);
                        evaluated += 1;
                        if let Err(fail) = r {
                            if !fail.sig.is_empty() && known.contains(&fail.sig) {
                                known_hits.lock().unwrap().insert(fail.sig.clone());
                            } else {
                                let mut v = failures.lock().unwrap();
                                v.push(Violation {
                                    section: name.to_string(),
                                    index,
                                    fail,
                                });
                                if v.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    if let Some(j) = &journal {
                        let line = format!("{:<48}{:>15}\n", "-", 0);
                        let _ = j.write_at(line.as_bytes(), (slot * 64) as u64);
                    }
                    let mut m = merged.lock().unwrap();
                    for (k, v) in local.counts {
                        *m.0.counts.entry(k).or_default() += v;
                    }
                    m.0.distinct.extend(local.distinct);
                    m.0.enumerated += local.enumerated;
                    let room = 4usize.saturating_sub(m.0.samples.len());
                    m.0.samples.extend(local.samples.into_iter().take(room));
                    m.1 += evaluated;
                };
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(scope, body)
                    .expect("spawn worker");
            }
        });
        let (local, evaluated) = merged.into_inner().unwrap();
        for (k, v) in local.counts {
            *self.totals.entry(k).or_default() += v;
        }
        self.distinct.extend(local.distinct);
        self.enumerated += local.enumerated;
        self.samples.extend(
            local
                .samples
                .into_iter()
                .take(3)
                .map(|s| format!("[{name}] {s}")),
        );
        self.evaluations += evaluated;
        self.sections.push((name.to_string(), evaluated));
        if evaluated == 0 && n > 0 {
            self.inconclusive.push(format!("section {name} ran no case"));
        }
        self.known_hit.extend(known_hits.into_inner().unwrap());
        self.violations.extend(failures.into_inner().unwrap());
    }

    /// The observed number of an event; used to require that a workload reached something.
    pub fn require(&mut self, event: &str, at_least: u64) {
        if self.replay.is_some() || !self.violations.is_empty() {
            return;
        }
        let n = self.totals.get(event).copied().unwrap_or(0);
        if n < at_least {
            self.inconclusive
                .push(format!("observed {n} {event}, fewer than {at_least}"));
        }
    }

    fn distinct_total(&self) -> u64 {
        self.distinct.len() as u64 + self.enumerated
    }

    fn finish(mut self) -> i32 {
        let dir = verif_dir();
        let wall = self.started.elapsed().as_secs_f64();
        if self.replay.is_some() {
            for v in &self.violations {
                println!("REPRODUCED {} #{}: {}", v.section, v.index, v.fail.msg);
            }
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        if self.violations.is_empty() && self.distinct_total() < self.min_distinct {
            self.inconclusive.push(format!(
                "{} distinct cases, fewer than {}",
                self.distinct_total(),
                self.min_distinct
            ));
        }
        let mut e = String::new();
        let _ = write!(
            e,
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            js(&self.property),
            if self.thorough() { "thorough" } else { "quick" },
            self.seed,
            self.evaluations,
            self.distinct_total(),
            js(&self.rules.join(" ")),
        );
        let _ = write!(
            e,
            "  \"observed_events\": {{{}}},\n",
            self.totals
                .iter()
                .map(|(k, v)| format!("{}: {}", js(k), v))
                .collect::<Vec<_>>()
                .join(", ")
        );
        let _ = write!(
            e,
            "  \"sections\": {{{}}},\n",
            self.sections
                .iter()
                .map(|(k, v)| format!("{}: {}", js(k), v))
                .collect::<Vec<_>>()
                .join(", ")
        );
        if !self.exhaustive_notes.is_empty() {
            let _ = write!(
                e,
                "  \"enumerated_completely\": [{}],\n",
                self.exhaustive_notes
                    .iter()
                    .map(|s| js(s))
                    .collect::<Vec<_>>()
                    .join(", ")
            );
        }
        let _ = write!(
            e,
            "  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.samples
                .iter()
                .take(12)
                .map(|s| js(s))
                .collect::<Vec<_>>()
                .join(", "),
            self.assumptions
                .iter()
                .map(|s| js(s))
                .collect::<Vec<_>>()
                .join(", "),
            wall,
            self.violations.len()
        );
        let _ = std::fs::create_dir_all(dir.join("evidence"));
        if let Err(err) = std::fs::write(dir.join("evidence").join(format!("{}.json", self.property)), e)
        {
            eprintln!("cannot write evidence: {err}");
            return 3;
        }
        for (sig, what) in &self.known {
            if self.known_hit.contains(sig) {
                println!("KNOWN-FINDING: property={} {}", self.property, what);
            }
        }
        if !self.violations.is_empty() {
            for (i, v) in self.violations.iter().enumerate() {
                let path = write_replay(&self.property, self.tier, self.seed, &v.section, v.index, &v.fail.msg, i);
                println!("VIOLATION property={} replay={}", self.property, path);
                println!("  section {} case {}: {}", v.section, v.index, clip(&v.fail.msg, 1500));
            }
            return 1;
        }
        if !self.inconclusive.is_empty() {
            for m in &self.inconclusive {
                eprintln!("INCONCLUSIVE property={} {}", self.property, m);
            }
            return 3;
        }
        println!(
            "HELD property={} evaluations={} distinct={} wall_s={:.1}",
            self.property,
            self.evaluations,
            self.distinct_total(),
            wall
        );
        0
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}…", &s[..i])
}

fn write_replay(property: &str, tier: Tier, seed: u64, section: &str, index: u64, msg: &str, n: usize) -> String {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{property}-{n}.json"));
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"section\": {},\n \"case\": {},\n \"observed\": {},\n \"replay\": {}\n}}\n",
        js(property),
        if tier == Tier::Thorough { "thorough" } else { "quick" },
        seed,
        js(section),
        index,
        js(msg),
        js(&format!("VERIF_SEED={seed} VERIF_TIER={} sh check.sh {property} --replay {section} {index}",
            if tier == Tier::Thorough { "thorough" } else { "quick" })),
    );
    let _ = std::fs::write(&path, text);
    path.display().to_string()
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{2029}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------------------------------------

/// Lines of known_findings.txt: `known: property=<id> sig=<signature> <what fails>`; lines that
/// start with `fixed:` or `#` suppress nothing.
fn load_known(property: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut parts = rest.splitn(3, ' ');
            let p = parts.next().and_then(|p| p.strip_prefix("property="));
            let s = parts.next().and_then(|p| p.strip_prefix("sig="));
            if let (Some(p), Some(s)) = (p, s) {
                if p == property {
                    out.push((s.to_string(), parts.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    out
}

fn process_cpu_ticks() -> u64 {
    cpu_ticks("/proc/self/stat")
}

/// The time, in hundredths of a second, that what a stat file of /proc is about has had a processor.
pub fn cpu_ticks(stat: &str) -> u64 {
    let s = std::fs::read_to_string(stat).unwrap_or_default();
    let rest = s.rsplit_once(')').map(|x| x.1).unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

/// Entry point of a harness binary: `<bin> <property> [--replay <section> <index>]`.
pub fn main_with(checks: &[(&str, fn(&mut Runner))]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let property = args.first().cloned().unwrap_or_default();
    if property == "--list" {
        for c in checks {
            println!("{}", c.0);
        }
        return;
    }
    let Some((_, f)) = checks.iter().find(|(id, _)| *id == property) else {
        eprintln!("unknown property {property:?}");
        std::process::exit(3);
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let replay = match args.get(1).map(|s| s.as_str()) {
        Some("--replay") => Some((
            args.get(2).cloned().unwrap_or_default(),
            args.get(3).and_then(|s| s.parse().ok()).unwrap_or(0),
        )),
        _ => None,
    };

    if std::env::var_os("VMON_CHILD").is_none() && std::env::var_os("VMON_NOFORK").is_none() {
        std::process::exit(parent(&property, tier, seed, &args));
    }

    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if IN_CASE.with(|c| c.get()) {
            PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {at}"));
        } else {
            eprintln!("panic outside a case: {msg} at {at}");
        }
    }));

    let threads = std::env::var("VMON_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let mut runner = Runner {
        property: property.clone(),
        tier,
        seed,
        threads,
        started: Instant::now(),
        replay,
        totals: BTreeMap::new(),
        distinct: HashSet::new(),
        enumerated: 0,
        evaluations: 0,
        samples: Vec::new(),
        violations: Vec::new(),
        known: load_known(&property),
        known_hit: BTreeSet::new(),
        rules: Vec::new(),
        assumptions: Vec::new(),
        sections: Vec::new(),
        inconclusive: Vec::new(),
        min_distinct: 1,
        exhaustive_notes: Vec::new(),
    };

    // A case whose code under test makes no progress for a very large amount of CPU time (cases take
    // micro- to milliseconds) does not terminate. CPU time, not wall-clock time: load does not matter.
    WATCH.store(true, Ordering::Relaxed);
    let hang_ticks: u64 = std::env::var("VMON_HANG_CPU_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(120)
        * 100;
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::Relaxed), process_cpu_ticks());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::Relaxed);
            let cpu = process_cpu_ticks();
            if !WATCH.load(Ordering::Relaxed) {
                return;
            }
            if now != last.0 {
                last = (now, cpu);
            } else if cpu - last.1 > hang_ticks {
                std::process::exit(77);
            }
        }
    });

    f(&mut runner);
    WATCH.store(false, Ordering::Relaxed);
    let code = runner.finish();
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn parent(property: &str, tier: Tier, seed: u64, args: &[String]) -> i32 {
    let journal = std::env::temp_dir().join(format!("vmon-{property}-{}", std::process::id()));
    let _ = std::fs::write(&journal, b"");
    // evidence of an earlier run must not be taken for this one's
    let _ = std::fs::remove_file(verif_dir().join("evidence").join(format!("{property}.json")));
    let exe = std::env::current_exe().expect("current_exe");
    let mut child = match std::process::Command::new(exe)
        .args(args)
        .env("VMON_CHILD", "1")
        .env("VMON_JOURNAL", &journal)
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start child: {e}");
            return 3;
        }
    };
    // A generous wall-clock limit; its firing is inconclusive.
    let limit = Duration::from_secs(if tier == Tier::Thorough { 3600 } else { 600 });
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => {
                eprintln!("wait: {e}");
                return 3;
            }
        }
        if t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            let _ = std::fs::remove_file(&journal);
            eprintln!("INCONCLUSIVE property={property} wall-clock limit");
            return 3;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let running: Vec<String> = std::fs::read_to_string(&journal)
        .unwrap_or_default()
        .lines()
        .filter(|l| !l.starts_with('-') && !l.trim_matches(char::from(0)).trim().is_empty())
        .map(|l| l.split_whitespace().collect::<Vec<_>>().join(" "))
        .collect();
    let _ = std::fs::remove_file(&journal);
    let died = |what: &str| -> i32 {
        if running.is_empty() {
            eprintln!("INCONCLUSIVE property={property} {what} outside a case");
            return 3;
        }
        let (section, index) = running[0]
            .rsplit_once(' ')
            .map(|(a, b)| (a.to_string(), b.parse().unwrap_or(0)))
            .unwrap_or_default();
        let msg = format!("{what} while running: {}", running.join("; "));
        let path = write_replay(property, tier, seed, &section, index, &msg, 0);
        let text = format!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\"explanation\": {}, \"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"the run ended before its counts were collected\", \"samples\": [{}]}},\n \"wall_s\": {:.3},\n \"violations\": 1\n}}\n",
            js(property),
            if tier == Tier::Thorough { "thorough" } else { "quick" },
            seed,
            js(&msg),
            js(&msg),
            t0.elapsed().as_secs_f64()
        );
        let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
        let _ = std::fs::write(verif_dir().join("evidence").join(format!("{property}.json")), text);
        println!("VIOLATION property={property} replay={path}");
        println!("  {msg}");
        1
    };
    match (status.code(), status.signal()) {
        (Some(77), _) => died("the code under test did not return (no progress in 120 s of CPU time)"),
        (Some(c), _) => c,
        // 6 = abort (stack overflow, abort), 11 = segmentation fault, 4/7/8 = illegal instruction etc.
        (None, Some(s @ (4 | 6 | 7 | 8 | 11))) => died(&format!("the code under test crashed (signal {s})")),
        (None, s) => {
            eprintln!("INCONCLUSIVE property={property} child ended by signal {s:?}");
            3
        }
    }
}
