//! Shared machinery: deterministic case generation, violation reporting,
//! evidence, replay, crash/hang supervision.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- RNG
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    /// A block size: mostly one of the usual ones, which are small so that much happens at their edges.
    pub fn block(&mut self, usual: &[usize]) -> usize {
        if self.chance(1, 40) { *self.pick(&[33usize, 100, 128, 256, 441, 512, 1000]) } else { *self.pick(usual) }
    }
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f64()
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}
/// A name that is none of `names`, usually one that is nearly one of them.
pub fn near_name(rng: &mut Rng, names: &[&str]) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static MADE: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    for _ in 0..20 {
        let n = if names.is_empty() { "gain" } else { *rng.pick(names) };
        let cut = n.chars().count().saturating_sub(1);
        let first: String = n.chars().take(1).flat_map(|c| c.to_uppercase()).collect();
        let rest: String = n.chars().skip(1).collect();
        let s = match rng.below(14) {
            0 => n.to_uppercase(),
            1 => format!("{first}{rest}"),
            2 => n.chars().take(cut).collect(),
            3 => rest,
            4 => format!("{n}{}", rng.pick(&["s", " ", "_", "2", "0", "\0"])),
            5 => format!("{}{n}", rng.pick(&[" ", "_", "t_", "the_", "x"])),
            6 => n.replace('_', *rng.pick(&["", "-", " ", "__"])),
            7 => n.replace(['a', 'e', 'i', 'o', 'u'], ""),
            8 => n.chars().rev().collect(),
            9 => n.split('_').next().unwrap_or("").to_string(),
            10 => format!("{}", rng.below(names.len() + 2)),
            11 => String::new(),
            12 => format!("{n}{}", if names.len() > 1 { names[rng.below(names.len())] } else { "_" }),
            _ => rng.pick(&["nothing", "delta", "not_a_param", "process", "Gain", "param"]).to_string(),
        };
        if names.iter().all(|x| *x != s) {
            let mut made = MADE.lock().unwrap_or_else(|e| e.into_inner());
            let made = made.get_or_insert_with(HashSet::new);
            if let Some(x) = made.get(s.as_str()) {
                return x;
            }
            let x: &'static str = Box::leak(s.into_boxed_str());
            made.insert(x);
            return x;
        }
    }
    "no parameter has this name"
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}
pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

// ---------------------------------------------------------------- cases
/// A violation found by an oracle. `key` identifies the kind of failure (used
/// to match known findings), `msg` describes it.
#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Violation>;
pub fn viol<T>(key: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { key: key.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! bail {
    ($key:expr, $($a:tt)*) => { return $crate::common::viol($key, format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { return $crate::common::viol($key, format!($($a)*)); } };
}

pub struct Case {
    pub rng: Rng,
    pub index: usize,
    pub log: Vec<String>,
    pub sig: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub thorough: bool,
}
impl Case {
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.sig = mix(self.sig, hash_str(&s));
        if self.log.len() < 400 {
            self.log.push(s);
        }
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_insert(0) += n;
    }
    /// Marks the case as having exercised the thing the property talks about.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

struct Slot {
    start: AtomicU64, // ms since run start, 0 = idle
    index: AtomicUsize,
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    sigs: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<&'static str, u64>,
    violations: Vec<(String, usize, Violation, Vec<String>)>,
    per_scenario: BTreeMap<String, (u64, u64)>,
    known_hit: BTreeMap<String, u64>,
}

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub only: Option<(String, Vec<usize>)>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub budget: Duration,
    pub threads: usize,
    /// seconds after which a single case counts as hung
    pub hang_s: u64,
    pub scale: f64,
    /// one part of a check made of several, and the share of the cases for this process
    pub part: String,
    slice: Option<(usize, usize)>,
    agg: Mutex<Agg>,
    progress: Option<std::fs::File>,
    known: Vec<(String, String)>,
    pub extra: Mutex<BTreeMap<String, String>>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static QUIET_PANICS: RefCell<bool> = const { RefCell::new(false) };
}
pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("KVERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET_PANICS.with(|q| *q.borrow());
        let msg = format!(
            "{} at {}",
            if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            },
            info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()
        );
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(msg));
        if !quiet {
            default(info);
        }
    }));
}
/// Run `f`; a panic in it becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET_PANICS.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET_PANICS.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn env_num(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|s| s.parse().ok())
}
/// What tells the files of one part of a check from those of the others.
fn suffix() -> String {
    let part = std::env::var("KVERIF_PART").map(|p| format!("-{p}")).unwrap_or_default();
    let slice = std::env::var("KVERIF_SLICE").map(|p| format!("-{p}")).unwrap_or_default();
    part + &slice
}
/// The evidence of the check, or of the part of it that is put together later.
fn evidence_path(prop: &str) -> std::path::PathBuf {
    match std::env::var("KVERIF_PARTS_DIR") {
        Ok(d) => std::path::PathBuf::from(d).join(format!("{prop}{}.json", suffix())),
        Err(_) => verif_dir().join(format!("evidence/{prop}.json")),
    }
}

impl Run {
    pub fn new(prop: &str) -> Self {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { tier } else { "quick".to_string() };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let progress = std::env::var("KVERIF_PROGRESS").ok().and_then(|p| {
            std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(false).open(p).ok()
        });
        let known = load_known(prop);
        let thorough = tier == "thorough";
        let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        Run {
            prop: prop.into(),
            budget: Duration::from_secs(
                env_num("KVERIF_BUDGET").unwrap_or(if thorough { 600 } else { 120 }),
            ),
            slice: env_num("KVERIF_SLICE").map(|k| (k as usize, env_num("KVERIF_SLICES").unwrap_or(1) as usize)),
            part: std::env::var("KVERIF_PART").unwrap_or_default(),
            tier,
            seed,
            start: Instant::now(),
            only: None,
            rule: String::new(),
            assumptions: vec![],
            threads: cpus,
            hang_s: 180,
            scale: std::env::var("KVERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            agg: Mutex::new(Agg::default()),
            progress,
            known,
            extra: Mutex::new(BTreeMap::new()),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// quick/thorough number of cases
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        // C07 runs the same under sanitizers and in an interpreter, where everything takes longer
        let often = if self.prop == "C07" { 1 } else { 3 };
        let n = if self.thorough() { thorough } else { quick * often };
        ((n as f64 * self.scale) as usize).max(1)
    }
    pub fn extra(&self, k: &str, v: impl Into<String>) {
        self.extra.lock().unwrap().insert(k.into(), v.into());
    }

    /// Run `n` independent, deterministic cases of a scenario on all cores.
    pub fn cases(&self, scenario: &str, n: usize, f: impl Fn(&mut Case) -> Res + Sync) {
        self.cases_t(scenario, n, self.threads, f)
    }
    pub fn cases_t(
        &self,
        scenario: &str,
        n: usize,
        threads: usize,
        f: impl Fn(&mut Case) -> Res + Sync,
    ) {
        let indices: Option<Vec<usize>> = match &self.only {
            Some((s, idx)) => {
                if s != scenario {
                    return;
                }
                Some(idx.clone())
            }
            None => self.slice.map(|(k, of)| (0..n).filter(|i| i % of == k).collect()),
        };
        let next = AtomicUsize::new(0);
        let total = indices.as_ref().map(|i| i.len()).unwrap_or(n);
        let threads = threads.min(total.max(1)).max(1);
        let slots: Vec<Slot> = (0..threads)
            .map(|_| Slot { start: AtomicU64::new(0), index: AtomicUsize::new(0) })
            .collect();
        let done = AtomicBool::new(false);
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for t in 0..threads {
                let slots = &slots;
                let next = &next;
                let indices = &indices;
                let f = &f;
                let stop = &stop;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            loop {
                                let k = next.fetch_add(1, Ordering::Relaxed);
                                if k >= total
                                    || stop.load(Ordering::Relaxed)
                                    || self.start.elapsed() > self.budget
                                {
                                    break;
                                }
                                let i = indices.as_ref().map(|v| v[k]).unwrap_or(k);
                                slots[t].index.store(i, Ordering::Relaxed);
                                slots[t]
                                    .start
                                    .store(self.start.elapsed().as_millis() as u64 + 1, Ordering::Release);
                                if let Some(p) = &self.progress {
                                    let rec = format!("{:<40}{:>22}\n", scenario, i);
                                    let _ = p.write_at(rec.as_bytes(), (t * 64) as u64);
                                }
                                let v = self.one(scenario, i, f);
                                slots[t].start.store(0, Ordering::Release);
                                if v >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            if let Some(p) = &self.progress {
                                let rec = format!("{:<40}{:>22}\n", "-", 0);
                                let _ = p.write_at(rec.as_bytes(), (t * 64) as u64);
                            }
                        })
                        .unwrap(),
                );
            }
            // watchdog
            let slots = &slots;
            let done = &done;
            let wd = sc.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(200));
                    let now = self.start.elapsed().as_millis() as u64;
                    for s in slots {
                        let st = s.start.load(Ordering::Acquire);
                        if st != 0 && now.saturating_sub(st) > self.hang_s * 1000 {
                            let i = s.index.load(Ordering::Relaxed);
                            let v = Violation {
                                key: "hang".into(),
                                msg: format!("case did not finish within {} s", self.hang_s),
                            };
                            if let Ok(mut a) = self.agg.try_lock() {
                                a.violations.push((scenario.into(), i, v, vec![]));
                            }
                            std::process::exit(self.finish());
                        }
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, Ordering::Relaxed);
            wd.thread().unpark();
        });
    }
    fn one(&self, scenario: &str, i: usize, f: &(impl Fn(&mut Case) -> Res + Sync)) -> usize {
        let s = mix(mix(self.seed, hash_str(&self.prop)), mix(hash_str(scenario), i as u64));
        let mut c = Case {
            rng: Rng::new(s),
            index: i,
            log: vec![],
            sig: hash_str(scenario),
            nontrivial: false,
            counters: BTreeMap::new(),
            thorough: self.thorough(),
        };
        crate::probe::runs_from(i as u64);
        let r = guarded(|| f(&mut c));
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(Violation { key: format!("panic"), msg: format!("panic: {p}") }),
        };
        let mut a = self.agg.lock().unwrap();
        a.evaluations += 1;
        let e = a.per_scenario.entry(scenario.into()).or_insert((0, 0));
        e.0 += 1;
        if c.nontrivial {
            e.1 += 1;
            a.sigs.insert(c.sig);
            let per = a.samples.iter().filter(|s| s.starts_with(scenario)).count();
            if per < 2 && a.samples.len() < 24 {
                let txt: Vec<String> = c.log.iter().take(40).cloned().collect();
                a.samples.push(format!("{scenario}#{i}: {}", txt.join("; ")));
            }
        }
        for (k, v) in c.counters {
            *a.counters.entry(k).or_insert(0) += v;
        }
        if let Err(v) = r {
            if let Some((id, _)) = self.known.iter().find(|(id, pat)| {
                let _ = id;
                *pat == v.key
            }) {
                *a.known_hit.entry(id.clone()).or_insert(0) += 1;
            } else {
                a.violations.push((scenario.into(), i, v, c.log));
            }
        }
        a.violations.len()
    }
    pub fn count(&self, what: &'static str, n: u64) {
        *self.agg.lock().unwrap().counters.entry(what).or_insert(0) += n;
    }

    /// Write evidence, print violations; returns the exit code.
    pub fn finish(&self) -> i32 {
        let a = self.agg.lock().unwrap();
        let dir = verif_dir();
        let _ = std::fs::create_dir_all(dir.join("evidence"));
        let _ = std::fs::create_dir_all(dir.join("replays"));
        if self.only.is_none() {
            let mut s = String::new();
            s.push_str("{\n");
            s.push_str(&format!(" \"property\": {},\n", js(&self.prop)));
            s.push_str(&format!(" \"tier\": {},\n", js(&self.tier)));
            s.push_str(&format!(" \"seed\": {},\n", self.seed));
            s.push_str(" \"level\": \"exploration\",\n \"coverage\": {\n");
            s.push_str(&format!("  \"evaluations\": {},\n", a.evaluations));
            s.push_str(&format!("  \"distinct_nontrivial\": {},\n", a.sigs.len()));
            s.push_str(&format!("  \"rule\": {},\n", js(&self.rule)));
            let sm: Vec<String> = a.samples.iter().map(|x| js(x)).collect();
            s.push_str(&format!("  \"samples\": [{}],\n", sm.join(",\n   ")));
            let sc: Vec<String> = a
                .per_scenario
                .iter()
                .map(|(k, (n, t))| format!("{}: {{\"cases\": {n}, \"nontrivial\": {t}}}", js(k)))
                .collect();
            s.push_str(&format!("  \"scenarios\": {{{}}},\n", sc.join(", ")));
            let ct: Vec<String> =
                a.counters.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
            s.push_str(&format!("  \"observed\": {{{}}},\n", ct.join(", ")));
            for (k, v) in self.extra.lock().unwrap().iter() {
                s.push_str(&format!("  {}: {},\n", js(k), js(v)));
            }
            s.push_str(&format!("  \"exhaustive\": false\n }},\n"));
            let asm: Vec<String> = self.assumptions.iter().map(|x| js(x)).collect();
            s.push_str(&format!(" \"assumptions\": [{}],\n", asm.join(", ")));
            s.push_str(&format!(" \"violations\": {},\n", a.violations.len()));
            s.push_str(&format!(" \"wall_s\": {:.3}\n}}\n", self.start.elapsed().as_secs_f64()));
            let _ = std::fs::write(evidence_path(&self.prop), s);
        }
        for (id, _) in &self.known {
            let hits = a.known_hit.get(id).copied().unwrap_or(0);
            println!("KNOWN-FINDING: property={} {} (seen {hits}x in this run)", self.prop, id);
        }
        let mut code = 0;
        for (k, (sc, i, v, log)) in a.violations.iter().enumerate() {
            code = 1;
            let path = dir.join(format!("replays/{}{}-{}.replay", self.prop, suffix(), k));
            let mut o = String::new();
            o.push_str(&format!(
                "property={}\npart={}\nscenario={}\nindices={}\nseed={}\ntier={}\nkey={}\nmsg={}\n",
                self.prop, self.part, sc, i, self.seed, self.tier, v.key, v.msg.replace('\n', " | ")
            ));
            for l in log {
                o.push_str(&format!("# {}\n", l.replace('\n', " | ")));
            }
            let _ = std::fs::write(&path, o);
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            println!("  [{}#{}] {}: {}", sc, i, v.key, v.msg);
        }
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
            self.prop,
            self.tier,
            a.evaluations,
            a.sigs.len(),
            a.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::io::stdout().flush();
        code
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// known-findings.txt lines: `finding: property=C01 id=<key> <what fails>`;
/// `fixed: property=...` lines are documentation only.
fn load_known(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=");
                let k = it.next().unwrap_or("").trim_start_matches("id=");
                let d = it.next().unwrap_or("");
                if p == prop {
                    v.push((format!("{k}: {d}"), k.to_string()));
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- supervision
/// Run this same binary as a child for the property, and turn a crash of the
/// child (signal, abort) into a violation naming the cases in flight.
pub fn supervise(prop: &str, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(dir.join("replays"));
    let prog = dir.join(format!("replays/.progress-{}{}", prop, suffix()));
    let _ = std::fs::write(&prog, "");
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("work").args(args).env("KVERIF_PROGRESS", &prog);
    let start = Instant::now();
    let st = match cmd.status() {
        Ok(s) => s,
        Err(e) => {
            eprintln!("could not start worker: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code() {
        if c == 0 || c == 1 || c == 2 {
            return c;
        }
        if c != 66 && c != 101 && c != 23 && c != 99 {
            // an exit code of our own
            return 2;
        }
        if c == 101 {
            eprintln!("worker panicked outside of a case");
            return 2;
        }
    }
    let sig = st.signal();
    if sig == Some(9) {
        eprintln!("worker was killed (out of memory?)");
        return 2;
    }
    let text = std::fs::read_to_string(&prog).unwrap_or_default().replace(char::from(0), "\n");
    let mut cases: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in text.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() == 2 && p[0] != "-" {
            cases.entry(p[0].into()).or_default().push(p[1].into());
        }
    }
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let what = match sig {
        Some(s) => format!("the process died with signal {s}"),
        None => format!("a sanitizer stopped the process (exit {:?})", st.code()),
    };
    let path = dir.join(format!("replays/{prop}{}-crash.replay", suffix()));
    let mut o = String::new();
    for (s, i) in &cases {
        o.push_str(&format!(
            "property={prop}\npart={}\nscenario={s}\nindices={}\nseed={seed}\ntier={tier}\nkey=crash\nmsg={what}\n",
            std::env::var("KVERIF_PART").unwrap_or_default(),
            i.join(",")
        ));
    }
    let _ = std::fs::write(&path, &o);
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    let _ = std::fs::write(
        evidence_path(prop),
        format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"worker crashed\", \"samples\": [{}]}}, \"violations\": 1, \"wall_s\": {:.3}}}\n",
            js(prop), js(&tier), js(&o), start.elapsed().as_secs_f64()
        ),
    );
    println!("VIOLATION property={prop} replay={}", path.display());
    println!("  {what}; cases in flight: {cases:?}");
    1
}
pub fn parse_replay(path: &str) -> Option<(String, String, Vec<usize>, u64, String)> {
    let t = std::fs::read_to_string(path).ok()?;
    let (mut p, mut s, mut i, mut seed, mut tier) =
        (String::new(), String::new(), vec![], 1u64, String::from("quick"));
    for l in t.lines() {
        if let Some((k, v)) = l.split_once('=') {
            match k {
                "property" => p = v.into(),
                "scenario" => s = v.into(),
                "indices" => i = v.split(',').filter_map(|x| x.parse().ok()).collect(),
                "seed" => seed = v.parse().unwrap_or(1),
                "tier" => tier = v.into(),
                _ => {}
            }
        }
    }
    Some((p, s, i, seed, tier))
}
