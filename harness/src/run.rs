//! Case runner: threads, panic classification, statistics, evidence, supervisor.
use crate::mem::BudgetExceeded;
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
#[cfg(unix)]
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    /// Run only this case of this stage (replay).
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub evidence: String,
    pub root: String,
    pub deadline: Instant,
    /// Scale factor for case counts.
    pub scale: f64,
}

impl Cfg {
    pub fn n(&self, quick: u64) -> u64 {
        let m = match self.tier {
            Tier::Quick => 1.0,
            Tier::Thorough => 20.0,
        };
        ((quick as f64) * m * self.scale).ceil() as u64
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
}

/// Statistics of one worker, merged afterwards.
#[derive(Default)]
pub struct Local {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub skipped: u64,
    maxes: BTreeMap<String, u64>,
    fails: Vec<String>,
    slot: usize,
}

impl Local {
    /// One evaluation of the oracle on a non-trivial case identified by `key`.
    pub fn eval(&mut self, key: u64) {
        self.evals += 1;
        PROGRESS[self.slot].fetch_add(1, Ordering::Relaxed);
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(key);
        }
    }
    /// An evaluation that is trivial by the rule.
    pub fn eval_trivial(&mut self) {
        self.evals += 1;
        PROGRESS[self.slot].fetch_add(1, Ordering::Relaxed);
    }
    /// A case that is left out.
    pub fn skip(&mut self) {
        self.skipped += 1;
        PROGRESS[self.slot].fetch_add(1, Ordering::Relaxed);
    }
    pub fn class(&mut self, c: &str) {
        PROGRESS[self.slot].fetch_add(1, Ordering::Relaxed);
        if let Some(x) = self.classes.get_mut(c) {
            *x += 1
        } else {
            self.classes.insert(c.to_string(), 1);
        }
    }
    pub fn class_n(&mut self, c: &str, n: u64) {
        *self.classes.entry(c.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn max(&mut self, c: &str, v: u64) {
        let e = self.maxes.entry(c.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn fail(&mut self, s: String) {
        self.fails.push(s);
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
    x ^= x >> 29;
    x.wrapping_mul(0xbf58476d1ce4e5b9)
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub stage: String,
    pub case: u64,
    pub what: String,
}

#[derive(Default)]
pub struct Total {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub skipped: u64,
    pub viols: Vec<Viol>,
    pub harness_errors: Vec<String>,
    pub known: Vec<String>,
    pub notes: Vec<String>,
    pub cut_short: bool,
}

pub enum Pan {
    /// Panic raised by code under test (or its dependencies): location and message.
    Code(String),
    Budget(u64),
    /// Panic located in the harness itself.
    Harness(String),
}

thread_local! {
    static LAST: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Location and text of a panic, for code where panics do not unwind.
pub fn hook_to(note: fn(&str, &str)) {
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        note(&loc, &info.payload_as_str().unwrap_or("non-string payload").to_string());
    }));
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string payload".into()
        };
        LAST.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

/// Run code under test, turning a panic into a classified value.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Pan> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if let Some(b) = p.downcast_ref::<BudgetExceeded>() {
                return Err(Pan::Budget(b.0));
            }
            let (loc, msg) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/harness/src/") {
                Err(Pan::Harness(format!("{msg} at {loc}")))
            } else {
                Err(Pan::Code(format!("panic '{msg}' at {loc}")))
            }
        }
    }
}

pub struct Runner {
    pub cfg: Cfg,
    pub total: Mutex<Total>,
    slots: Option<std::fs::File>,
    stop: AtomicBool,
    pub started: Instant,
    /// What each worker is at: stage, case, since when, in which thread.
    at: Mutex<Vec<Option<(String, u64, Instant, String)>>>,
}

/// Bytes one worker may hold; beyond it the allocation fails and the process aborts.
const CAP: i64 = 3 << 30;
/// Evaluations done by each worker: a case of many evaluations that goes on does not hang.
static PROGRESS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
/// A case (an evaluation normally takes milliseconds) that has computed for so long, or has gone on for so long, with no
/// evaluation done, hangs.
const HANG_CPU: u64 = 60;
const HANG: Duration = Duration::from_secs(300);
/// Stages whose cases are runs of other programs with their own time: these say nothing about hanging.
fn outside(stage: &str) -> bool {
    stage.starts_with("miri") || stage.starts_with("w32") || stage.contains("Sanitizer")
}
/// This thread, as the system names it.
fn this_thread() -> String {
    std::fs::read_link("/proc/thread-self").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()
}
/// Seconds a thread has computed.
fn cpu_of(thread: &str) -> u64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{thread}/stat")) else { return 0 };
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

const MAX_VIOLS: usize = 3;

#[cfg(unix)]
fn put_slot(file: &std::fs::File, b: &[u8; 64], t: usize) {
    let _ = file.write_all_at(b, t as u64 * 64);
}
#[cfg(not(unix))]
fn put_slot(_: &std::fs::File, _: &[u8; 64], _: usize) {}

impl Runner {
    pub fn new(cfg: Cfg, slots: Option<std::fs::File>) -> Self {
        Runner { cfg, total: Mutex::new(Total::default()), slots, stop: AtomicBool::new(false), started: Instant::now(), at: Mutex::new(vec![None; 64]) }
    }

    pub fn known(&self, s: String) {
        let mut t = self.total.lock().unwrap();
        if !t.known.contains(&s) {
            t.known.push(s)
        }
    }

    /// Run cases 0..n of a stage on all threads.
    pub fn stage<F>(&self, stage: &str, n: u64, f: F)
    where
        F: Fn(&mut Rng, u64, &mut Local) + Sync,
    {
        if let Some((s, _)) = &self.cfg.only {
            if s != stage {
                return;
            }
        }
        let next = AtomicU64::new(0);
        let (lo, n) = match &self.cfg.only {
            Some((_, c)) => (*c, *c + 1),
            None => (0, n),
        };
        next.store(lo, Ordering::SeqCst);
        let threads = if self.cfg.only.is_some() { 1 } else { self.cfg.threads };
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            for t in 0..threads {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, move || self.worker(stage, t, next, n, f))
                    .expect("spawn");
            }
        });
        let mut tot = self.total.lock().unwrap();
        let e = tot.evals;
        tot.notes.push(format!("stage {stage}: {n} cases, {:.1} s, {e} evaluations so far", t0.elapsed().as_secs_f64()));
    }

    fn worker<F>(&self, stage: &str, t: usize, next: &AtomicU64, n: u64, f: &F)
    where
        F: Fn(&mut Rng, u64, &mut Local) + Sync,
    {
        let mut st = Local { slot: t, ..Local::default() };
        let mut viols = Vec::new();
        let mut herr = Vec::new();
        let mut cut = false;
        let mut slowest = 0;
        crate::alloc::cap(CAP);
        let me = this_thread();
        loop {
            if self.stop.load(Ordering::Relaxed) {
                break;
            }
            if Instant::now() > self.cfg.deadline {
                cut = true;
                break;
            }
            let case = next.fetch_add(1, Ordering::Relaxed);
            if case >= n {
                break;
            }
            if let Some(file) = &self.slots {
                let mut b = [0u8; 64];
                let s = format!("{stage} {case}");
                b[..s.len().min(63)].copy_from_slice(&s.as_bytes()[..s.len().min(63)]);
                put_slot(file, &b, t);
            }
            self.at.lock().unwrap()[t] = Some((stage.to_string(), case, Instant::now(), me.clone()));
            let began = Instant::now();
            let mut rng = Rng::for_case(self.cfg.seed, &format!("{}/{}", self.cfg.prop, stage), case);
            let r = guarded(|| f(&mut rng, case, &mut st));
            self.at.lock().unwrap()[t] = None;
            let took = began.elapsed().as_millis() as u64;
            if took > slowest {
                slowest = took;
                if took > 3000 && std::env::var_os("VERIF_SLOW").is_some() {
                    eprintln!("slow: {stage} case {case}: {took} ms");
                }
            }
            match r {
                Ok(()) => {}
                Err(Pan::Code(m)) => st.fail(m),
                Err(Pan::Budget(b)) => st.fail(format!("step budget exceeded ({b} accesses to storage)")),
                Err(Pan::Harness(m)) => {
                    herr.push(format!("{stage} case {case}: {m}"));
                    self.stop.store(true, Ordering::Relaxed);
                }
            }
            for what in st.fails.drain(..) {
                viols.push(Viol { stage: stage.to_string(), case, what });
            }
            if viols.len() >= MAX_VIOLS {
                self.stop.store(true, Ordering::Relaxed);
            }
        }
        if let Some(file) = &self.slots {
            put_slot(file, &[0u8; 64], t);
        }
        let mut tot = self.total.lock().unwrap();
        tot.evals += st.evals;
        tot.skipped += st.skipped;
        tot.distinct.extend(st.distinct);
        for (k, v) in st.classes {
            *tot.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in st.maxes {
            let e = tot.classes.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        for s in st.samples {
            if tot.samples.len() < 8 {
                tot.samples.push(s);
            }
        }
        tot.viols.extend(viols);
        tot.harness_errors.extend(herr);
        tot.cut_short |= cut;
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    /// Fewer distinct non-trivial evaluations than this is inconclusive (quick tier).
    pub min_distinct: u64,
    pub run: fn(&Runner),
}

/// Body of the child process. Exit status: 0 held, 1 violated, 2 harness error or inconclusive.
pub fn child(spec: &Spec, cfg: Cfg, slots: Option<std::fs::File>) -> i32 {
    install_hook();
    let r = Arc::new(Runner::new(cfg.clone(), slots));
    // watchdog: generous, its firing is inconclusive
    let limit = match cfg.tier {
        Tier::Quick => Duration::from_secs(700),
        Tier::Thorough => Duration::from_secs(4 * 3600),
    };
    let (wr, wc, wid, wlevel, wrule) = (r.clone(), cfg.clone(), spec.id, spec.level, spec.rule);
    std::thread::spawn(move || {
        let t0 = Instant::now();
        let mut seen: BTreeMap<(String, u64), (u64, u64, Instant)> = BTreeMap::new();
        while t0.elapsed() < limit {
            std::thread::sleep(Duration::from_secs(1));
            // long ones only, by the time they have computed since first seen
            let long: Vec<_> = {
                let at = wr.at.lock().unwrap();
                let all = at.iter().enumerate().filter_map(|(t, a)| a.clone().map(|a| (t, a)));
                all.filter(|(_, a)| a.2.elapsed() > Duration::from_secs(15) && !outside(&a.0)).collect()
            };
            seen.retain(|k: &(String, u64), _| long.iter().any(|(_, a)| a.0 == k.0 && a.1 == k.1));
            let mut hung = None;
            for (t, (stage, case, since, thread)) in long {
                let now = cpu_of(&thread);
                let done = PROGRESS[t].load(Ordering::Relaxed);
                let e = seen.entry((stage.clone(), case)).or_insert((done, now, since));
                if e.0 != done {
                    *e = (done, now, Instant::now());
                }
                if now.saturating_sub(e.1) >= HANG_CPU || e.2.elapsed() > HANG {
                    hung = Some((stage, case, now.saturating_sub(e.1), e.2.elapsed().as_secs()));
                }
            }
            if let Some((stage, case, cpu, wall)) = hung {
                let v = Viol { stage, case, what: format!("this case does not end: {wall} s so far, {cpu} of the last ones computing") };
                report_violation(&wc, wid, &v);
                let spec = Spec { id: wid, rule: wrule, level: wlevel, assumptions: &[], min_distinct: 0, run: |_| {} };
                write_evidence(&spec, &wc, &Total { viols: vec![v], ..Total::default() }, t0.elapsed().as_secs_f64());
                std::process::exit(1);
            }
        }
        eprintln!("watchdog: inconclusive");
        std::process::exit(2);
    });
    let rr = r.clone();
    let run = spec.run;
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match guarded(|| run(&rr)) {
            Ok(()) => {}
            Err(Pan::Code(m)) => rr.total.lock().unwrap().viols.push(Viol { stage: "main".into(), case: 0, what: m }),
            Err(Pan::Budget(_)) => rr.total.lock().unwrap().viols.push(Viol { stage: "main".into(), case: 0, what: "step budget exceeded".into() }),
            Err(Pan::Harness(m)) => rr.total.lock().unwrap().harness_errors.push(m),
        })
        .unwrap();
    h.join().unwrap();
    let tot = r.total.lock().unwrap();
    finish(spec, &cfg, &tot, r.started.elapsed().as_secs_f64())
}

fn finish(spec: &Spec, cfg: &Cfg, tot: &Total, wall: f64) -> i32 {
    for h in tot.harness_errors.iter() {
        println!("HARNESS-ERROR: {h}");
    }
    for k in tot.known.iter() {
        println!("KNOWN-FINDING: property={} {k}", spec.id);
    }
    for n in tot.notes.iter() {
        println!("note: {n}");
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} skipped, {} violations, {wall:.1} s{}",
        spec.id,
        tot.evals,
        tot.distinct.len(),
        tot.skipped,
        tot.viols.len(),
        if tot.cut_short { ", cut at the deadline" } else { "" }
    );
    if cfg.only.is_none() {
        write_evidence(spec, cfg, tot, wall);
    }
    if !tot.viols.is_empty() {
        for v in tot.viols.iter().take(MAX_VIOLS) {
            report_violation(cfg, spec.id, v);
        }
        return 1;
    }
    if !tot.harness_errors.is_empty() {
        return 2;
    }
    if cfg.only.is_none() && (tot.distinct.len() as u64) < ((spec.min_distinct as f64) * cfg.scale) as u64 {
        println!("inconclusive: observed too little ({} distinct, {} needed)", tot.distinct.len(), spec.min_distinct);
        return 2;
    }
    0
}

pub fn report_violation(cfg: &Cfg, id: &str, v: &Viol) {
    let dir = format!("{}/evidence", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{}-{}.replay", v.stage, v.case);
    let mut what = v.what.clone();
    if what.len() > 20000 {
        let mut k = 20000;
        while !what.is_char_boundary(k) {
            k -= 1
        }
        what.truncate(k);
    }
    if let Ok(mut f) = std::fs::File::create(&path) {
        let _ = writeln!(f, "property: {id}\nseed: {}\nstage: {}\ncase: {}\nreplay: VERIF_SEED={} {}/check.sh {id} replay {} {}\n\n{}", cfg.seed, v.stage, v.case, cfg.seed, cfg.root, v.stage, v.case, what);
    }
    let mut short: String = what.chars().take(600).collect();
    short = short.replace('\n', " ");
    println!("violated ({} case {}): {short}", v.stage, v.case);
    println!("VIOLATION property={id} replay={path}");
}

fn write_evidence(spec: &Spec, cfg: &Cfg, tot: &Total, wall: f64) {
    let samples = tot.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n      ");
    let classes = tot.classes.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(",\n      ");
    let assumptions = spec.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n    ");
    let known = tot.known.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ");
    let notes = tot.notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n      ");
    let tier = if cfg.quick() { "quick" } else { "thorough" };
    let s = format!(
        "{{\n  \"property\": {},\n  \"tier\": \"{tier}\",\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [\n      {samples}\n    ],\n    \"skipped_by_model_budget\": {},\n    \"cut_at_deadline\": {},\n    \"observed\": {{\n      {classes}\n    }},\n    \"stages\": [\n      {notes}\n    ],\n    \"known_findings\": [{known}]\n  }},\n  \"assumptions\": [\n    {assumptions}\n  ],\n  \"wall_s\": {wall:.2},\n  \"violations\": {}\n}}\n",
        jstr(spec.id), cfg.seed, jstr(spec.level), tot.evals, tot.distinct.len(), jstr(spec.rule), tot.skipped, tot.cut_short, tot.viols.len()
    );
    let _ = std::fs::create_dir_all(std::path::Path::new(&cfg.evidence).parent().unwrap());
    std::fs::write(&cfg.evidence, s).expect("write evidence");
}

/// `vh check ID TIER [STAGE CASE]`: supervisor; `vh child ...`: the monitored process itself.
pub fn main(args: &[String], specs: Vec<Spec>) -> i32 {
    let usage = "usage: vh check|child ID quick|thorough [STAGE CASE]";
    let (Some(mode), Some(id), Some(tier)) = (args.get(1), args.get(2), args.get(3)) else {
        eprintln!("{usage}");
        return 2;
    };
    let Some(spec) = specs.iter().find(|s| s.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let env = |k: &str, d: &str| std::env::var(k).ok().filter(|s| !s.is_empty()).unwrap_or(d.to_string());
    let root = env("VERIF_ROOT", "/verif");
    let secs: f64 = env("VERIF_SECONDS", if tier == Tier::Quick { "300" } else { "3600" }).parse().unwrap_or(300.0);
    let cfg = Cfg {
        prop: id.clone(),
        tier,
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        only: match (args.get(4), args.get(5)) {
            (Some(s), Some(c)) => Some((s.clone(), c.parse().unwrap_or(0))),
            _ => None,
        },
        threads: env("VERIF_THREADS", "8").parse().unwrap_or(8),
        evidence: format!("{root}/evidence/{id}.json"),
        root: root.clone(),
        deadline: Instant::now() + Duration::from_secs_f64(secs),
        scale: env("VERIF_SCALE", "1").parse().unwrap_or(1.0),
    };
    let slots = format!("{root}/evidence/.slots-{id}-{}", if mode == "child" { env("VERIF_PARENT", "0") } else { std::process::id().to_string() });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    match mode.as_str() {
        "child" => {
            let f = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(&slots).ok();
            child(spec, cfg, f)
        }
        "check" => supervise(spec, cfg, args, &slots),
        _ => {
            eprintln!("{usage}");
            2
        }
    }
}

/// Run the monitored process; when it dies of a signal find the case that kills it.
fn supervise(spec: &Spec, cfg: Cfg, args: &[String], slots: &str) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let launch = |extra: &[String]| {
        let mut c = std::process::Command::new(&exe);
        c.arg("child").args(&args[2..4]).args(extra).env("VERIF_PARENT", std::process::id().to_string());
        c.status().expect("start child")
    };
    let first = launch(&args[4..]);
    let out = match first.code() {
        Some(c @ 0..=2) => c,
        _ => {
            println!("the monitored process ended with {first}");
            let s = std::fs::read(slots).unwrap_or_default();
            let mut cases: Vec<(String, u64)> = vec![];
            for ch in s.chunks(64) {
                let t: String = ch.iter().take_while(|b| **b != 0).map(|b| *b as char).collect();
                if let Some((a, b)) = t.rsplit_once(' ') {
                    if let Ok(n) = b.parse() {
                        cases.push((a.to_string(), n))
                    }
                }
            }
            let mut found = 2;
            for (stage, case) in cases {
                let r = launch(&[stage.clone(), case.to_string()]);
                match r.code() {
                    Some(0) => {}
                    Some(1) => {
                        found = 1;
                        break;
                    }
                    _ => {
                        let v = Viol { stage, case, what: format!("this case alone makes the process end with {r}: aborted, overflowed its stack or ran out of memory") };
                        report_violation(&cfg, spec.id, &v);
                        found = 1;
                        break;
                    }
                }
            }
            if found == 1 {
                let tot = Total { viols: vec![Viol { stage: "supervisor".into(), case: 0, what: String::new() }], ..Total::default() };
                write_evidence(spec, &cfg, &tot, 0.0);
            }
            found
        }
    };
    let _ = std::fs::remove_file(slots);
    out
}

/// Is this finding listed in the committed file?
pub fn known_finding(id: &str, name: &str) -> bool {
    let root = std::env::var("VERIF_ROOT").ok().filter(|s| !s.is_empty()).unwrap_or("/verif".to_string());
    let s = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let want = format!("finding: property={id} name={name} ");
    s.lines().any(|l| l.starts_with(&want))
}
