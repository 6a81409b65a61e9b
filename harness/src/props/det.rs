//! C21: the same results again, in threads, and in other builds.
use crate::cardmodel as cm;
use crate::common::*;
use crate::mem::{ExtMeta, LogBuf, Mem, Meta};
use crate::op::{self, Case, Op, Out};
use crate::props::meta::pair;
use crate::rng::Rng;
use crate::run::{guarded, hash_bytes, mix, Local, Pan, Runner, Spec};
use crate::txgen::any_tx_world;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Barrier, Mutex};
use substrate_parser::additional_types::Era;
use substrate_parser::printing_balance::AsBalance;
use substrate_parser::traits::{AsCompleteMetadata, AsMetadata};
use substrate_parser::ShortSpecs;

/// Everything an outcome says, and shows.
fn tell(o: Out, ind: u32, specs: &ShortSpecs, name: &str) -> Vec<String> {
    match o {
        Err(e) => vec![format!("error {}", e.0), format!("error {}", e.1)],
        Ok(v) => {
            let mut t = op::lines(&v);
            t.extend(op::cards(v, ind, specs, name));
            t
        }
    }
}

struct Job {
    case: Case,
    ind: u32,
    specs: ShortSpecs,
    name: &'static str,
}
impl Job {
    fn of(case: Case, r: &mut Rng) -> Job {
        Job { case, ind: r.pick(&[0, 0, 1, 4]), specs: cm::short_specs(r), name: r.pick(&["westend", "statemint", ""]) }
    }
    fn go(&self) -> Vec<String> {
        tell(op::run_plain(&self.case), self.ind, &self.specs, self.name)
    }
    fn over(&self, m: &mut Mem) -> Vec<String> {
        let em = ExtMeta(self.case.meta.clone());
        let v: &[u8] = if let Op::Store(_, v) = &self.case.op { v } else { &[] };
        let (b0, b1) = (LogBuf::new(&self.case.data, 0), LogBuf::new(v, 1));
        tell(op::run::<LogBuf, Mem, ExtMeta>(&self.case, &|_, k| if k == 0 { b0.clone() } else { b1.clone() }, m, &em), self.ind, &self.specs, self.name)
    }
}

fn jobs(r: &mut Rng, n: usize, real: u64, st: &mut Local) -> Vec<Job> {
    let mut v = vec![];
    for _ in 0..n * 4 {
        if v.len() == n {
            break;
        }
        let Some(c) = op::gen(r, real, 60) else { continue };
        if op::model_ok(&c).is_none() {
            st.skip();
            continue;
        }
        v.push(Job::of(c, r));
    }
    v
}

fn differs(a: &[String], b: &[String]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} lines, then {}", a.len(), b.len()));
    }
    a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| format!("{:?}, then {:?}", cut(x.clone(), 800), cut(y.clone(), 800)))
}

/// The same operation over a description that differs a little: the same numbers mean something else.
fn altered(c: &Case, r: &mut Rng) -> Option<Case> {
    let mut c = c.clone();
    let mut reg = (*c.meta.reg).clone();
    let n = reg.types.len() as u64;
    match r.below(6) {
        0 if n > 16 => {
            let (a, b) = (reg.types[15].ty.clone(), reg.types[16].ty.clone());
            reg.types[15].ty = b;
            reg.types[16].ty = a;
        }
        0 | 1 => {
            // types exchanged
            for _ in 0..r.range(1, 3) {
                let (i, j) = (r.below(n) as usize, if r.chance(1, 2) { r.below(n.min(20)) } else { r.below(n) } as usize);
                let (a, b) = (reg.types[i].ty.clone(), reg.types[j].ty.clone());
                reg.types[i].ty = b;
                reg.types[j].ty = a;
            }
        }
        2 => crate::gen::misname(r, &mut reg, 4),
        3 => {
            // variants reordered and renumbered, fields reordered
            for t in reg.types.iter_mut().map(|t| &mut t.ty.type_def) {
                match t {
                    scale_info::TypeDef::Variant(v) => {
                        if r.chance(1, 2) {
                            v.variants.reverse()
                        } else {
                            let ix: Vec<u8> = v.variants.iter().rev().map(|x| x.index).collect();
                            v.variants.iter_mut().zip(ix).for_each(|(x, i)| x.index = i);
                        }
                    }
                    scale_info::TypeDef::Composite(c) => c.fields.reverse(),
                    scale_info::TypeDef::Array(a) => a.len = a.len.min(1000).wrapping_add(1),
                    _ => {}
                }
            }
        }
        4 => {
            // primitives mean others
            let by = r.range(1, 14) as usize;
            let ps: Vec<_> = reg.types[..15.min(n as usize)].iter().map(|t| t.ty.type_def.clone()).collect();
            for (i, p) in ps.iter().enumerate() {
                reg.types[(i + by) % ps.len()].ty.type_def = p.clone();
            }
        }
        _ => {
            // the rest of the metadata
            c.meta.version ^= 1;
            c.meta.exts.reverse();
            if let Ok(s) = c.meta.spec.as_mut() {
                s.printed_spec_version.push('1');
            }
            if n > 0 {
                c.meta.params.extra_ty = crate::mem::sym(r.below(n) as u32);
                c.meta.params.signature_ty = crate::mem::sym(r.below(n) as u32);
            }
        }
    }
    c.meta.reg = reg.into();
    c.how.push_str(", altered");
    op::model_ok(&c).map(|_| c)
}

/// The same operations in other orders, several times, in one thread.
fn again(r: &mut Rng, case: u64, st: &mut Local) {
    let k = r.range(2, 5) as usize;
    let mut js = jobs(r, k, if case % 40 == 0 { 50 } else { 0 }, st);
    // the same data in another world, other data in the same world
    if js.len() > 1 {
        let mut c = js[0].case.clone();
        c.data = js[1].case.data.clone();
        if op::model_ok(&c).is_some() {
            js.push(Job::of(c, r));
        }
        let mut c = js[0].case.clone();
        c.meta = js[1].case.meta.clone();
        if matches!(&c.op, Op::All(i) | Op::At(i, _) if (*i as usize) < c.meta.reg.types.len()) && op::model_ok(&c).is_some() {
            js.push(Job::of(c, r));
        }
    }
    let small = js.iter().all(|j| j.case.meta.reg.types.len() < 300);
    for k in 0..if small { js.len() } else { 0 } {
        if let Some(c) = altered(&js[k].case, r) {
            js.push(Job::of(c, r));
            st.class("operations over altered descriptions");
        }
    }
    let first: Vec<Vec<String>> = js.iter().map(|j| j.go()).collect();
    for round in 0..3 {
        for _ in 0..js.len() {
            let i = r.idx(js.len());
            let t = if round == 2 { js[i].over(&mut Mem::new()) } else { js[i].go() };
            if let Some(d) = differs(&first[i], &t) {
                st.fail(format!("repeated after other operations: {d}; {}", op::say(&js[i].case)));
                return;
            }
            st.class("repetitions compared");
        }
    }
    for (j, f) in js.iter().zip(&first) {
        st.eval(mix(hash_bytes(&j.case.data), f.len() as u64));
    }
    st.sample(|| format!("{} operations, {} repetitions", js.len(), 3 * js.len()));
}

/// Threads sharing one metadata.
fn threads(r: &mut Rng, case: u64, st: &mut Local, orders: &Mutex<HashSet<u64>>) {
    let t = any_tx_world(r, if case % 20 == 0 { 100 } else { 0 });
    let w = World { reg: t.meta.reg.clone(), h: crate::gen::heights(&t.meta.reg).into(), first: t.w.first, depth: 30 };
    let mut js = vec![];
    for _ in 0..12 {
        let c = if r.chance(1, 2) {
            let keep = r.chance(2, 3);
            let Some(mut c) = op::gen_value(&w, r, keep, t.src.clone()) else { continue };
            c.meta = t.meta.clone();
            c
        } else {
            let Some(x) = crate::txgen::gen_tx(&t, r) else { continue };
            let (mut m, d) = (x.meta.clone(), x.marked());
            m.reg = t.meta.reg.clone();
            Case { meta: m, op: Op::Marked(x.genesis), data: d, how: t.src.clone() }
        };
        if op::model_ok(&c).is_some() {
            js.push(Job::of(c, r));
        }
        if js.len() == 4 {
            break;
        }
    }
    if js.is_empty() {
        return;
    }
    if r.chance(1, 3) && js[0].case.meta.reg.types.len() < 300 {
        if let Some(c) = altered(&js[0].case, r) {
            js.push(Job::of(c, r))
        }
    }
    let first: Vec<Vec<String>> = js.iter().map(|j| j.go()).collect();
    let order = Arc::new(Mutex::new(Vec::<u8>::new()));
    let bar = Barrier::new(8);
    let seed = r.u64();
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for k in 0..8u8 {
            let (js, first, bar, order, bad) = (&js, &first, &bar, &order, &bad);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut r = Rng::new(seed ^ (k as u64 + 1).wrapping_mul(0x9e37));
                    bar.wait();
                    for _ in 0..2 {
                        let from = r.idx(js.len());
                        for i in 0..js.len() {
                            let j = &js[(from + i) % js.len()];
                            let mut m = Mem::new();
                            m.shared = Some((order.clone(), k));
                            m.yield_every = r.pick(&[1, 2, 3, 7]);
                            let t = guarded(|| j.over(&mut m));
                            match t {
                                Ok(t) => {
                                    if let Some(d) = differs(&first[(from + i) % js.len()], &t) {
                                        bad.lock().unwrap().push(format!("thread {k}: {d}; {}", op::say(&j.case)))
                                    }
                                }
                                Err(Pan::Code(e)) => bad.lock().unwrap().push(format!("thread {k}: {e}; {}", op::say(&j.case))),
                                Err(_) => bad.lock().unwrap().push(format!("thread {k} failed; {}", op::say(&j.case))),
                            }
                        }
                    }
                })
                .expect("thread");
        }
    });
    for b in bad.into_inner().unwrap().into_iter().take(1) {
        st.fail(b)
    }
    let o = order.lock().unwrap();
    let turns = o.windows(2).filter(|w| w[0] != w[1]).count();
    st.class_n("accesses by concurrent threads", o.len() as u64);
    st.class_n("changes of thread between accesses", turns as u64);
    let h = hash_bytes(&o);
    if orders.lock().unwrap().insert(h) {
        st.class("distinct interleavings of accesses")
    }
    st.eval(mix(h, case));
    st.sample(|| format!("{} operations in 8 threads, {} accesses, {turns} changes of thread", js.len(), o.len()));
}

// ---------------------------------------------------------------------------------- other builds

/// What a build says about a case: the same text is due in every build.
pub fn told(seed: u64, case: u64) -> Vec<String> {
    let mut r = Rng::for_case(seed, "C21/builds", case);
    let r = &mut r;
    let mut o = vec![];
    match case % 12 {
        0 => {
            // numbers
            for _ in 0..10 {
                let (v, d) = (r.uint(128), r.byte());
                o.push(format!("{v} {d} {:?} {:?}", u128::convert_balance_pretty(v, d, "U"), u32::convert_balance_pretty(v as u32, d, "")));
                use parity_scale_codec::{Decode, Encode};
                let n = r.idx(4);
                let b = r.bytes(n);
                match Era::decode(&mut &b[..]) {
                    Ok(e) => o.push(format!("{e:?} {:?}", e.encode())),
                    // the text of the codec is not of this crate
                    Err(_) => o.push("no era".into()),
                }
                let n = r.idx(20);
                let b = r.bytes(n);
                o.push(format!("{:?}", substrate_parser::compacts::get_compact::<u128, &[u8], ()>(&&b[..], &mut (), &mut 0)));
                o.push(format!("{:?}", substrate_parser::compacts::get_compact::<u16, &[u8], ()>(&&b[..], &mut (), &mut 0)));
                o.push(format!("{:?}", substrate_parser::compacts::find_compact::<u32, &[u8], ()>(&&b[..], &mut (), 0).map(|f| (f.compact, f.start_next_unit))));
            }
        }
        1 => {
            // metadata of both versions
            let t = any_tx_world(r, 0);
            let (a, b) = (r.chance(1, 2), r.chance(1, 3));
            let p = pair(r, &t.meta, a, b);
            macro_rules! about {
                ($m:expr) => {{
                    let m = $m;
                    o.push(format!("{:?}", AsMetadata::<()>::spec_name_version(m).map(|s| (s.printed_spec_version, s.spec_name)).map_err(|e| format!("{e:?} {e}"))));
                    o.push(format!("{:?}", AsMetadata::<()>::call_ty(m).map(|s| s.id).map_err(|e| format!("{e:?} {e}"))));
                    o.push(format!("{:?}", AsMetadata::<()>::signed_extensions(m).map(|v| v.iter().map(|s| (s.identifier.clone(), s.ty.id, s.additional_signed.id)).collect::<Vec<_>>()).map_err(|e| format!("{e:?} {e}"))));
                    o.push(format!("{:?}", AsCompleteMetadata::<()>::extrinsic_type_params(m).map(|p| (p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id)).map_err(|e| format!("{e:?} {e}"))));
                    o.push(format!("{:?}", AsCompleteMetadata::<()>::extrinsic_version(m).map_err(|e| format!("{e:?} {e}"))));
                    if let Some(x) = crate::txgen::gen_tx(&t, r) {
                        let c = Case { meta: x.meta.clone(), op: Op::Marked(x.genesis), data: x.marked(), how: String::new() };
                        if op::model_ok(&c).is_some() {
                            let e = match substrate_parser::parse_transaction::<&[u8], (), _>(&&c.data[..], &mut (), m, x.genesis) {
                                Ok(t) => format!("{:?}", (t.call_result.map(|c| crate::val::of_call(&c)).map_err(|e| format!("{e:?} {e}")), t.extensions.iter().map(crate::val::of_ext).collect::<Vec<_>>())),
                                Err(e) => format!("{e:?} {e}"),
                            };
                            o.push(e);
                        }
                    }
                }};
            }
            about!(&p.v14);
            about!(&p.v15);
        }
        2 => {
            // anything that can be shown
            let e = cm::extended(r, 0);
            let (s, n) = (cm::short_specs(r), r.pick(&["westend", "statemint", ""]));
            o.extend(op::cards(op::Val::Ext(e, 0), 1, &s, n));
        }
        k => {
            let Some(c) = op::gen(r, if k == 3 && case % 60 == 3 { 100 } else { 0 }, 50) else { return o };
            if op::model_ok(&c).is_none() {
                return o;
            }
            let j = Job::of(c, r);
            o.push(op::say(&j.case));
            o.extend(j.go());
        }
    }
    o
}
fn digest(v: &[String]) -> u64 {
    v.iter().fold(v.len() as u64, |h, s| mix(h, hash_bytes(s.as_bytes())))
}

/// `vh probe digest SEED N` or `vh probe told SEED CASE`.
pub fn probe(args: &[String]) -> i32 {
    crate::run::install_hook();
    let (seed, n): (u64, u64) = (args[1].parse().unwrap_or(1), args[2].parse().unwrap_or(0));
    if args[0] == "told" {
        for l in told(seed, n) {
            println!("{l}");
        }
        return 0;
    }
    let next = std::sync::atomic::AtomicU64::new(0);
    let out = Mutex::new(std::io::BufWriter::new(std::io::stdout()));
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, || loop {
                    let c = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if c >= n {
                        break;
                    }
                    use std::io::Write;
                    let line = match guarded(|| digest(&told(seed, c))) {
                        Ok(d) => format!("{c} {d}"),
                        Err(Pan::Code(e)) => format!("{c} panic {}", e.replace('\n', " ")),
                        Err(_) => format!("{c} trouble"),
                    };
                    let _ = writeln!(out.lock().unwrap(), "{line}");
                })
                .expect("thread");
        }
    });
    0
}

/// Digests of another build.
fn other_build(seed: u64, n: u64) -> Result<HashMap<u64, String>, String> {
    let exe = std::env::var("VERIF_NOSTD").map_err(|_| "VERIF_NOSTD is not set".to_string())?;
    let o = std::process::Command::new(&exe).args(["probe", "digest", &seed.to_string(), &n.to_string()]).output().map_err(|e| format!("{exe}: {e}"))?;
    let s = String::from_utf8_lossy(&o.stdout);
    let m: HashMap<u64, String> = s.lines().filter_map(|l| l.split_once(' ')).filter_map(|(a, b)| Some((a.parse().ok()?, b.to_string()))).collect();
    if !o.status.success() && m.is_empty() {
        return Err(format!("{exe} ended with {}", o.status));
    }
    Ok(m)
}

/// Deeply nested data in several threads at once.
fn deep_threads(r: &mut Rng, c: u64, st: &mut Local) {
    let (meta, id, data) = super::hostile::deep(c as usize % 4, 300 + r.idx(700));
    let alone = real_all(&meta.reg, id, &data);
    let bar = std::sync::Barrier::new(8);
    let (meta, data, alone, bar) = (&meta, &data, &alone, &bar);
    let bad = std::thread::scope(|s| {
        let ts: Vec<_> = (0..8)
            .map(|_| {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        bar.wait();
                        let mut bad = None;
                        for k in 0..20 {
                            match guarded(|| real_all(&meta.reg, id, data)) {
                                Ok(x) if x == *alone => {}
                                Ok(x) => bad = Some(format!("repetition {k}: {}", cut(format!("{:?}", x.map(|_| "a different value")), 500))),
                                Err(Pan::Code(e)) => bad = Some(format!("repetition {k}: {e}")),
                                Err(_) => bad = Some(format!("repetition {k}: panic")),
                            }
                        }
                        bad
                    })
                    .expect("thread")
            })
            .collect();
        ts.into_iter().filter_map(|t| t.join().expect("join")).next()
    });
    if let Some(b) = bad {
        st.fail(format!("{} levels deep in 8 threads: {b}, alone {}; {}", data.len(), if alone.is_ok() { "a value" } else { "an error" }, super::hostile::DEEP[c as usize % 4]));
    }
    st.class_n("deeply nested values decoded concurrently", 160);
    st.eval(mix(c, hash_bytes(data)));
}

fn c21(run: &Runner) {
    run.stage("deep threads", run.cfg.n(64), |r, c, st| deep_threads(r, c, st));
    run.stage("again", run.cfg.n(20_000), |r, c, st| again(r, c, st));
    let orders = Mutex::new(HashSet::new());
    run.stage("threads", run.cfg.n(1_500), |r, c, st| threads(r, c, st, &orders));
    let n = run.cfg.n(60_000);
    let seed = run.cfg.seed;
    let other = match other_build(seed, n) {
        Ok(m) => m,
        Err(e) => panic!("other build: {e}"),
    };
    run.stage("builds", n, |_, c, st| {
        let here = told(seed, c);
        let d = digest(&here);
        match other.get(&c) {
            Some(x) if *x == d.to_string() => {}
            Some(x) => {
                let exe = std::env::var("VERIF_NOSTD").unwrap_or_default();
                let there = std::process::Command::new(exe).args(["probe", "told", &seed.to_string(), &c.to_string()]).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
                let here = here.join("\n");
                let k = here.bytes().zip(there.bytes()).take_while(|(a, b)| a == b).count();
                let from = |s: &str| cut(String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(200).min(s.len())..]).into_owned(), 500);
                st.fail(format!("the build without std and debug assertions gives {x} instead of {d}: here ...{:?}, there ...{:?}; {}", from(&here), from(&there), cut(here.clone(), 2000)))
            }
            None => st.fail(format!("the build without std and debug assertions gives nothing for case {c}: {}", cut(here.join("\n"), 2000))),
        }
        if here.is_empty() {
            st.skip();
            st.eval_trivial();
        } else {
            st.class(["numbers", "metadata", "shown"].get((c % 12) as usize).copied().unwrap_or("operations"));
            st.class_n("lines compared between builds", here.len() as u64);
            st.eval(mix(d, c));
        }
    });
}

fn c21_all(run: &Runner) {
    c21(run);
    super::vm::blocks(run, super::vm::Other::W32, 40, 2000, 60, true, 1);
    super::vm::blocks(run, super::vm::Other::Miri("i686-unknown-linux-gnu"), 8, 1000, 12, true, 1);
    super::vm::blocks(run, super::vm::Other::Miri("i686-unknown-linux-gnu"), 8, 300, 10, true, 3);
    if !run.cfg.quick() {
        super::vm::blocks(run, super::vm::Other::San("VERIF_TSAN", "ThreadSanitizer"), 40, 2000, 60, true, 6);
    }
}

pub fn specs() -> Vec<Spec> {
    let _: fn(&Meta) -> Meta = |m| m.clone();
    vec![Spec {
        id: "C21",
        rule: "Values, errors, cards and texts of operations repeated in other orders with other metadata in between; of 8 threads sharing one metadata, with yields injected at storage accesses (distinct interleavings counted); and of a second build (no std, no debug assertions, no overflow checks) run on the same cases, digests compared case by case; and of a 32-bit build interpreted by Miri. Non-trivial: every case that runs; distinct by (input, outcome) or interleaving.",
        level: "exploration",
        assumptions: &["the identicon image is not compared between builds"],
        min_distinct: 60_000,
        run: c21_all,
    }]
}
