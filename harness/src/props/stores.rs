//! Storage of data and metadata: C12 (any conforming storage), C13 (storage that fails).
use crate::common::*;
use crate::mem::{Acc, EncMeta, EncReg, ExtMeta, Fault, LogBuf, Mem, Meta, PagedBuf, Reg};
use crate::op::{self, Case, Op, Out, Val};
use crate::rng::Rng;
use crate::run::{guarded, hash_bytes, mix, Local, Pan, Runner, Spec};
use external_memory_tools::AddressableBuffer;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};
use substrate_parser::compacts::{find_compact, get_compact};

fn same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

/// Encoded registries of the real metadata are made once.
fn enc(reg: &Arc<scale_info::PortableRegistry>) -> EncReg {
    static C: OnceLock<Mutex<HashMap<usize, (Arc<scale_info::PortableRegistry>, EncReg)>>> = OnceLock::new();
    if reg.types.len() < 150 {
        return EncReg::new(reg);
    }
    let c = C.get_or_init(Default::default);
    let k = Arc::as_ptr(reg) as usize;
    c.lock().unwrap().entry(k).or_insert_with(|| (reg.clone(), EncReg::new(reg))).1.clone()
}

/// A view of the first part of longer data.
fn view<B: AddressableBuffer<Mem>>(d: &[u8], mk: impl Fn(&[u8]) -> B, tail: &[u8]) -> B {
    let mut x = d.to_vec();
    x.extend(tail);
    match mk(&x).limit_length(d.len()) {
        Ok(b) => b,
        Err(_) => panic!("harness: view"),
    }
}

fn c12_one(c: &Case, r: &mut Rng, st: &mut Local, case: u64) {
    if op::model_ok(c).is_none() {
        st.skip();
        return;
    }
    let plain = op::run_plain(c);
    let page = r.pick(&[1usize, 2, 3, 5, 7, 16, 31, 64]);
    let n = r.range(1, 40) as usize;
    let tail = if r.chance(1, 2) { r.bytes(n) } else { vec![0; n] };
    let em = ExtMeta(c.meta.clone());
    let nm = EncMeta(c.meta.clone(), enc(&c.meta.reg));
    let mut refused = 0;
    let mut accesses = 0;
    for k in 0..6 {
        let mut m = Mem::logging();
        let (name, got) = match k {
            0 => ("copied data", op::run_mem(c, &|d, i| LogBuf::new(d, i), &mut m, &c.meta)),
            1 => ("copied data, types fetched one by one", op::run_mem(c, &|d, i| LogBuf::new(d, i), &mut m, &em)),
            2 => ("paged data", op::run_mem(c, &|d, _| PagedBuf::new(d, page), &mut m, &c.meta)),
            3 => ("paged data, types decoded one by one", op::run_mem(c, &|d, _| PagedBuf::new(d, page), &mut m, &nm)),
            4 => ("length-limited view of longer data", op::run_mem(c, &|d, i| view(d, |x| LogBuf::new(x, i), &tail), &mut m, &em)),
            _ => ("length-limited view of longer paged data", op::run_mem(c, &|d, _| view(d, |x| PagedBuf::new(x, page), &tail), &mut m, &c.meta)),
        };
        if !same(&plain, &got) {
            st.fail(format!("{name}: {} where plain slices give {}; {}", op::show_out(&got), op::show_out(&plain), op::say(c)));
            return;
        }
        accesses += m.n;
        for a in m.log.iter().flatten() {
            if let Acc::Read { ok: false, pos, len, total, .. } = a {
                refused += 1;
                if !matches!(got, Err(_) | Ok(Val::Tx(Err(_), _))) {
                    st.fail(format!("{name}: {len} bytes at {pos} of {total} were asked for, the refusal was ignored: {}; {}", op::show_out(&got), op::say(c)));
                    return;
                }
            }
        }
    }
    // storage with one kind of refusal: errors tell that kind, all else is the same
    for refuse in [1, 2] {
        let mut m = Mem::new();
        m.refuse = refuse;
        let got = op::run_mem(c, &|d, _| PagedBuf::new(d, page), &mut m, &c.meta);
        let agree = match (&plain, &got) {
            (Ok(Val::Tx(Err(_), x)), Ok(Val::Tx(Err(_), y))) => x == y,
            (Ok(x), Ok(y)) => x == y,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !agree {
            st.fail(format!("paged data refusing always with the {} error: {} where plain slices give {}; {}", ["", "out of range", "too short"][refuse as usize], op::show_out(&got), op::show_out(&plain), op::say(c)));
            return;
        }
    }
    // slices over external memory types
    let mut m = Mem::new();
    let v: &[u8] = if let Op::Store(_, v) = &c.op { v } else { &[] };
    let got = op::run::<&[u8], Mem, ExtMeta>(c, &|_, i| if i == 0 { &c.data } else { v }, &mut m, &em);
    if !same(&plain, &got) {
        st.fail(format!("slices, types fetched one by one: {} where in memory {}; {}", op::show_out(&got), op::show_out(&plain), op::say(c)));
    }
    st.class(&format!("{}: {}", c.op.name(), if plain.is_ok() { "accepted" } else { "refused" }));
    st.class_n("accesses to storage", accesses);
    st.class_n("accesses refused as out of range", refused);
    st.eval(mix(super::types::key(c.op.name().len() as u32, &c.data, case), 12));
    st.sample(|| format!("{}: {accesses} accesses over 6 storages", c.op.name()));
}

fn c12(run: &Runner) {
    run.stage("operations", run.cfg.n(40_000), |r, c, st| {
        let real = if c % 40 == 0 { 100 } else { 0 };
        if let Some(x) = op::gen(r, real, 50) {
            c12_one(&x, r, st, c)
        }
    });
    // all the ends of one value: each way to be too short
    run.stage("cut", run.cfg.n(1_200), |r, c, st| {
        let Some(x) = op::gen(r, 0, 100) else { return };
        if matches!(x.op, Op::At(..)) {
            return;
        }
        for k in 0..x.data.len().min(60) {
            let mut y = x.clone();
            y.data.truncate(k);
            c12_one(&y, r, st, c);
        }
    });
    // accesses stay inside what was announced, or their refusal is an ordinary error
    run.stage("compacts", run.cfg.n(60_000), |r, c, st| {
        let n = r.idx(20);
        let mut d = r.bytes(n);
        if r.chance(1, 2) {
            let b = r.pick(&[8, 16, 32, 64, 128]);
            let v = r.uint(b);
            let mut o = vec![];
            crate::gen::put_compact(&mut o, v);
            let at = r.idx(n + 1);
            d.splice(at..at, o);
        }
        let at = r.idx(d.len() + 2);
        let page = r.pick(&[1usize, 2, 3, 5]);
        macro_rules! one {
            ($t:ty) => {{
                let s: &[u8] = &d;
                let mut p0 = at;
                let a = get_compact::<$t, &[u8], ()>(&s, &mut (), &mut p0).map_err(|e| format!("{e:?}"));
                let mut m = Mem::new();
                let mut p1 = at;
                let b = get_compact::<$t, PagedBuf, Mem>(&PagedBuf::new(&d, page), &mut m, &mut p1).map_err(|e| format!("{e:?}"));
                let mut p2 = at;
                let f = get_compact::<$t, LogBuf, Mem>(&view(&d, |x| LogBuf::new(x, 0), &[1; 20]), &mut m, &mut p2).map_err(|e| format!("{e:?}"));
                if a != b || p0 != p1 || a != f || p0 != p2 {
                    st.fail(format!("compact {} at {at} of {}: slice {a:?} to {p0}, paged {b:?} to {p1}, view {f:?} to {p2}", stringify!($t), hexs(&d)));
                }
                let g = find_compact::<$t, &[u8], ()>(&s, &mut (), at).map(|x| (x.compact, x.start_next_unit)).map_err(|e| format!("{e:?}"));
                let h = find_compact::<$t, PagedBuf, Mem>(&PagedBuf::new(&d, page), &mut m, at).map(|x| (x.compact, x.start_next_unit)).map_err(|e| format!("{e:?}"));
                if g != h {
                    st.fail(format!("find compact {} at {at} of {}: slice {g:?}, paged {h:?}", stringify!($t), hexs(&d)));
                }
                st.class(if a.is_ok() { "compact found" } else { "no compact" });
            }};
        }
        match r.below(5) {
            0 => one!(u8),
            1 => one!(u16),
            2 => one!(u32),
            3 => one!(u64),
            _ => one!(u128),
        }
        st.eval(mix(c, hash_bytes(&d)));
    });
}

/// Is this an acceptable outcome when some access failed? Panics are caught outside.
fn fault_ok(base: &Out, got: &Out) -> bool {
    match (base, got) {
        (_, Err(_)) => true,
        // the call part carries the error
        (Ok(Val::Tx(_, e0)), Ok(Val::Tx(Err(_), e1))) => e0 == e1,
        _ => false,
    }
}

fn faulty(c: &Case, m: &mut Mem, em: &ExtMeta) -> Result<Out, Pan> {
    guarded(|| op::run_mem(c, &|d, i| LogBuf::new(d, i), m, em))
}

fn c13_one(c: &Case, r: &mut Rng, st: &mut Local, case: u64, max: u64) {
    if op::model_ok(c).is_none() {
        st.skip();
        return;
    }
    let em = ExtMeta(c.meta.clone());
    let mut m = Mem::new();
    let base = op::run_mem(c, &|d, i| LogBuf::new(d, i), &mut m, &em);
    let n = m.n;
    if n == 0 {
        return;
    }
    // every access of a short run; of a long one the first, the last and a sample
    let ks: Vec<u64> = if n <= max {
        (0..n).collect()
    } else {
        (0..max / 3).chain(n - max / 3..n).chain((0..max / 3).map(|_| r.below(n))).collect()
    };
    let mut points = 0;
    for k in ks {
        for f in [Fault::At(k), Fault::From(k)] {
            let mut m = Mem::with_fault(f);
            m.budget = 50 * n + 10_000;
            let got = faulty(c, &mut m, &em);
            points += 1;
            if m.fault_hits == 0 {
                // The failing access was not reached this time: no fault, so the normal result.
                match got {
                    Ok(g) if same(&base, &g) => continue,
                    Ok(g) => st.fail(format!("repeated after faults that are gone ({f:?} of {n} not reached): result {}, at first {}; {}", op::show_out(&g), op::show_out(&base), op::say(c))),
                    Err(Pan::Code(p)) => st.fail(format!("repeated after faults that are gone: {p}; {}", op::say(c))),
                    Err(Pan::Budget(b)) => st.fail(format!("repeated after faults that are gone: {b} accesses and no end; {}", op::say(c))),
                    Err(Pan::Harness(p)) => panic!("{p}"),
                }
                return;
            }
            match got {
                Ok(g) => {
                    if !fault_ok(&base, &g) {
                        st.fail(format!("storage fails {f:?} of {n} accesses, result {}, without the fault {}; {}", op::show_out(&g), op::show_out(&base), op::say(c)));
                        return;
                    }
                    st.class(match &g {
                        Err(e) if e.0.contains("External") => "reported as the storage error",
                        Err(_) => "reported as another error",
                        Ok(_) => "reported in the call part",
                    });
                }
                Err(Pan::Code(p)) => {
                    st.fail(format!("storage fails {f:?} of {n} accesses: {p}; {}", op::say(c)));
                    return;
                }
                Err(Pan::Budget(b)) => {
                    st.fail(format!("storage fails {f:?} of {n} accesses: {b} accesses and no end; {}", op::say(c)));
                    return;
                }
                Err(Pan::Harness(p)) => panic!("{p}"),
            }
        }
        st.eval(mix(super::types::key(k as u32, &c.data, case), 13));
        // now and then the attempt right after this very fault
        if r.chance(1, 12) {
            let mut m = Mem::new();
            m.budget = 50 * n + 10_000;
            match faulty(c, &mut m, &em) {
                Ok(again) if same(&base, &again) => st.class("repeated right after the fault"),
                Ok(again) => {
                    st.fail(format!("right after a fault at access {k} the result is {} instead of {}; {}", op::show_out(&again), op::show_out(&base), op::say(c)));
                    return;
                }
                Err(Pan::Code(p)) => {
                    st.fail(format!("right after a fault at access {k}: {p}; {}", op::say(c)));
                    return;
                }
                Err(Pan::Budget(b)) => {
                    st.fail(format!("right after a fault at access {k}: {b} accesses and no end; {}", op::say(c)));
                    return;
                }
                Err(Pan::Harness(p)) => panic!("{p}"),
            }
        }
    }
    // the fault is gone
    let mut m = Mem::new();
    let again = op::run_mem(c, &|d, i| LogBuf::new(d, i), &mut m, &em);
    if !same(&base, &again) {
        st.fail(format!("after the faults the result is {} ({} accesses) instead of {} ({n}); {}", op::show_out(&again), m.n, op::show_out(&base), op::say(c)));
    }
    st.class(&format!("{}: {}", c.op.name(), if base.is_ok() { "accepted" } else { "refused" }));
    st.class_n("fault points", points);
    st.sample(|| format!("{}: {n} accesses, {points} faults", c.op.name()));
}

fn c13(run: &Runner) {
    run.stage("operations", run.cfg.n(9_000), |r, c, st| {
        let real = if c % 30 == 0 { 100 } else { 0 };
        if let Some(x) = op::gen(r, real, 85) {
            c13_one(&x, r, st, c, 400)
        }
    });
    // faults late in long data
    run.stage("long", run.cfg.n(40), |r, c, st| {
        let (w, id) = super::types::long(r);
        let big = r.chance(1, 3);
        let Some(x) = w.gen(r, id, None, big) else { return };
        c13_one(&Case { meta: w.meta(), op: op::Op::All(id), data: x.bytes, how: "long".into() }, r, st, c, 60)
    });
    // data in memory, only types fetched from failing storage, and the other way round
    run.stage("one side", run.cfg.n(5_000), |r, c, st| {
        let Some(x) = op::gen(r, 0, 90) else { return };
        if op::model_ok(&x).is_none() {
            st.skip();
            return;
        }
        let em = ExtMeta(x.meta.clone());
        let v: &[u8] = if let Op::Store(_, v) = &x.op { v } else { &[] };
        let types = r.chance(1, 2);
        let go = |m: &mut Mem| {
            if types {
                op::run::<&[u8], Mem, ExtMeta>(&x, &|_, i| if i == 0 { &x.data } else { v }, m, &em)
            } else {
                op::run_mem::<PagedBuf, Meta>(&x, &|d, _| PagedBuf::new(d, 7), m, &x.meta)
            }
        };
        let mut m = Mem::new();
        let base = go(&mut m);
        let n = m.n;
        for k in 0..n.min(300) {
            for f in [Fault::At(k), Fault::From(k)] {
                let mut m = Mem::with_fault(f);
                m.budget = 50 * n + 10_000;
                match guarded(|| go(&mut m)) {
                    Ok(g) if fault_ok(&base, &g) => {}
                    Ok(g) => {
                        st.fail(format!("storage of {} fails {f:?} of {n}, result {}, without the fault {}; {}", if types { "types" } else { "data" }, op::show_out(&g), op::show_out(&base), op::say(&x)));
                        return;
                    }
                    Err(Pan::Harness(p)) => panic!("{p}"),
                    Err(Pan::Code(p)) => {
                        st.fail(format!("storage of {} fails {f:?} of {n}: {p}; {}", if types { "types" } else { "data" }, op::say(&x)));
                        return;
                    }
                    Err(Pan::Budget(_)) => {
                        st.fail(format!("storage of {} fails {f:?} of {n}: no end; {}", if types { "types" } else { "data" }, op::say(&x)));
                        return;
                    }
                }
            }
            st.eval(mix(super::types::key(k as u32, &x.data, c), 14));
        }
        let again = go(&mut Mem::new());
        if !same(&base, &again) {
            st.fail(format!("after the faults the result is {} instead of {}; {}", op::show_out(&again), op::show_out(&base), op::say(&x)));
            return;
        }
        st.class_n(if types { "fault points at types" } else { "fault points at data" }, 2 * n.min(300));
    });
    // compacts on their own: the position must not move
    run.stage("compacts", run.cfg.n(20_000), |r, c, st| {
        let mut d = r.bytes(3);
        let b = r.pick(&[8, 16, 32, 64, 128]);
        let v = r.uint(b);
        crate::gen::put_compact(&mut d, v);
        let k = r.idx(4);
        d.extend(r.bytes(k));
        let buf = LogBuf::new(&d, 0);
        let mut m = Mem::new();
        let mut p = 3;
        let base = get_compact::<u128, LogBuf, Mem>(&buf, &mut m, &mut p).map_err(|e| format!("{e:?}"));
        for k in 0..m.n {
            for f in [Fault::At(k), Fault::From(k)] {
                let mut m = Mem::with_fault(f);
                let mut p = 3;
                match guarded(|| get_compact::<u128, LogBuf, Mem>(&buf, &mut m, &mut p).map_err(|e| format!("{e:?}"))) {
                    Ok(Err(_)) if p == 3 => {}
                    Ok(x) => st.fail(format!("compact in {}: storage fails {f:?}, result {x:?}, position {p}, without the fault {base:?}", hexs(&d))),
                    Err(Pan::Harness(p)) => panic!("{p}"),
                    Err(Pan::Code(p)) => st.fail(format!("compact in {}: storage fails {f:?}: {p}", hexs(&d))),
                    Err(Pan::Budget(_)) => {}
                }
                st.eval(mix(c, k));
            }
        }
    });
    let _ = Reg;
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C12",
            rule: "Any operation (values alone and at a position, marked and unmarked transactions, calls and extensions alone, extrinsics, storage) on valid, spoiled and cut data, run over plain slices and over six other storages (copied, paged with odd pages, length-limited views of longer data, types in memory, fetched or decoded one by one); results and errors must be equal. Non-trivial: every operation compared over all storages; distinct by (operation, bytes, description).",
            level: "exploration",
            assumptions: &["storages refuse accesses outside the announced length with the errors of external-memory-tools", "cases the reference decoder gives up on are skipped"],
            min_distinct: 60_000,
            run: c12,
        },
        Spec {
            id: "C13",
            rule: "Any operation with data and types in external memory; each access in turn fails once, and fails from there on. The outcome must be an error (in the call part for a marked transaction), never a panic, another value or more accesses without end; afterwards the operation gives the normal result. Non-trivial: each fault point really reached; distinct by (access, bytes, description).",
            level: "fault_enumeration",
            assumptions: &["runs with more than 400 accesses are sampled: first and last 133 and 133 random ones", "cases the reference decoder gives up on are skipped"],
            min_distinct: 150_000,
            run: c13,
        },
    ]
}
