//! C11: malformed and cyclic type descriptions.
use crate::common::*;
use crate::dict;
use crate::gen::{self, refs, arr, bitseq, comp, cpt, enm, fld, mk, seq, tup, var, Builder};
use crate::mem::{sym, ExtMeta, ExtReg, LogBuf, Mem, Meta};
use crate::model::{Model, ME};
use crate::rng::Rng;
use crate::run::{guarded, Local, Pan, Runner, Spec};
use crate::val::{diff, of_ext};
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError as RI};

pub fn broken_world(r: &mut Rng) -> World {
    let mut b = if r.chance(1, 3) {
        let n = r.range(2, 12) as usize;
        Builder::random(r, n)
    } else {
        Builder::new()
    };
    let n0 = b.types.len() as u32;
    let n = r.range(1, 12) as u32;
    // soup: references anywhere
    for i in 0..n {
        let total = n0 + n;
        let any = |r: &mut Rng| match r.below(12) {
            0 => total + r.below(3) as u32,
            1..=2 => r.below(18) as u32,
            3..=5 => n0 + r.below(n as u64) as u32,
            6..=7 => (n0 + i).saturating_sub(1),
            8 => n0 + (i + 1) % n,
            9 => n0 + i,
            _ => r.below(total as u64) as u32,
        };
        let d = gen::docs(r);
        let f = |r: &mut Rng| {
            let (n, t, x) = (gen::field_name(r), gen::type_name(r), any(r));
            fld(n, x, t, &[])
        };
        let path: Vec<&str> = match r.below(8) {
            0 => vec![r.pick(&["Call", "Event", "MultiSignature", "Era", "RuntimeCall", "AccountId32", "Perbill"])],
            1..=3 => vec![],
            _ => vec!["x", "T"],
        };
        let t = match r.below(14) {
            0..=2 => mk(&path, comp(vec![f(r)]), &d),
            3 => mk(&path, comp(vec![f(r), f(r)]), &d),
            4..=5 => mk(&path, tup(&[any(r)]), &d),
            6 => mk(&path, tup(&[any(r), any(r)]), &d),
            7 => mk(&path, arr(any(r), r.pick(&[0, 1, 2, 3])), &d),
            8 => mk(&path, seq(any(r)), &d),
            9..=10 => mk(&path, cpt(any(r)), &d),
            11 => {
                let s = if r.chance(1, 2) { any(r) } else { r.pick(&[gen::U8, gen::U16, gen::U32, gen::U64, 10, gen::U128]) };
                let o = if r.chance(1, 2) { any(r) } else { r.pick(&[gen::LSB, gen::MSB, gen::UNIT]) };
                mk(&path, bitseq(s, o), &d)
            }
            _ => {
                let mut v = vec![var("A", 0, vec![f(r)], &[]), var("B", 1, vec![f(r), f(r)], &[])];
                if r.chance(1, 2) {
                    v.push(var("C", 2, vec![], &[]));
                }
                if r.chance(1, 10) {
                    // same index twice
                    v.push(var("D", 0, vec![], &[]));
                }
                mk(&path, enm(v), &d)
            }
        };
        b.add(t);
    }
    // redirect some references of what was well-formed
    if n0 > 18 {
        let total = b.types.len() as u64;
        for _ in 0..r.range(1, 4) {
            let k = r.range(18, total - 1) as usize;
            let mut v = refs(&mut b.types[k]);
            if !v.is_empty() {
                let m = v.len();
                *v[r.idx(m)] = r.below(total + 2) as u32;
            }
        }
    }
    let mut reg = b.finish();
    if r.chance(1, 10) {
        // a description cut off
        let k = reg.types.len() - r.idx(4).min(reg.types.len() - 19);
        reg.types.truncate(k);
    }
    let h = vec![0; reg.types.len()];
    World { reg: reg.into(), h: h.into(), first: 18, depth: 30 }
}

/// Registry of a cycle with known members, entered at the first.
fn ring(r: &mut Rng) -> (World, u32) {
    let mut b = Builder::new();
    // long ones mostly of one kind: a compact of most things ends the search at once
    let n = if r.chance(1, 4) { r.range(30, 400) as u32 } else { r.pick(&[1u32, 1, 2, 3, 4, 5, 8, 20, 100]) };
    let kinds: &[u64] = r.pick(&[&[0, 1, 2, 3, 4][..], &[0, 1, 2, 3], &[0], &[1], &[2], &[3], &[0, 2], &[0, 1, 4], &[4]]);
    let lead = if r.chance(1, 4) { r.below(100) } else { r.below(3) } as u32;
    let base = 18;
    let plain = r.chance(1, 3);
    let n = dict::num(r, 1, 400).map_or(n, |n| n as u32);
    // lead-in, then a ring without data
    for i in 0..n + lead {
        let next = if i == n + lead - 1 { base + lead } else { base + i + 1 };
        let k = r.idx(kinds.len());
        let (name, ty) = if plain { (None, None) } else { (gen::field_name(r), gen::type_name(r)) };
        let t = match kinds[k] {
            0 => mk(&[], comp(vec![fld(name, next, ty, &[])]), &[]),
            1 => mk(&["S"], comp(vec![fld(Some("a"), gen::UNIT, None, &[]), fld(name.or(Some("b")), next, ty, &[])]), &[]),
            2 => mk(&[], tup(&[next]), &[]),
            3 => mk(&[], arr(next, r.pick(&[1, 2, 1000, u32::MAX])), &[]),
            _ => mk(&[], cpt(next), &[]),
        };
        b.add(t);
    }
    (World { reg: b.finish().into(), h: vec![].into(), first: base, depth: 30 }, base)
}

fn bounded(st: &mut Local, what: &str, budget: u64, f: impl FnOnce(&mut Mem)) {
    let mut m = Mem::with_budget(budget);
    match guarded(|| f(&mut m)) {
        Ok(()) => {
            st.class_n("accesses observed", m.n);
        }
        Err(Pan::Budget(n)) => st.fail(format!("more than {n} steps: {what}")),
        Err(Pan::Code(e)) => st.fail(format!("{e}: {what}")),
        Err(Pan::Harness(e)) => panic!("{e}"),
    }
}

fn one(w: &World, id: u32, b: &[u8], st: &mut Local, case: u64) {
    let mut m = Model::new(&w.reg, b);
    m.max_steps = 20_000;
    m.max_depth = 600;
    let want = m.all(id);
    let steps = m.steps;
    if let Err(ME::Skip) = want {
        st.skip();
        return;
    }
    let say = || format!("type {id}: {}; data {}", show_ty(&w.reg, id), hexs(b));
    // each step of the reference resolves few types; checks of special types look further
    let budget = 2000 + 200 * (steps + b.len() as u64 + w.reg.types.len() as u64);
    let mut got = None;
    bounded(st, &say(), budget, |mem| {
        let buf = LogBuf::new(b, 0);
        got = Some(substrate_parser::decode_all_as_type::<LogBuf, Mem, ExtMeta>(&sym(id), &buf, mem, &ExtReg(w.reg.clone())));
    });
    match (&want, &got) {
        (_, None) => {}
        (Ok(x), Some(Ok(y))) => {
            if let Some(d) = diff(&of_ext(x), &of_ext(y), "value".into()) {
                st.fail(format!("{d}; {}", say()))
            }
            st.class("decoded")
        }
        (Err(e), Some(Ok(y))) => st.fail(format!("gives {} where {e:?} is due; {}", cut(format!("{y:?}"), 300), say())),
        (Ok(_), Some(Err(e))) => st.fail(format!("legitimate data refused with {e:?}; {}", say())),
        (Err(ME::P(x)), Some(Err(y))) => {
            use ParserError::Registry as PR;
            use RegistryError::Internal as I;
            let kind = |s: String| s.chars().take_while(|c| !c.is_ascii_digit()).collect::<String>();
            st.class(&kind(format!("{x:?}")));
            // a broken description is named as such
            if matches!(x, PR(_)) && !matches!(y, PR(I(_))) {
                st.fail(format!("{y:?} where {x:?} is due; {}", say()))
            }
            if let (PR(I(RI::CyclicMetadata { .. })), y) = (x, y) {
                if !matches!(y, PR(I(RI::CyclicMetadata { .. }))) {
                    st.fail(format!("cycle reported as {y:?}; {}", say()))
                }
            }
        }
        (Err(ME::Skip), _) => {}
    }
    st.eval(super::types::key(id, b, case));
    st.sample(|| format!("{} <- {} => {}", show_ty(&w.reg, id), hexs(b), cut(format!("{:?}", want.as_ref().err()), 200)));
}

fn bytes_for(r: &mut Rng) -> Vec<u8> {
    let n = r.idx(40);
    match r.below(4) {
        0 => vec![0; n],
        1 => (0..n).map(|_| r.pick(&[0u8, 1, 2, 4, 8])).collect(),
        _ => r.bytes(n),
    }
}

fn c11(run: &Runner) {
    // types far apart in long descriptions
    run.stage("far apart", run.cfg.n(240), |r, c, st| {
        let kind = r.below(4);
        let (w, of) = match kind {
            0 => (World::random(r), None),
            1 => {
                let (w, id) = super::types::nested(r);
                (w, Some(id))
            }
            _ => (broken_world(r), None),
        };
        let huge = c % 8 == 0;
        let rows = r.pick(&[2usize, 3, 5, 12]);
        let (w, ids) = w.stretched(if huge { 65536 } else { 256 }, if huge { rows.min(3) } else { rows });
        if ids.is_empty() {
            return;
        }
        for _ in 0..20 {
            let id = match of {
                Some(id) if r.chance(1, 2) => ids[id as usize - 18],
                _ => ids[r.idx(ids.len())],
            };
            if kind < 2 {
                if let Some(x) = w.value(r, id) {
                    one(&w, id, &x.bytes, st, c);
                }
            }
            let b = bytes_for(r);
            one(&w, id, &b, st, c);
            if st.failed() {
                return;
            }
        }
    });
    run.stage("soup", run.cfg.n(40_000), |r, c, st| {
        let w = broken_world(r);
        for _ in 0..20 {
            let id = if r.chance(2, 3) { r.range(18, w.reg.types.len() as u64 + 1) } else { r.below(w.reg.types.len() as u64 + 3) } as u32;
            let b = bytes_for(r);
            one(&w, id, &b, st, c);
            if st.failed() {
                return;
            }
        }
    });
    run.stage("rings", run.cfg.n(4_000), |r, c, st| {
        let (w, id) = ring(r);
        for _ in 0..4 {
            let b = bytes_for(r);
            one(&w, id, &b, st, c);
        }
    });
    // compact over each kind of type, directly, through wrappers and inside of others
    run.stage("under compact", run.cfg.n(8_000), |r, c, st| {
        let mut b = Builder::new();
        for _ in 0..r.range(1, 5) {
            b.add_random(r);
        }
        let k = match r.below(4) {
            0 => b.add_pallets(r),
            1 => {
                let which = r.idx(21);
                b.add_special(r, which)
            }
            2 => r.below(18) as u32,
            _ => b.types.len() as u32 - 1,
        };
        let sound = World::of(gen::registry(b.types.clone()), 18);
        let single = |r: &mut Rng, x: u32| match r.below(3) {
            0 => mk(&[], tup(&[x]), &[]),
            1 => mk(&["W"], comp(vec![fld(None, x, None, &[])]), &[]),
            _ => {
                let (n, t) = (gen::field_name(r), gen::type_name(r));
                mk(&["W"], comp(vec![fld(n, x, t, &[])]), &[])
            }
        };
        let t1 = single(r, k);
        let wrapped = b.add(t1);
        let ids = [b.add(mk(&[], cpt(k), &[])), b.add(mk(&[], cpt(wrapped), &[]))];
        let mut all = ids.to_vec();
        for x in ids {
            let t = single(r, x);
            all.push(b.add(t));
            all.push(b.add(mk(&[], cpt(x), &[])));
            all.push(b.add(mk(&[], seq(x), &[])));
            all.push(b.add(mk(&[], arr(x, 1), &[])));
            all.push(b.add(mk(&["E"], enm(vec![var("A", 0, vec![fld(Some("x"), x, None, &[])], &[])]), &[])));
            all.push(b.add(mk(&[], tup(&[gen::U8, x]), &[])));
        }
        let w = World::of(b.finish(), 18);
        for id in all {
            // the data that the inner type alone has, and a compact number
            let plain = sound.value(r, k).map(|x| x.bytes).unwrap_or_default();
            let mut number = vec![];
            gen::put_compact(&mut number, r.pick(&[0u128, 1, 63, 64, 0x3fff, 0x4000, 1 << 30, u64::MAX as u128]));
            for b in [&plain, &number] {
                for lead in [&[][..], &[0], &[4]] {
                    one(&w, id, &[lead, &b[..]].concat(), st, c);
                }
            }
            if st.failed() {
                return;
            }
        }
    });
    // legitimate recursion must work
    run.stage("recursion", run.cfg.n(4_000), |r, c, st| {
        let mut b = Builder::new();
        let k = r.range(1, 3) as usize;
        b.open_recursion(r, k);
        for _ in 0..r.range(2, 10) {
            b.add_random(r);
        }
        // a type that contains itself through sequences only
        let me = b.types.len() as u32;
        let s = b.add(mk(&[], seq(me + 1), &[]));
        b.add(mk(&["Tree"], comp(vec![fld(Some("v"), gen::U8, None, &[]), fld(Some("c"), s, None, &[])]), &[]));
        b.close_recursion(r);
        let w = World::of(b.finish(), 18);
        for _ in 0..10 {
            let id = if r.chance(1, 3) { me + 1 } else { w.target(r) };
            if let Some(x) = w.value(r, id) {
                one(&w, id, &x.bytes, st, c);
                let (y, _) = mutate(r, &x.bytes);
                one(&w, id, &y, st, c);
            }
        }
    });
    // whole operations with metadata made of broken types
    run.stage("operations", run.cfg.n(12_000), |r, c, st| {
        let w = broken_world(r);
        let n = w.reg.types.len() as u64 + 2;
        let meta = super::tx::random_meta(r, &w, n);
        for _ in 0..6 {
            let b = bytes_for(r);
            operations(&meta, &b, r, st, c);
        }
    });
    super::meta::c11_metadata(run);
}

/// All entry points on one input, bounded.
pub fn operations(meta: &Meta, b: &[u8], r: &mut Rng, st: &mut Local, case: u64) {
    use crate::model2 as m2;
    let em = ExtMeta(meta.clone());
    let budget = 4_000_000;
    let say = |what: &str| format!("{what}; call type {}; data {}", show_ty(&meta.reg, meta.params.call_ty.id), hexs(b));
    let mut marked = vec![];
    gen::put_compact(&mut marked, r.below(b.len() as u64 + 2) as u128);
    marked.extend(b);
    let ok = |x: bool, y: bool, what: &str, st: &mut Local| {
        if x != y {
            st.fail(say(&format!("{what}: {} where the reference {}", if y { "accepted" } else { "refused" }, if x { "accepts" } else { "refuses" })));
        }
    };
    macro_rules! op {
        ($name:expr, $model:expr, $mok:pat, $mem:ident, $real:expr) => {{
            let want = $model;
            match want {
                m2::O::Skip => st.skipped += 1,
                w => {
                    let want_ok = matches!(w, $mok);
                    let mut got = None;
                    bounded(st, &say($name), budget, |$mem| got = Some($real.is_ok()));
                    if let Some(g) = got {
                        ok(want_ok, g, $name, st);
                        st.class(&format!("{}: {}", $name, if g { "accepted" } else { "refused" }));
                    }
                    st.eval(super::types::key($name.len() as u32, b, case));
                }
            }
        }};
    }
    let buf = LogBuf::new(&marked, 0);
    op!("marked transaction", m2::marked_tx(meta, &marked, None), m2::O::Ok(_), m, substrate_parser::parse_transaction::<LogBuf, Mem, ExtMeta>(&buf, m, &em, None));
    let plain = LogBuf::new(b, 0);
    op!("unmarked transaction", m2::unmarked_tx(meta, b, None), m2::O::Ok(_), m, substrate_parser::parse_transaction_unmarked::<LogBuf, Mem, ExtMeta>(&plain, m, &em, None));
    let mut x = vec![if r.chance(1, 2) { 0x80 | meta.version } else { meta.version }];
    x.extend(b);
    let mut e = vec![];
    gen::put_compact(&mut e, x.len() as u128);
    e.extend(x);
    let xb = LogBuf::new(&e, 0);
    op!("unchecked extrinsic", m2::extrinsic(meta, &e), m2::O::Ok(_), m, substrate_parser::decode_as_unchecked_extrinsic::<LogBuf, Mem, ExtMeta>(&xb, m, &em));
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C11",
        rule: "Type descriptions with random, missing, cyclic and unsuitable references, rings without data of up to 400 types, legitimate recursion; each decoded from external memory under a budget of steps (200 per step of the reference decoder, data byte and type), all whole operations and metadata as well. Outcome compared with the reference. Non-trivial: every case; distinct by (type, bytes, description).",
        level: "exploration",
        assumptions: &["a case the reference decoder gives up on (20000 steps, depth 600) is skipped"],
        min_distinct: 100_000,
        run: c11,
    }]
}
