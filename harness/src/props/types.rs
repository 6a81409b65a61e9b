//! Typed decoding: C01, C02, C17 (tags), C22 (types), C23, C24, C25 (parsed items).
use crate::common::*;
use crate::dict;
use crate::gen::{self, arr, comp, cpt, enm, fld, mk, seq, tup, var, Builder};
use crate::model::{Model, ME};
use crate::proj::{first_diff, project, Aspect};
use crate::rng::Rng;
use crate::run::{hash_bytes, mix, Local, Runner, Spec};
use crate::val::{diff, of_ext};
use crate::verify::verify;
use external_memory_tools::BufferError;
use std::sync::Arc;
use substrate_parser::cards::ExtendedData;
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError as RI};

pub fn world_of(r: &mut Rng, real_share: u64) -> (World, String) {
    if r.chance(real_share, 100) {
        let ws = real_worlds();
        if !ws.is_empty() {
            let k = r.idx(ws.len());
            let w = &ws[k].1;
            return (w.same(), ws[k].0.clone());
        }
    }
    (World::random(r), "generated".into())
}

pub fn key(id: u32, bytes: &[u8], salt: u64) -> u64 {
    mix(hash_bytes(bytes) ^ salt.wrapping_mul(0x1234567), id as u64)
}

pub fn say(w: &World, src: &str, id: u32, b: &[u8]) -> String {
    format!("type {id} of {src}: {}; data {}", show_ty(&w.reg, id), hexs(b))
}

const VALUES: usize = 20;

fn c01(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, real: u64, case: u64| {
        let (w, src) = world_of(r, real);
        for _ in 0..VALUES {
            let id = w.target(r);
            let Some(x) = w.value(r, id) else { continue };
            check_value(&w, &src, &x, r, st, case);
            if st.failed() {
                return;
            }
        }
    };
    run.stage("random", run.cfg.n(25_000), |r, c, st| body(r, st, 0, c));
    run.stage("real", run.cfg.n(4_000), |r, c, st| body(r, st, 100, c));
    // every type of the real descriptions at least once
    let n: usize = real_worlds().iter().map(|w| w.1.reg.types.len()).sum();
    run.stage("real-each-type", n as u64, |r, c, st| {
        let mut k = c as usize;
        for (name, w, _) in real_worlds() {
            if k < w.reg.types.len() {
                let w = w.same();
                for _ in 0..run.cfg.n(4) {
                    if let Some(x) = w.value(r, k as u32) {
                        check_value(&w, name, &x, r, st, c);
                    }
                }
                return;
            }
            k -= w.reg.types.len();
        }
    });
    // long sequences and texts, deep nesting
    run.stage("large", run.cfg.n(150), |r, c, st| {
        let w = World::random(r);
        for _ in 0..4 {
            let id = w.target(r);
            if let Some(x) = w.gen(r, id, None, true) {
                check_value(&w, "generated", &x, r, st, c);
            }
        }
    });
    // arrays, texts, bits, sequences and lists of fields longer than a byte or two of length can tell
    run.stage("long", run.cfg.n(160), |r, c, st| {
        let (w, id) = long(r);
        for _ in 0..2 {
            if let Some(x) = w.gen(r, id, None, true) {
                check_value(&w, "long", &x, r, st, c);
            }
        }
    });
    run.stage("far apart", run.cfg.n(160), |r, c, st| {
        let tower = r.chance(1, 2);
        let (w, id) = if tower { nested(r) } else { (World::random(r), 18) };
        let huge = c % 8 == 0;
        let rows = r.pick(&[2usize, 3, 5, 12]);
        let (w, ids) = w.stretched(if huge { 65536 } else { 256 }, if huge { rows.min(3) } else { rows });
        for _ in 0..10 {
            let id = if tower && r.chance(1, 2) && id >= 18 { ids[id as usize - 18] } else if ids.is_empty() { return } else { ids[r.idx(ids.len())] };
            if let Some(x) = w.value(r, id) {
                check_value(&w, "far apart", &x, r, st, c);
            }
        }
    });
    leaf_bytes_stage(run, leaf_one);
    run.stage("nested", run.cfg.n(200), |r, c, st| {
        let (w, id) = nested(r);
        for _ in 0..4 {
            if let Some(x) = w.value(r, id) {
                check_value(&w, "nested", &x, r, st, c);
            }
        }
    });
}

/// The value of a leaf with the reference.
fn leaf_one(w: &World, id: u32, b: &[u8], st: &mut Local) {
    let Some((Ok(want), got)) = both(w, id, b, st) else { return };
    match got {
        Ok(g) => {
            if let Some(d) = diff(&of_ext(&want), &of_ext(&g), "value".into()) {
                st.fail(format!("{d}; {}", say(w, "leaves", id, b)));
            }
        }
        Err(e) => st.fail(format!("valid data rejected: {e:?}; {}", say(w, "leaves", id, b))),
    }
    st.eval(key(id, b, 0x1eaf));
    st.class("leaf values");
}

/// A type with very many parts, maybe inside another.
pub fn long(r: &mut Rng) -> (World, u32) {
    let mut b = Builder::new();
    let n = r.pick(&[255u32, 256, 257, 300, 1000, 16383, 16384, 16385, 65535, 65536, 65537, 70000, 131071, 131073]);
    let n = dict::num(r, 1, 132_000).map_or(n, |n| n as u32);
    let few = r.pick(&[255u32, 256, 257, 300, 700]) as usize;
    let few = dict::num(r, 1, 2000).map_or(few, |n| n as usize);
    let leaf = |r: &mut Rng| r.pick(&[gen::U8, gen::U8, gen::BOOL, 1, gen::U16, gen::U32, gen::UNIT, 9, 10]);
    let mut id = match r.below(9) {
        0..=2 => b.add(mk(&[], arr(leaf(r), n), &[])),
        3 => {
            // arrays of arrays
            let k = r.pick(&[1, 2, 3, 255, 256, 300]);
            let e = leaf(r);
            let inner = b.add(mk(&[], arr(e, k), &[]));
            b.add(mk(&[], arr(inner, (n / k).max(1)), &[]))
        }
        4 => {
            let e = b.add(mk(&["Wrap"], comp(vec![fld(Some("w"), gen::U8, None, &[])]), &[]));
            if r.chance(1, 2) {
                b.add(mk(&[], arr(e, n), &[]))
            } else {
                b.add(mk(&[], seq(e), &[]))
            }
        }
        5 => {
            let f: Vec<u32> = (0..few).map(|_| leaf(r)).collect();
            b.add(mk(&[], tup(&f), &[]))
        }
        6 => {
            let f: Vec<_> = (0..few).map(|i| fld(Some(&format!("f{i}")), leaf(r), None, &[])).collect();
            b.add(mk(&["Many"], comp(f), &[]))
        }
        7 => {
            // every index of an enumeration, in some order
            let mut at: Vec<u8> = (0..=255).collect();
            for i in (1..256).rev() {
                at.swap(i, r.idx(i + 1));
            }
            let n = r.range(129, 256) as usize;
            let v: Vec<_> = at[..n].iter().map(|i| var(&format!("V{i}"), *i, vec![fld(None, leaf(r), None, &[])], &[])).collect();
            let e = b.add(mk(&["Every"], enm(v), &[]));
            b.add(mk(&[], arr(e, few as u32 * 4), &[]))
        }
        _ => {
            let e = match r.below(3) {
                0 => gen::STR,
                1 => b.add(mk(&[], gen::bitseq(r.pick(&[gen::U8, gen::U16, gen::U32, gen::U64]), r.pick(&[gen::LSB, gen::MSB])), &[])),
                _ => b.add(mk(&[], seq(leaf(r)), &[])),
            };
            b.add(mk(&[], tup(&[e, gen::U16]), &[]))
        }
    };
    match r.below(4) {
        0 => id = b.add(mk(&["Option"], enm(vec![var("None", 0, vec![], &[]), var("Some", 1, vec![fld(None, id, None, &[])], &[])]), &[])),
        1 => id = b.add(mk(&["Next"], comp(vec![fld(Some("a"), gen::U32, None, &[]), fld(Some("b"), id, None, &[]), fld(Some("c"), gen::U16, None, &[])]), &[])),
        _ => {}
    }
    (World::of(b.finish(), 18), id)
}

/// A tower of containers over a leaf.
pub fn nested(r: &mut Rng) -> (World, u32) {
    let mut b = Builder::new();
    let mut id = r.below(18) as u32;
    let high = r.chance(1, 10);
    // sometimes wrappers only, up to what counts as one element
    let only = high && r.chance(1, 2);
    let n = if high { r.range(46, 160) } else { r.range(3, 45) };
    let n = dict::num(r, 3, 160).unwrap_or(n);
    for i in 0..n {
        let t = match if only { if i + 3 > n { 2 + r.below(4) } else { 6 } } else { r.below(6) } {
            6 => mk(&["a", "W"], comp(vec![fld(r.pick(&[None, Some("w")]), id, None, &gen::docs(r))]), &gen::docs(r)),
            0 => mk(&[], comp(vec![fld(None, id, None, &[])]), &gen::docs(r)),
            1 => mk(&["a", "T"], comp(vec![fld(Some("x"), gen::U8, None, &[]), fld(Some("y"), id, Some("Balance"), &[])]), &[]),
            2 => mk(&[], tup(&[id]), &[]),
            3 => mk(&["Option"], enm(vec![var("None", 0, vec![], &[]), var("Some", 1, vec![fld(None, id, None, &[])], &[])]), &[]),
            4 => mk(&[], arr(id, 1), &[]),
            _ => mk(&[], seq(id), &[]),
        };
        id = b.add(t);
    }
    let mut w = World::of(b.finish(), 18);
    w.depth = 200;
    (w, id)
}

fn check_value(w: &World, src: &str, x: &Val, r: &mut Rng, st: &mut Local, case: u64) {
    let id = x.id;
    let before = r.idx(6);
    let mut data = r.bytes(before);
    let after = r.idx(6);
    data.extend(&x.bytes);
    data.extend(r.bytes(after));
    let mut pos = before;
    match real_at(&w.reg, id, &data, &mut pos) {
        Ok(e) => {
            if let Some(d) = diff(&x.v, &of_ext(&e), "value".into()) {
                st.fail(format!("{d}; {}", say(w, src, id, &x.bytes)));
            } else if pos != before + x.bytes.len() {
                st.fail(format!("used {} bytes of {}; {}", pos as i64 - before as i64, x.bytes.len(), say(w, src, id, &x.bytes)));
            }
            if let Ok(want) = Model::new(&w.reg, &x.bytes).all(id) {
                if let Some(d) = first_diff(&project(Aspect::Names, &want), &project(Aspect::Names, &e)) {
                    st.fail(format!("names: {d}; {}", say(w, src, id, &x.bytes)));
                }
            }
        }
        Err(e) => st.fail(format!("valid data rejected: {e:?}; {}", say(w, src, id, &x.bytes))),
    }
    match real_all(&w.reg, id, &x.bytes) {
        Ok(e) => {
            if let Some(d) = diff(&x.v, &of_ext(&e), "value".into()) {
                st.fail(format!("decoding the whole: {d}; {}", say(w, src, id, &x.bytes)));
            }
        }
        Err(e) => st.fail(format!("valid data rejected as a whole: {e:?}; {}", say(w, src, id, &x.bytes))),
    }
    if x.bytes.is_empty() {
        st.eval_trivial()
    } else {
        st.eval(key(id, &x.bytes, case));
    }
    st.class(&format!("type {}", class_of(&w.reg, id)));
    if x.bytes.len() > 16384 {
        st.class("values longer than 16384 bytes");
    }
    st.class_n("leaf values compared", x.v.leaves() as u64);
    st.sample(|| format!("{} <- {}", show_ty(&w.reg, id), hexs(&x.bytes)));
}

/// Types of fixed length, plain and in other types, each with its length; char and text at the end.
fn leaf_world() -> (World, Vec<(u32, usize)>) {
    let mut b = Builder::new();
    let mut r = Rng::new(11);
    let mut inner: Vec<(u32, usize)> = vec![(0, 1), (1, 4)];
    for (k, id) in (3u32..15).enumerate() {
        inner.push((id, [1, 2, 4, 8, 16, 32][k % 6]));
    }
    for (k, n) in [(0, 32), (2, 20), (3, 32), (4, 64), (5, 2), (6, 1), (7, 4), (8, 4), (9, 8), (10, 32), (11, 32), (12, 33), (13, 64), (14, 64), (15, 65)] {
        inner.push((b.add_special(&mut r, k), n));
    }
    let mut ids = vec![];
    for (id, n) in inner {
        ids.push((id, n));
        ids.push((b.add(mk(&[], arr(id, 1), &[])), n));
        ids.push((b.add(mk(&["W"], comp(vec![fld(Some("inner"), id, None, &[])]), &[])), n));
    }
    (World::of(b.finish(), 18), ids)
}

/// Every byte at every place of every leaf, in front of three backgrounds.
fn leaf_bytes_stage(run: &Runner, f: impl Fn(&World, u32, &[u8], &mut Local) + Sync) {
    let (w, ids) = leaf_world();
    let n: usize = ids.iter().map(|x| x.1).sum();
    run.stage("leaf bytes", n as u64, |r, c, st| {
        let mut k = c as usize;
        for (id, n) in &ids {
            if k < *n {
                for back in 0..3 {
                    let mut d = match back {
                        0 => vec![0; *n],
                        1 => vec![0xff; *n],
                        _ => r.bytes(*n),
                    };
                    for x in 0..=255u8 {
                        d[k] = x;
                        f(&w, *id, &d, st);
                    }
                }
                return;
            }
            k -= *n;
        }
    });
    let (ch, text) = (1u32, 2u32);
    run.stage("characters", 0x1200, |_, c, st| {
        for k in 0..256 {
            let k = c as u32 * 256 + k;
            f(&w, ch, &k.to_le_bytes(), st);
            if let Some(k) = char::from_u32(k) {
                let s = k.to_string();
                let mut d = vec![(s.len() as u8) << 2];
                d.extend(s.as_bytes());
                f(&w, text, &d, st);
            }
        }
    });
}

/// Run the reference and the code on the whole of the data.
fn both(w: &World, id: u32, b: &[u8], st: &mut Local) -> Option<(Result<ExtendedData, PE>, Result<ExtendedData, PE>)> {
    match Model::new(&w.reg, b).all(id) {
        Ok(x) => Some((Ok(x), real_all(&w.reg, id, b))),
        Err(ME::P(e)) => Some((Err(e), real_all(&w.reg, id, b))),
        Err(ME::Skip) => {
            st.skip();
            None
        }
    }
}

fn c02_one(w: &World, src: &str, id: u32, b: &[u8], how: &str, st: &mut Local, case: u64) {
    let Some((want, got)) = both(w, id, b, st) else { return };
    match (&want, &got) {
        (Ok(_), Err(e)) => st.fail(format!("valid data rejected with {e:?}; {}", say(w, src, id, b))),
        (Err(e), Ok(g)) => st.fail(format!("accepted data that is no value of the type ({e:?}) as {}; {}", cut(format!("{:?}", of_ext(g)), 500), say(w, src, id, b))),
        (_, Ok(g)) => {
            if let Err(e) = verify(&w.reg, id, b, &of_ext(g)) {
                st.fail(format!("accepted data not accounted for: {e}; {}", say(w, src, id, b)));
            }
        }
        _ => {}
    }
    if how == "invalid leaf" && got.is_ok() {
        st.fail(format!("data with an invalid leaf accepted; {}", say(w, src, id, b)));
    }
    if how == "valid" && b.is_empty() {
        st.eval_trivial()
    } else {
        st.eval(key(id, b, case));
    }
    st.class(&format!("{how}: {}", if got.is_ok() { "accepted" } else { "rejected" }));
    st.sample(|| format!("{how}: {} <- {} => {}", show_ty(&w.reg, id), hexs(b), if got.is_ok() { "accepted" } else { "rejected" }));
}

/// A small world with one type of every kind, for exhaustive short inputs.
fn short_world() -> (World, Vec<u32>) {
    let mut b = Builder::new();
    let mut ids: Vec<u32> = vec![0, 2, 3, 4, 8 + 1, 17];
    let p = |b: &mut Builder, t| b.add(t);
    for u in [gen::U8, gen::U16, gen::U32, gen::U64, gen::U128, gen::UNIT] {
        ids.push(p(&mut b, mk(&[], cpt(u), &[])));
    }
    for u in [0, gen::U8, gen::U16, gen::STR, gen::UNIT] {
        ids.push(p(&mut b, mk(&[], seq(u), &[])));
    }
    for s in [gen::U8, gen::U16, gen::U32, gen::U64] {
        for o in [gen::LSB, gen::MSB] {
            ids.push(p(&mut b, mk(&[], gen::bitseq(s, o), &[])));
        }
    }
    let mut r = Rng::new(7);
    for k in [1, 5, 6] {
        let t = b.add_special(&mut r, k);
        ids.push(t);
        if k > 1 {
            ids.push(p(&mut b, mk(&[], cpt(t), &[])));
        }
    }
    let opt = |b: &mut Builder, t: u32| {
        b.add(mk(&["Option"], enm(vec![var("None", 0, vec![], &[]), var("Some", 1, vec![fld(None, t, None, &[])], &[])]), &[]))
    };
    for t in [0, gen::U8, gen::STR] {
        let o = opt(&mut b, t);
        ids.push(o);
        let s = b.add(mk(&[], seq(o), &[]));
        ids.push(s);
    }
    ids.push(p(&mut b, mk(&["E"], enm(vec![var("A", 3, vec![], &[]), var("B", 200, vec![fld(Some("x"), gen::U8, None, &[])], &[]), var("C", 255, vec![fld(Some("x"), 0, None, &[])], &[])]), &[])));
    ids.push(p(&mut b, mk(&[], tup(&[0, 0]), &[])));
    ids.push(p(&mut b, mk(&[], arr(0, 2), &[])));
    ids.push(p(&mut b, mk(&["S"], comp(vec![fld(Some("a"), 0, None, &[]), fld(Some("b"), gen::U8, None, &[])]), &[])));
    let c8 = b.add(mk(&["W"], comp(vec![fld(None, gen::U8, None, &[])]), &[]));
    ids.push(p(&mut b, mk(&[], cpt(c8), &[])));
    // calls and events: two index bytes
    let inner = b.add(mk(&["p", "Call"], enm(vec![var("c0", 0, vec![], &[]), var("c9", 9, vec![], &[])]), &[]));
    ids.push(p(&mut b, mk(&["r", "RuntimeCall"], enm(vec![var("P0", 0, vec![fld(None, inner, None, &[])], &[]), var("P7", 7, vec![fld(None, inner, None, &[])], &[]), var("Q", 9, vec![], &[])]), &[])));
    (World::of(b.finish(), 18), ids)
}

fn c02(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, real: u64, case: u64| {
        let (w, src) = world_of(r, real);
        for _ in 0..VALUES * 2 {
            let Some((id, b, how)) = input(&w, r, 15) else { continue };
            c02_one(&w, &src, id, &b, how, st, case);
            if st.failed() {
                return;
            }
        }
    };
    run.stage("random", run.cfg.n(15_000), |r, c, st| body(r, st, 0, c));
    run.stage("real", run.cfg.n(3_000), |r, c, st| body(r, st, 100, c));
    let (w, ids) = compact_world();
    run.stage("compacts", (ids.len() * POINTS.len()) as u64, |r, c, st| {
        let id = ids[c as usize % ids.len()];
        for b in compact_inputs(r, c as usize / ids.len()) {
            c02_one(&w, "compacts", id, &b, "compact", st, c);
        }
    });
    leaf_bytes_stage(run, |w, id, b, st| c02_one(w, "leaves", id, b, "leaf", st, 0));
    run.stage("long", run.cfg.n(120), |r, c, st| {
        let (w, id) = long(r);
        let Some(x) = w.gen(r, id, None, true) else { return };
        let n = x.bytes.len();
        c02_one(&w, "long", id, &x.bytes, "valid", st, c);
        let mut b = x.bytes.clone();
        b.push(0);
        c02_one(&w, "long", id, &b, "extended", st, c);
        if n > 0 {
            let k = r.pick(&[n - 1, n / 2, n % 65536, r.clone().idx(n)]).min(n - 1);
            c02_one(&w, "long", id, &x.bytes[..k], "cut", st, c);
            let mut b = x.bytes.clone();
            let k = r.pick(&[n - 1, n / 2, n % 65536, r.clone().idx(n)]).min(n - 1);
            b[k] = r.pick(&[2, 0x80, 0xd8, 0xfe, 0xff]);
            c02_one(&w, "long", id, &b, "byte set", st, c);
        }
        if let Some(y) = w.poisoned(r, id) {
            c02_one(&w, "long", id, &y.bytes, "invalid leaf", st, c);
        }
    });
    // every truncation and every single-byte change of a value
    run.stage("all-cuts", run.cfg.n(1_500), |r, c, st| {
        let (w, src) = world_of(r, 10);
        let id = w.target(r);
        let Some(x) = w.value(r, id) else { return };
        if x.bytes.len() > 300 {
            return;
        }
        for k in 0..x.bytes.len() {
            c02_one(&w, &src, id, &x.bytes[..k], "cut", st, c);
        }
        for k in 0..x.bytes.len().min(24) {
            for v in [0u8, 1, 2, 3, 0x40, 0x7f, 0x80, 0xfc, 0xff] {
                let mut b = x.bytes.clone();
                b[k] = v;
                c02_one(&w, &src, id, &b, "byte set", st, c);
            }
        }
        let mut b = x.bytes.clone();
        b.push(0);
        c02_one(&w, &src, id, &b, "extended", st, c);
    });
    let (w, ids) = short_world();
    // all inputs of up to two bytes
    run.stage("all-short", 257, |_, c, st| {
        for id in &ids {
            if c == 256 {
                c02_one(&w, "short", *id, &[], "short", st, 0);
                continue;
            }
            c02_one(&w, "short", *id, &[c as u8], "short", st, 0);
            for k in 0..=255u8 {
                c02_one(&w, "short", *id, &[c as u8, k], "short", st, 0);
            }
        }
    });
}

fn aspects(w: &World, src: &str, id: u32, b: &[u8], a: Aspect, strict: bool, st: &mut Local, case: u64) {
    let Some((want, got)) = both(w, id, b, st) else { return };
    match (&want, &got) {
        (Ok(x), Ok(y)) => {
            let (p, q) = (project(a, x), project(a, y));
            if let Some(d) = first_diff(&p, &q) {
                st.fail(format!("{d}; {}", say(w, src, id, b)));
            }
            if p.is_empty() {
                st.eval_trivial()
            } else {
                st.eval(key(id, b, case));
            }
            st.class_n("statements compared", p.len() as u64);
            for s in p.iter() {
                let t = s.rsplit(": ").next().unwrap_or("");
                if matches!(a, Aspect::Kinds | Aspect::Tags) {
                    st.class(t);
                }
            }
            st.sample(|| format!("{} <- {} => {}", show_ty(&w.reg, id), hexs(b), cut(p.join(" ; "), 300)));
        }
        (Ok(x), Err(e)) if strict => st.fail(format!("not decoded ({e:?}), plain structure gives {}; {}", cut(format!("{:?}", of_ext(x)), 400), say(w, src, id, b))),
        (Err(_), Ok(_)) if strict => st.fail(format!("accepted although it is no value of the type; {}", say(w, src, id, b))),
        (Err(_), Err(_)) => st.eval_trivial(),
        _ => {}
    }
}

/// Chains of wrappers under fields with and without a meaning.
fn hint_world(r: &mut Rng) -> World {
    let mut b = Builder::new();
    let h256 = b.add_special(r, 3);
    let mut pool: Vec<u32> = vec![gen::U8, gen::U16, gen::U32, gen::U64, gen::U128, gen::STR, h256];
    let mut compactable: Vec<u32> = vec![gen::U8, gen::U16, gen::U32, gen::U64, gen::U128];
    for _ in 0..r.range(6, 20) {
        let n = pool.len();
        let ty = if r.chance(1, 2) { r.pick(&pool) } else { pool[n - 1 - r.idx(n.min(4))] };
        let path: Vec<&str> = match r.below(6) {
            0 => vec![],
            1 => vec![r.pick(&["CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"])],
            2 => vec!["pallet", r.pick(&["CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment", "CheckNonces", "CheckSpecVersion"])],
            _ => vec!["m", "Wrap"],
        };
        let f = |r: &mut Rng, t: u32| {
            let (n, tn) = (gen::field_name(r), gen::type_name(r));
            fld(if r.chance(1, 3) { None } else { n }, t, if r.chance(1, 3) { None } else { tn }, &[])
        };
        let mut c = compactable.contains(&ty);
        let t = match r.below(12) {
            0..=3 => mk(&path, comp(vec![f(r, ty)]), &[]),
            4 => {
                c = false;
                let o = r.pick(&pool);
                let mut v = vec![f(r, ty), f(r, o)];
                if r.chance(1, 2) {
                    v.swap(0, 1)
                }
                mk(&path, comp(v), &[])
            }
            5 => mk(&path, tup(&[ty]), &[]),
            6 => {
                c = false;
                let o = r.pick(&pool);
                mk(&path, tup(&[ty, o]), &[])
            }
            7 | 8 if c => {
                c = false;
                mk(&path, cpt(ty), &[])
            }
            9 => {
                c = false;
                let o = r.pick(&pool);
                mk(&path, enm(vec![var("A", 0, vec![f(r, ty)], &[]), var("B", 1, vec![f(r, ty), f(r, o)], &[])]), &[])
            }
            10 => {
                c = false;
                mk(&path, seq(ty), &[])
            }
            11 => {
                c = false;
                mk(&path, arr(ty, 2), &[])
            }
            _ => mk(&path, comp(vec![f(r, ty)]), &[]),
        };
        let id = b.add(t);
        if c {
            compactable.push(id)
        }
        pool.push(id);
    }
    let mut reg = b.finish();
    if r.chance(1, 4) {
        gen::misname(r, &mut reg, 6);
    }
    World::of(reg, 18)
}

pub fn tags_stages(run: &Runner) {
    run.stage("hints", run.cfg.n(12_000), |r, c, st| {
        let w = hint_world(r);
        for _ in 0..VALUES {
            let id = w.target(r);
            if let Some(x) = w.value(r, id) {
                aspects(&w, "hints", id, &x.bytes, Aspect::Tags, false, st, c);
            }
        }
    });
    run.stage("random", run.cfg.n(6_000), |r, c, st| {
        let (w, src) = world_of(r, 15);
        for _ in 0..VALUES {
            let id = w.target(r);
            if let Some(x) = w.value(r, id) {
                aspects(&w, &src, id, &x.bytes, Aspect::Tags, false, st, c);
            }
        }
    });
}

fn special_world(r: &mut Rng) -> World {
    let mut b = Builder::new();
    for _ in 0..r.range(1, 4) {
        b.add_random(r);
    }
    for _ in 0..r.range(4, 9) {
        match r.below(4) {
            0 => b.add_special(r, 16),
            1 => b.add_pallets(r),
            _ => {
                let k = r.below(21) as usize;
                b.add_special(r, k)
            }
        };
        if r.chance(1, 4) {
            let t = b.types.len() as u32 - 1;
            b.add(mk(&[], seq(t), &[]));
        }
    }
    let mut reg = b.finish();
    if r.chance(2, 5) {
        let one_in = r.pick(&[3, 8, 20]);
        gen::misname(r, &mut reg, one_in);
    }
    World::of(reg, 18)
}

fn c24(run: &Runner) {
    run.stage("recognition", run.cfg.n(10_000), |r, c, st| {
        let w = special_world(r);
        for _ in 0..VALUES {
            let id = w.target(r);
            if let Some(x) = w.value(r, id) {
                aspects(&w, "recognition", id, &x.bytes, Aspect::Kinds, true, st, c);
                if let Ok(e) = real_all(&w.reg, id, &x.bytes) {
                    if let Some(d) = diff(&x.v, &of_ext(&e), "value".into()) {
                        st.fail(format!("{d}; {}", say(&w, "recognition", id, &x.bytes)));
                    }
                }
            }
            if st.failed() {
                return;
            }
        }
    });
    run.stage("random", run.cfg.n(6_000), |r, c, st| {
        let (w, src) = world_of(r, 20);
        for _ in 0..VALUES {
            let id = w.target(r);
            if let Some(x) = w.value(r, id) {
                aspects(&w, &src, id, &x.bytes, Aspect::Kinds, false, st, c);
            }
        }
    });
    super::tx::c24_calls(run);
}

fn c25(run: &Runner) {
    run.stage("random", run.cfg.n(15_000), |r, c, st| {
        let (w, src) = world_of(r, 8);
        for _ in 0..VALUES {
            let id = w.target(r);
            if let Some(x) = w.value(r, id) {
                aspects(&w, &src, id, &x.bytes, Aspect::Infos, false, st, c);
            }
        }
    });
    run.stage("wrappers", run.cfg.n(4_000), |r, c, st| {
        let (w, id) = nested(r);
        for _ in 0..5 {
            if let Some(x) = w.value(r, id) {
                aspects(&w, "nested", id, &x.bytes, Aspect::Infos, false, st, c);
            }
        }
    });
    super::cards::c25_cards(run);
}

fn shift(e: &PE, by: usize) -> PE {
    match e {
        ParserError::Buffer(BufferError::DataTooShort { position, minimal_length }) => {
            ParserError::Buffer(BufferError::DataTooShort { position: position + by, minimal_length: *minimal_length })
        }
        ParserError::Buffer(BufferError::OutOfRange { position, total_length }) => {
            ParserError::Buffer(BufferError::OutOfRange { position: position + by, total_length: total_length + by })
        }
        ParserError::Buffer(BufferError::External(e)) => match *e {},
        ParserError::NoCompact { position } => ParserError::NoCompact { position: position + by },
        ParserError::SomeDataNotUsedBlob { from } => ParserError::SomeDataNotUsedBlob { from: from + by },
        ParserError::TypeFailure { position, ty } => ParserError::TypeFailure { position: position + by, ty },
        ParserError::UnexpectedEnumVariant { position } => ParserError::UnexpectedEnumVariant { position: position + by },
        ParserError::Registry(RegistryError::Internal(i)) => ParserError::Registry(RegistryError::Internal(match i {
            RI::CyclicMetadata { id } => RI::CyclicMetadata { id: *id },
            RI::ExtrinsicNoCallParam => RI::ExtrinsicNoCallParam,
            RI::NotBitOrderType { id } => RI::NotBitOrderType { id: *id },
            RI::NotBitStoreType { id } => RI::NotBitStoreType { id: *id },
            RI::TypeNotResolved { id } => RI::TypeNotResolved { id: *id },
            RI::UnexpectedCompactInsides { id } => RI::UnexpectedCompactInsides { id: *id },
            RI::UnexpectedExtrinsicType { extrinsic_ty_id } => RI::UnexpectedExtrinsicType { extrinsic_ty_id: *extrinsic_ty_id },
        })),
        ParserError::Registry(RegistryError::External(e)) => match *e {},
    }
}

fn c23_one(w: &World, src: &str, id: u32, b: &[u8], how: &str, r: &mut Rng, st: &mut Local, c: u64) {
    // the reference only bounds the work
    if let Err(ME::Skip) = Model::new(&w.reg, b).at(id, &mut 0) {
        st.skip();
        return;
    }
    let mut p0 = 0;
    let alone = real_at(&w.reg, id, b, &mut p0);
    for _ in 0..3 {
        let off = if r.chance(1, 20) { r.pick(&[255usize, 256, 300, 16384, 65536, 70000]) } else { r.idx(40) };
        let style = r.below(4);
        let pre = match style {
            0 => vec![0; off],
            1 => vec![0xff; off],
            _ => r.bytes(off),
        };
        let mut d = pre;
        d.extend(b);
        let mut p = off;
        match &alone {
            Ok(e0) => {
                let after = r.idx(40);
                match style {
                    0 => d.extend(vec![0xff; after]),
                    1 => d.extend(vec![0; after]),
                    _ => d.extend(r.bytes(after)),
                }
                match real_at(&w.reg, id, &d, &mut p) {
                    Ok(e1) => {
                        if *e0 != e1 {
                            st.fail(format!("at {off} gives {} instead of {}; {}", cut(format!("{e1:?}"), 500), cut(format!("{e0:?}"), 500), say(w, src, id, b)));
                        }
                        if p != off + p0 {
                            st.fail(format!("position moved from {off} to {p}, alone to {p0}; {}", say(w, src, id, b)));
                        }
                    }
                    Err(e) => st.fail(format!("at {off} of {} bytes rejected with {e:?}, accepted alone; {}", d.len(), say(w, src, id, b))),
                }
                // what follows the value does not matter alone either
                if p0 < b.len() || after == 0 {
                    let mut q = 0;
                    match real_at(&w.reg, id, &b[..p0], &mut q) {
                        Ok(e1) if e1 == *e0 && q == p0 => {}
                        o => st.fail(format!("with the bytes after the value removed: {}; {}", cut(format!("{o:?}"), 500), say(w, src, id, b))),
                    }
                }
            }
            Err(e0) => {
                let want = shift(e0, off);
                match real_at(&w.reg, id, &d, &mut p) {
                    Err(e1) if e1 == want => {}
                    o => st.fail(format!("at {off}: {} instead of {want:?}; {}", cut(format!("{o:?}"), 500), say(w, src, id, b))),
                }
            }
        }
        if off > 0 && !b.is_empty() {
            st.eval(mix(key(id, b, c), off as u64));
        } else {
            st.eval_trivial();
        }
    }
    st.class(&format!("{how}: {}", if alone.is_ok() { "value" } else { "error" }));
    st.sample(|| format!("{} <- {} ({how})", show_ty(&w.reg, id), hexs(b)));
}

fn c23(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, c: u64| {
        let (w, src) = world_of(r, 12);
        for _ in 0..VALUES {
            let Some((id, b, how)) = input(&w, r, 60) else { continue };
            c23_one(&w, &src, id, &b, how, r, st, c);
            if st.failed() {
                return;
            }
        }
    };
    run.stage("offsets", run.cfg.n(12_000), |r, c, st| body(r, st, c));
    // compacts of every kind, also those standing for something else than what is written
    let (w, ids) = compact_world();
    run.stage("compacts", (ids.len() * POINTS.len()) as u64, |r, c, st| {
        let id = ids[c as usize % ids.len()];
        for b in compact_inputs(r, c as usize / ids.len()) {
            c23_one(&w, "compacts", id, &b, "compact", r, st, c);
            if st.failed() {
                return;
            }
        }
    });
}

const POINTS: [u32; 15] = [0, 6, 7, 8, 14, 16, 20, 30, 32, 60, 64, 67, 120, 127, 128];
/// Compacts around a power of two and around the largest per-things, some longer than needed.
fn compact_inputs(r: &mut Rng, point: usize) -> Vec<Vec<u8>> {
    let k = POINTS[point];
    let base = if k == 128 { u128::MAX } else { 1u128 << k };
    let mut all = vec![base.saturating_sub(2), base - 1, base, base.saturating_add(1)];
    for e in [2u32, 6, 9, 18] {
        all.extend([10u128.pow(e) - 1, 10u128.pow(e), 10u128.pow(e) + 1]);
    }
    all.into_iter()
        .map(|v| {
            let mut b = vec![];
            if r.chance(1, 5) {
                gen::put_compact_wrong(r, &mut b, v)
            } else {
                gen::put_compact(&mut b, v)
            }
            for _ in 0..r.below(3) {
                gen::put_compact(&mut b, v);
            }
            let n = r.idx(30);
            b.extend(r.bytes(n));
            b
        })
        .collect()
}

/// Every type that may be compact, alone, in a tuple and in an array.
fn compact_world() -> (World, Vec<u32>) {
    let mut b = Builder::new();
    let mut ids = vec![];
    let mut inner = vec![gen::U8, gen::U16, gen::U32, gen::U64, gen::U128];
    for (name, ty) in [("Percent", gen::U8), ("PerU16", gen::U16), ("Permill", gen::U32), ("Perbill", gen::U32), ("Perquintill", gen::U64)] {
        inner.push(b.add(mk(&["sp_arithmetic", "per_things", name], comp(vec![fld(None, ty, None, &[])]), &[])));
    }
    let wrapped: Vec<u32> = inner.iter().map(|i| b.add(mk(&["Wrapper"], comp(vec![fld(Some("inner"), *i, None, &[])]), &[]))).collect();
    inner.extend(wrapped);
    inner.push(gen::UNIT);
    for i in inner {
        let c = b.add(mk(&[], cpt(i), &[]));
        ids.push(c);
        ids.push(b.add(mk(&[], gen::tup(&[c, gen::U32]), &[])));
        ids.push(b.add(mk(&[], gen::arr(c, 2), &[])));
        ids.push(b.add(mk(&["Holder"], comp(vec![fld(Some("c"), c, None, &[]), fld(Some("after"), gen::U16, None, &[])]), &[])));
    }
    (World::of(b.finish(), 18), ids)
}

/// C22 on typed decoding.
pub fn error_stages(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, real: u64, case: u64| {
        let (w, src) = world_of(r, real);
        for _ in 0..VALUES * 2 {
            let Some((id, b, how)) = input(&w, r, 2) else { continue };
            error_one(&w, &src, id, &b, how, st, case, r);
            if st.failed() {
                return;
            }
        }
    };
    run.stage("random", run.cfg.n(12_000), |r, c, st| body(r, st, 0, c));
    run.stage("real", run.cfg.n(2_500), |r, c, st| body(r, st, 100, c));
    run.stage("broken-types", run.cfg.n(8_000), |r, c, st| {
        let w = super::broken::broken_world(r);
        for _ in 0..VALUES {
            let id = r.below(w.reg.types.len() as u64 + 2) as u32;
            let n = r.idx(40);
            let b = if r.chance(1, 3) { vec![r.pick(&[0u8, 1, 4, 8]); n] } else { r.bytes(n) };
            error_one(&w, "broken", id, &b, "broken types", st, c, r);
        }
    });
}

/// C22 on all inputs of up to two bytes.
pub fn short_error_stages(run: &Runner) {
    let (w, ids) = short_world();
    run.stage("all-short", 257, |r, c, st| {
        for id in &ids {
            if c == 256 {
                error_one(&w, "short", *id, &[], "short", st, 0, r);
                continue;
            }
            error_one(&w, "short", *id, &[c as u8], "short", st, 0, r);
            for k in 0..=255u8 {
                error_one(&w, "short", *id, &[c as u8, k], "short", st, 0, r);
            }
        }
    });
}

fn error_one(w: &World, src: &str, id: u32, b: &[u8], how: &str, st: &mut Local, case: u64, r: &mut Rng) {
    let Some((want, got)) = both(w, id, b, st) else { return };
    match (want, got) {
        (Err(x), Err(y)) => {
            if x != y {
                st.fail(format!("error {y:?}, really {x:?}; {}", say(w, src, id, b)));
            }
            // the many short inputs end in the same few errors
            if how != "short" || r.chance(1, 20) {
                if let Err(d) = super::tx::told(&y.to_string(), &format!("{y:?}")) {
                    st.fail(format!("{d}; {}", say(w, src, id, b)));
                }
            }
            st.eval(key(id, b, case));
            let d = format!("{y:?}");
            st.class(&format!("{how}: {}", d.chars().take_while(|c| !c.is_ascii_digit()).collect::<String>()));
            st.sample(|| format!("{} <- {} => {d}", show_ty(&w.reg, id), hexs(b)));
        }
        (Ok(_), Err(y)) => st.fail(format!("error {y:?} on valid data; {}", say(w, src, id, b))),
        _ => st.eval_trivial(),
    }
    // inside larger data
    if r.chance(1, 3) {
        let off = if how != "short" && r.chance(1, 40) { r.pick(&[255usize, 256, 16384, 65535, 65536, 70000]) } else { r.range(1, 30) as usize };
        let mut d = r.bytes(off);
        d.extend(b);
        let after = r.idx(4);
        d.extend(r.bytes(after));
        let (mut p, mut q) = (off, off);
        let want = Model::new(&w.reg, &d).at(id, &mut p);
        if let Err(ME::Skip) = want {
            return;
        }
        if let (Err(ME::P(x)), Err(y)) = (want, real_at(&w.reg, id, &d, &mut q)) {
            if x != y {
                st.fail(format!("at {off}: error {y:?}, really {x:?}; {}", say(w, src, id, &d)));
            }
            st.eval(mix(key(id, &d, case), off as u64));
        }
    }
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C01",
            rule: "A random or real type description, a random value of a type in it written down together with its encoding by an independent encoder; the value decoded from the encoding (alone and surrounded by other bytes) is compared leaf by leaf, with names, order and byte count. Non-trivial: the encoding is not empty; distinct by (type, bytes, description).",
            level: "exploration",
            assumptions: &["the generator's encoder follows the SCALE specification"],
            min_distinct: 100_000,
            run: c01,
        },
        Spec {
            id: "C02",
            rule: "Valid, truncated, extended, flipped, spliced and random byte strings for random and real types, all strings of up to two bytes for 50 types, all cuts of values. Acceptance is compared with a reference decoder; of accepted data the bytes are recomputed from the result by an independent inverse walk. Non-trivial: not an empty valid encoding; distinct by (type, bytes, description).",
            level: "exploration",
            assumptions: &["padding bits of bit sequences and excess of compact per-things are not accounted for, as in the runtime"],
            min_distinct: 100_000,
            run: c02,
        },
        Spec {
            id: "C23",
            rule: "Valid and faulty data decoded alone, then at several offsets in larger data; value, position and shifted error must be identical. Non-trivial: offset and data not empty; distinct by (type, bytes, offset, description).",
            level: "exploration",
            assumptions: &[],
            min_distinct: 100_000,
            run: c23,
        },
        Spec {
            id: "C24",
            rule: "Type descriptions dense in call, event, signature, key, hash names and their near misses, with values and their encodings; the kind of every item of the result is compared with the reference decoder and the value with the generated one, and calls of transactions and extrinsics are accepted only as such. Non-trivial: at least one item; distinct by (type, bytes, description).",
            level: "exploration",
            assumptions: &[],
            min_distinct: 50_000,
            run: c24,
        },
        Spec {
            id: "C25",
            rule: "Documented random and real type descriptions with values; documentation and paths of every parsed item, field, variant, pallet and element are compared with the reference decoder, and those on cards and in text with documentation with an independent flattening. Non-trivial: at least one statement; distinct by (type, bytes, description).",
            level: "exploration",
            assumptions: &[],
            min_distinct: 50_000,
            run: c25,
        },
    ]
}

#[allow(dead_code)]
pub fn arc(w: &World) -> Arc<scale_info::PortableRegistry> {
    w.reg.clone()
}
