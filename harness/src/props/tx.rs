//! Whole transactions and extrinsics: C05, C06, C07, C08; parts of C17, C22, C24.
use crate::common::*;
use crate::gen::put_compact;
use crate::mem::{sym, Meta};
use crate::model2::{self as m2, O, SE, XE};
use crate::proj::{first_diff, project, Aspect};
use crate::rng::Rng;
use crate::run::{hash_bytes, mix, Local, Runner, Spec};
use crate::txgen::{long_tx_world, any_tx_world, gen_call, gen_tx, spoil_call, spoil_ext, Tx, TxWorld};
use crate::val::{diff, of_call, of_ext, V};
use primitive_types::H256;
use substrate_parser::cards::{Call, ExtendedData};
use substrate_parser::traits::{ExtrinsicTypeParams, SpecNameVersion};
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic as UX;
use substrate_parser::MarkedData;

type Mk<'a, 'b> = MarkedData<'a, &'b [u8], (), Meta>;

pub fn mark<'a, 'b>(d: &'a &'b [u8]) -> Result<Mk<'a, 'b>, SE> {
    Mk::mark(d, &mut ())
}
pub fn real_marked(meta: &Meta, d: &[u8], g: Option<H256>) -> Result<m2::Tx, SE> {
    substrate_parser::parse_transaction::<&[u8], (), Meta>(&d, &mut (), meta, g).map(|t| m2::Tx { call: t.call_result, ext: t.extensions })
}
pub fn real_unmarked(meta: &Meta, d: &[u8], g: Option<H256>) -> Result<m2::Tx, SE> {
    substrate_parser::parse_transaction_unmarked::<&[u8], (), Meta>(&d, &mut (), meta, g).map(|t| m2::Tx { call: Ok(t.call), ext: t.extensions })
}
pub fn real_extrinsic(meta: &Meta, d: &[u8]) -> Result<UX, XE> {
    substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), Meta>(&d, &mut (), meta)
}
fn real_call(meta: &Meta, d: &[u8]) -> Result<Call, SE> {
    let m = mark(&d)?;
    substrate_parser::decode_as_call::<&[u8], (), Meta>(&m, &mut (), meta)
}
fn real_exts(meta: &Meta, d: &[u8], g: Option<H256>) -> Result<Vec<ExtendedData>, SE> {
    let m = mark(&d)?;
    substrate_parser::decode_extensions::<&[u8], (), Meta>(&m, &mut (), meta, g)
}

/// Metadata with any types anywhere.
pub fn random_meta(r: &mut Rng, w: &World, n: u64) -> Meta {
    let id = |r: &mut Rng| sym(r.below(n) as u32);
    let mut m = w.meta();
    m.params = ExtrinsicTypeParams { address_ty: id(r), call_ty: id(r), signature_ty: id(r), extra_ty: id(r) };
    if r.chance(1, 2) {
        // likely a call by name
        if let Some(k) = w.reg.types.iter().position(|t| matches!(crate::model::special(&t.ty), crate::model::Sp::Call)) {
            m.params.call_ty = sym(k as u32);
        }
    }
    m.exts = (0..r.below(4))
        .map(|_| {
            let name = r.pick(&["CheckSpecVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "Custom", "ChargeAssetTxPayment"]);
            let (a, b) = (r.below(n) as u32, r.below(n) as u32);
            crate::txgen::ext(name, a, b)
        })
        .collect();
    m.spec = Ok(SpecNameVersion { printed_spec_version: "0".into(), spec_name: "x".into() });
    m
}

fn say(t: &TxWorld, x: &Tx, d: &[u8], how: &str) -> String {
    format!(
        "{how}; metadata {}; call type {}; extensions {}; spec {:?}; genesis {:?}; data {}",
        t.src,
        x.meta.params.call_ty.id,
        x.meta.exts.iter().map(|e| format!("{}({} / {})", e.identifier, show_ty(&x.meta.reg, e.ty.id), show_ty(&x.meta.reg, e.additional_signed.id))).collect::<Vec<_>>().join(", "),
        x.meta.spec,
        x.genesis,
        hexs(d)
    )
}

fn vals(e: &[ExtendedData]) -> Vec<V> {
    e.iter().map(of_ext).collect()
}

/// Bit sequences print their address: values are compared as values, errors as text.
fn same<T: PartialEq, E: std::fmt::Debug>(a: &Result<T, E>, b: &Result<T, E>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
        _ => false,
    }
}

fn outcome<T, E: std::fmt::Debug>(r: &Result<T, E>) -> String {
    match r {
        Ok(_) => "accepted".into(),
        Err(e) => cut(format!("refused: {e:?}"), 300),
    }
}

/// A transaction, sound or spoiled in some way.
/// Stands for worlds with long calls.
const LONG: u64 = 1000;

pub fn any_tx(t: &TxWorld, r: &mut Rng, sound: u64) -> Option<(Tx, String)> {
    let x = gen_tx(t, r)?;
    if r.chance(sound, 100) {
        return Some((x, "sound".into()));
    }
    let (mut y, mut how) = (x, String::new());
    if r.chance(1, 2) {
        let (z, h) = spoil_ext(t, &y, r);
        y = z;
        how += h;
    }
    if how.is_empty() || r.chance(1, 4) {
        let (z, h) = spoil_call(t, &y, r);
        y = z;
        how += if how.is_empty() { "" } else { ", " };
        how += h;
    }
    Some((y, how))
}

fn prefixed(r: &mut Rng, x: &Tx) -> (Vec<u8>, &'static str) {
    let body = x.unmarked();
    let mut o = vec![];
    let n = x.call.len() as u128;
    let how = match r.below(11) {
        8 | 9 => {
            let k = wrong_len(r, n);
            put_compact(&mut o, k);
            "prefix wrong"
        }
        0 => {
            put_compact(&mut o, n + 1 + r.below(3) as u128);
            "prefix too long"
        }
        1 => {
            put_compact(&mut o, n.saturating_sub(1 + r.below(3) as u128));
            "prefix too short"
        }
        2 => {
            put_compact(&mut o, body.len() as u128 + 1 + r.below(5) as u128);
            "prefix beyond the data"
        }
        3 => {
            put_compact(&mut o, r.pick(&[u32::MAX as u128, u32::MAX as u128 - 1, u32::MAX as u128 + 1, 1 << 31, 1 << 30, u128::MAX, u64::MAX as u128]));
            "huge prefix"
        }
        4 => {
            crate::gen::put_compact_wrong(r, &mut o, n);
            "prefix not canonical"
        }
        5 => {
            put_compact(&mut o, body.len() as u128);
            "prefix over everything"
        }
        6 => {
            put_compact(&mut o, 0);
            "prefix of zero"
        }
        _ => {
            put_compact(&mut o, n);
            "prefix right"
        }
    };
    o.extend(body);
    (o, how)
}

fn c05(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, real: u64, case: u64| {
        let t = if real == LONG { long_tx_world(r) } else { any_tx_world(r, real) };
        for _ in 0..4 {
            let Some((x, mut how)) = any_tx(&t, r, 55) else { continue };
            let mut d = x.marked();
            if r.chance(1, 4) {
                let (e, h) = prefixed(r, &x);
                d = e;
                how = format!("{how}, {h}");
            }
            let sl = &d[..];
            let m = m2::mark(&d);
            let got = mark(&sl);
            match (&m, &got) {
                (None, Err(SE::CutSignable)) => {
                    st.class("no separation");
                    for (what, e) in [("call", real_call(&x.meta, &d).err()), ("extensions", real_exts(&x.meta, &d, x.genesis).err()), ("transaction", real_marked(&x.meta, &d, x.genesis).err())] {
                        if e.is_none() {
                            st.fail(format!("{what} accepted without a right prefix; {}", say(&t, &x, &d, &how)));
                        }
                    }
                    st.eval(mix(hash_bytes(&d), case));
                    continue;
                }
                (Some((cs, es)), Ok(k)) if k.call_start() == *cs && k.extensions_start() == *es && *k.data() == sl && k.data_no_extensions() == &d[..*es] => {}
                _ => {
                    let g = got.map(|k| (k.call_start(), k.extensions_start(), k.data_no_extensions().len()));
                    st.fail(format!("separated at {g:?} instead of {m:?}; {}", say(&t, &x, &d, &how)));
                    continue;
                }
            }
            let (cs, es) = m.unwrap();
            // each part against the reference
            let wc = m2::marked_call(&x.meta, &d, cs, es);
            let we = m2::extensions(&x.meta, &d, &mut es.clone(), x.genesis);
            if matches!(wc, O::Skip) || matches!(we, O::Skip) {
                st.skip();
                continue;
            }
            let (gc, ge) = (real_call(&x.meta, &d), real_exts(&x.meta, &d, x.genesis));
            match (&wc, &gc) {
                (O::Ok(a), Ok(b)) => {
                    if let Some(df) = diff(&of_call(a), &of_call(b), "call".into()) {
                        st.fail(format!("{df}; {}", say(&t, &x, &d, &how)))
                    }
                }
                (O::Err(_), Err(_)) => {}
                (w, g) => st.fail(format!("call {}, reference {}; {}", outcome(g), cut(format!("{w:?}"), 300), say(&t, &x, &d, &how))),
            }
            match (&we, &ge) {
                (O::Ok(a), Ok(b)) if vals(a) == vals(b) => {}
                (O::Err(_), Err(_)) => {}
                (w, g) => st.fail(format!("extensions {}, reference {}; {}", outcome(g), cut(format!("{w:?}"), 300), say(&t, &x, &d, &how))),
            }
            // independence: the other part replaced
            for k in 0..3 {
                let n = match k {
                    0 => 0,
                    1 => d.len() - es,
                    _ => r.idx(60),
                };
                let mut e = d[..es].to_vec();
                e.extend(r.bytes(n));
                let g = real_call(&x.meta, &e);
                if !same(&g, &gc) {
                    st.fail(format!("call outcome changes with the extensions: {} then {}; then data {}; {}", outcome(&gc), outcome(&g), hexs(&e), say(&t, &x, &d, &how)));
                }
                let mut e = d.clone();
                let fill = if k == 0 { vec![0xff; es - cs] } else { r.bytes(es - cs) };
                e[cs..es].copy_from_slice(&fill);
                let g = real_exts(&x.meta, &e, x.genesis);
                if !same(&g, &ge) {
                    st.fail(format!("extensions change with the call: {} then {}; then data {}; {}", outcome(&ge), outcome(&g), hexs(&e), say(&t, &x, &d, &how)));
                }
            }
            // bytes moved across the boundary
            if es > cs {
                let mut e = vec![];
                put_compact(&mut e, (es - cs - 1) as u128);
                e.extend(&d[cs..]);
                // a byte less: only possible if the last byte was not needed
                let k = e.len() + cs - d.len();
                let w = m2::marked_call(&x.meta, &e, k, k + es - cs - 1);
                if let O::Err(_) = w {
                    if real_call(&x.meta, &e).is_ok() {
                        st.fail(format!("call decoded past the announced end; data {}; {}", hexs(&e), say(&t, &x, &d, &how)));
                    }
                }
            }
            st.eval(mix(hash_bytes(&d), case));
            st.class(&format!("call {}, extensions {}", if gc.is_ok() { "decoded" } else { "refused" }, if ge.is_ok() { "decoded" } else { "refused" }));
            st.sample(|| say(&t, &x, &d, &how));
            if st.failed() {
                return;
            }
        }
    };
    run.stage("long calls", run.cfg.n(250), |r, c, st| body(r, st, LONG, c));
    run.stage("random", run.cfg.n(12_000), |r, c, st| body(r, st, 0, c));
    run.stage("real", run.cfg.n(2_500), |r, c, st| body(r, st, 100, c));
    // separation alone: prefixes of all lengths with about as much data, on slices and other storage
    let mut claims: Vec<u128> = (0..300).collect();
    for k in [14u32, 15, 16, 20, 30, 31, 32, 33, 40, 64, 67, 127] {
        claims.extend((1u128 << k) - 4..(1u128 << k) + 4);
    }
    claims.extend([16_390, 20_000, 65_800, 100_000, u128::MAX]);
    run.stage("prefixes", run.cfg.n(claims.len() as u64), |r, c, st| {
        let claim = claims[c as usize % claims.len()];
        for canonical in [true, false] {
            let mut front = vec![];
            if canonical {
                put_compact(&mut front, claim)
            } else {
                crate::gen::put_compact_wrong(r, &mut front, claim)
            }
            let near = claim.min(70_000) as i64;
            let sizes: Vec<i64> = [-near, -300, -40, -5, -4, -3, -2, -1, 0, 1, 2, 3, 100, 20_000].iter().map(|k| near + k).collect();
            for size in sizes {
                if size < 0 || size > 110_000 {
                    continue;
                }
                let mut d = front.clone();
                let fill = r.byte();
                d.resize(front.len() + size as usize, fill);
                separated(&d, r, st, &format!("prefix for {claim}{} and {size} bytes", if canonical { "" } else { " (not canonical)" }));
                if size < 3 {
                    let k = r.idx(d.len() + 1);
                    separated(&d[..k], r, st, &format!("{k} bytes of a prefix for {claim}"));
                }
                st.eval(mix(mix(claim as u64, size as u64), canonical as u64));
            }
        }
    });
}

/// The separation of data against the reference.
fn separated(d: &[u8], r: &mut Rng, st: &mut Local, how: &str) {
    let want = m2::mark(d);
    let got = mark(&d).map(|k| (k.call_start(), k.extensions_start(), k.data_no_extensions().len()));
    let page = r.pick(&[1usize, 3, 64, 1000]);
    let b = crate::mem::PagedBuf::new(d, page);
    let mut e = crate::mem::Mem::new();
    let paged = substrate_parser::MarkedData::<_, _, crate::mem::ExtMeta>::mark(&b, &mut e).map(|k| {
        use external_memory_tools::AddressableBuffer;
        (k.call_start(), k.extensions_start(), AddressableBuffer::<crate::mem::Mem>::total_len(&k.data_no_extensions()))
    });
    for (place, g) in [("slice", got.map_err(|e| format!("{e:?}"))), ("pages", paged.map_err(|e| format!("{e:?}")))] {
        let right = match (&want, &g) {
            (Some((cs, es)), Ok(k)) => *k == (*cs, *es, *es),
            (None, Err(e)) => e == "CutSignable",
            _ => false,
        };
        if !right {
            st.fail(format!("{place}: {how}: separated as {g:?} instead of {want:?}"));
        }
    }
    st.class(if want.is_some() { "separated" } else { "no separation" });
}

fn c06(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, real: u64, case: u64| {
        let t = if real == LONG { long_tx_world(r) } else { any_tx_world(r, real) };
        for _ in 0..8 {
            let Some(x) = gen_tx(&t, r) else { continue };
            let (x, how) = if r.chance(1, 3) { (x, "sound") } else { spoil_ext(&t, &x, r) };
            c06_one(&t, &x, how, st, case);
            if st.failed() {
                return;
            }
        }
    };
    run.stage("long calls", run.cfg.n(250), |r, c, st| body(r, st, LONG, c));
    run.stage("random", run.cfg.n(25_000), |r, c, st| body(r, st, 0, c));
    run.stage("real", run.cfg.n(5_000), |r, c, st| body(r, st, 100, c));
    // every bit of the extensions of sound transactions
    run.stage("every-bit", run.cfg.n(120), |r, c, st| {
        let t = any_tx_world(r, 40);
        let Some(x) = gen_tx(&t, r) else { return };
        let e = x.ext();
        if e.len() > 300 {
            return;
        }
        for k in 0..e.len() {
            for b in 0..8 {
                let mut y = x.clone();
                let mut z = e.clone();
                z[k] ^= 1 << b;
                y.parts = vec![z];
                c06_one(&t, &y, "one bit of the extensions", st, c);
            }
        }
        if let Some(g) = x.genesis {
            for k in 0..256 {
                let mut y = x.clone();
                let mut h = g;
                h.0[k / 8] ^= 1 << (k % 8);
                y.genesis = Some(h);
                c06_one(&t, &y, "one bit of the expected genesis hash", st, c);
            }
        }
    });
}

fn c06_one(t: &TxWorld, x: &Tx, how: &str, st: &mut Local, case: u64) {
    let d = x.marked();
    let want = m2::marked_tx(&x.meta, &d, x.genesis);
    if let O::Skip = want {
        st.skip();
        return;
    }
    let ud = x.unmarked();
    let wu = if x.call_valid { m2::unmarked_tx(&x.meta, &ud, x.genesis) } else { O::Skip };
    let u = if let O::Skip = wu { None } else { Some(real_unmarked(&x.meta, &ud, x.genesis)) };
    for (want, got, d) in [(Some(want), Some(real_marked(&x.meta, &d, x.genesis)), &d), (Some(wu), u, &ud)] {
        let (Some(want), Some(got)) = (want, got) else { continue };
        match (&want, &got) {
            (O::Ok(a), Ok(b)) => {
                if vals(&a.ext) != vals(&b.ext) {
                    st.fail(format!("extensions {:?} instead of {:?}; {}", vals(&b.ext), vals(&a.ext), say(t, x, d, how)))
                }
                if b.ext.len() != 2 * x.meta.exts.len() {
                    st.fail(format!("{} parts for {} extensions; {}", b.ext.len(), x.meta.exts.len(), say(t, x, d, how)))
                }
                st.class(&format!("accepted ({how})"));
            }
            (O::Err(e), Err(g)) => {
                let _ = g;
                let k: String = format!("{e:?}").chars().take_while(|c| *c != '{' && !c.is_ascii_digit()).collect();
                st.class(&format!("refused, {}", k.trim()));
            }
            (O::Skip, _) => continue,
            (w, g) => st.fail(format!("{}, by the rules {}; {}", outcome(g), cut(format!("{w:?}"), 300), say(t, x, d, how))),
        }
        st.eval(mix(mix(hash_bytes(d), case), hash_bytes(format!("{:?}{:?}", x.genesis, x.meta.spec).as_bytes())));
    }
    st.sample(|| say(t, x, &d, how));
}

fn c07(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, real: u64, case: u64| {
        let t = if real == LONG { long_tx_world(r) } else { any_tx_world(r, real) };
        for _ in 0..3 {
            let Some(x) = gen_tx(&t, r) else { continue };
            let base = match m2::marked_tx(&x.meta, &x.marked(), x.genesis) {
                O::Skip => {
                    st.skip();
                    continue;
                }
                O::Ok(b) => Some(b),
                O::Err(_) => None,
            };
            let mut calls = vec![(x.clone(), "sound")];
            for _ in 0..4 {
                calls.push(spoil_call(&t, &x, r));
            }
            for (y, how) in calls {
                let d = y.marked();
                let wc = match m2::mark(&d) {
                    Some((cs, es)) => m2::marked_call(&y.meta, &d, cs, es),
                    None => O::Skip,
                };
                let u = y.unmarked();
                let wu = m2::unmarked_tx(&y.meta, &u, y.genesis);
                if matches!(wc, O::Skip) || matches!(wu, O::Skip) {
                    st.skip();
                    continue;
                }
                let got = real_marked(&y.meta, &d, y.genesis);
                match (&base, &got) {
                    (Some(b), Ok(g)) => {
                        if b.ext != g.ext {
                            st.fail(format!("extensions {:?} instead of {:?}; {}", vals(&g.ext), vals(&b.ext), say(&t, &y, &d, how)));
                        }
                        match (&wc, &g.call) {
                            (O::Ok(a), Ok(b)) if a == b => {}
                            (O::Err(_), Err(_)) => {}
                            (w, g) => st.fail(format!("call {g:?} instead of {w:?}; {}", say(&t, &y, &d, how))),
                        }
                    }
                    (None, Err(_)) => {}
                    (b, g) => st.fail(format!("{}, extensions are {}; {}", outcome(g), if b.is_some() { "right" } else { "faulty" }, say(&t, &y, &d, how))),
                }
                // the same without the prefix
                let ug = real_unmarked(&y.meta, &u, y.genesis);
                match &got {
                    Ok(g) if g.call.is_ok() => match &ug {
                        Ok(h) if h.ext == g.ext && h.call.as_ref().ok() == g.call.as_ref().ok() => st.class("formats agree"),
                        o => st.fail(format!("without prefix {} differs: {}; {}", cut(format!("{o:?}"), 400), cut(format!("{g:?}"), 400), say(&t, &y, &u, how))),
                    },
                    _ => {
                        // whatever it means there, the reference knows
                        match (wu, &ug) {
                            (O::Skip, _) => {}
                            (O::Ok(w), Ok(g)) if w.ext == g.ext && w.call.as_ref().ok() == g.call.as_ref().ok() => {}
                            (O::Err(_), Err(_)) => st.class("fault without prefix is an error of the whole"),
                            (w, g) => st.fail(format!("without prefix {}, reference {}; {}", outcome(g), cut(format!("{w:?}"), 300), say(&t, &y, &u, how))),
                        }
                    }
                }
                // each format taken for the other means only what its bytes mean there
                for (e, as_marked) in [(&d, false), (&u, true)] {
                    let w = if as_marked { m2::marked_tx(&y.meta, e, y.genesis) } else { m2::unmarked_tx(&y.meta, e, y.genesis) };
                    if let O::Skip = w {
                        continue;
                    }
                    let g = if as_marked { real_marked(&y.meta, e, y.genesis) } else { real_unmarked(&y.meta, e, y.genesis) };
                    match (&w, &g) {
                        (O::Ok(_), Ok(_)) | (O::Err(_), Err(_)) => st.class(if g.is_ok() { "taken for the other format: means something" } else { "taken for the other format: refused" }),
                        (w, g) => st.fail(format!("taken for the other format: {}, reference {}; {}", outcome(g), cut(format!("{w:?}"), 300), say(&t, &y, e, how))),
                    }
                }
                st.eval(mix(hash_bytes(&d), case));
                st.class(&format!("{how}: call {}", match &got { Ok(g) if g.call.is_ok() => "decoded", Ok(_) => "error, extensions shown", _ => "nothing" }));
                st.sample(|| say(&t, &y, &d, how));
            }
            // any fault in the extensions fails the whole
            if base.is_some() {
                let (y, how) = spoil_ext(&t, &x, r);
                for (d, marked) in [(y.marked(), true), (y.unmarked(), false)] {
                    let w = if marked { m2::marked_tx(&y.meta, &d, y.genesis) } else { m2::unmarked_tx(&y.meta, &d, y.genesis) };
                    if let O::Skip = w {
                        continue;
                    }
                    let g = if marked { real_marked(&y.meta, &d, y.genesis) } else { real_unmarked(&y.meta, &d, y.genesis) };
                    match (&w, &g) {
                        (O::Skip, _) => {}
                        (O::Ok(_), Ok(_)) | (O::Err(_), Err(_)) => st.class(&format!("{how}: {}", if g.is_ok() { "still right" } else { "whole refused" })),
                        (w, g) => st.fail(format!("{}, reference {}; {}", outcome(g), cut(format!("{w:?}"), 300), say(&t, &y, &d, how))),
                    }
                    st.eval(mix(hash_bytes(&d), case));
                }
            }
            if st.failed() {
                return;
            }
        }
    };
    run.stage("long calls", run.cfg.n(250), |r, c, st| body(r, st, LONG, c));
    run.stage("random", run.cfg.n(10_000), |r, c, st| body(r, st, 0, c));
    run.stage("real", run.cfg.n(1_500), |r, c, st| body(r, st, 100, c));
}

/// An extrinsic: data and how it was made.
pub fn gen_extrinsic(t: &TxWorld, r: &mut Rng, sound: u64) -> Option<(Vec<u8>, &'static str)> {
    let m = &t.meta;
    let signed = r.chance(1, 2);
    let sound = r.chance(sound, 100);
    let spoil = if sound { 100 } else { r.below(15) };
    let mut x = vec![m.version & 0x7f | if signed { 0x80 } else { 0 }];
    if spoil == 0 {
        x[0] ^= 1 << r.below(7);
    }
    if spoil == 1 {
        x[0] ^= 0x80;
    }
    let ids: Vec<u32> = if signed { vec![m.params.address_ty.id, m.params.signature_ty.id, m.params.extra_ty.id] } else { vec![] };
    let bad = r.idx(ids.len() + 1);
    for (i, id) in ids.iter().enumerate() {
        if spoil == 2 && bad == i {
            if let Some(p) = t.w.poisoned(r, *id) {
                x.extend(p.bytes);
                continue;
            }
        }
        x.extend(t.w.value(r, *id)?.bytes);
    }
    if spoil == 2 && bad == ids.len() {
        if let Some(p) = t.w.poisoned(r, m.params.call_ty.id) {
            x.extend(p.bytes);
        }
    } else {
        x.extend(gen_call(t, r)?.0);
    }
    let how = match spoil {
        0 => "version byte",
        1 => "signed bit",
        2 => "invalid leaf",
        3 => {
            let k = r.idx(x.len());
            x.truncate(k);
            "body cut"
        }
        4 | 5 => {
            let n = r.range(1, 4) as usize;
            x.extend(r.bytes(n));
            "bytes after the call"
        }
        6 => {
            let (y, _) = mutate(r, &x);
            x = y;
            "body mutated"
        }
        _ => "sound",
    };
    let mut o = vec![];
    let n = x.len() as u128;
    let how = match spoil {
        7 => {
            put_compact(&mut o, n + 1 + r.below(4) as u128);
            "prefix too long"
        }
        8 => {
            put_compact(&mut o, n.saturating_sub(1 + r.below(4) as u128));
            "prefix too short"
        }
        9 => {
            crate::gen::put_compact_wrong(r, &mut o, n);
            "prefix not canonical"
        }
        10 => {
            put_compact(&mut o, r.pick(&[u32::MAX as u128, (1 << 32) + n, 1 << 31, u32::MAX as u128 - 4, (1 << 64) + n]));
            "huge prefix"
        }
        14 => {
            let k = wrong_len(r, n);
            put_compact(&mut o, k);
            "prefix wrong"
        }
        11 => "no prefix",
        _ => {
            put_compact(&mut o, n);
            how
        }
    };
    o.extend(x);
    if spoil == 12 {
        let n = r.range(1, 3) as usize;
        o.extend(r.bytes(n));
        return Some((o, "bytes after the extrinsic"));
    }
    if spoil == 13 {
        let k = r.idx(o.len());
        o.truncate(k);
        return Some((o, "extrinsic cut"));
    }
    Some((o, how))
}

const LEFTOVER: &str = "bytes of an unchecked extrinsic left over after its call are accepted (decode_as_unchecked_extrinsic, after the call is decoded), e.g. the 143 bytes 3502840094af1b41...4e413aeb3a00 with polkadot1003003_v15";

/// `Err(true)`: the known finding, exactly.
fn xt_matches(w: &m2::Xt, g: &UX) -> Result<(), String> {
    match (g, &w.parts) {
        (UX::Signed { address, signature, extra, call }, Some([a, s, e])) => {
            for (what, x, y) in [("address", a, address), ("signature", s, signature), ("extra", e, extra)] {
                if x != y {
                    return Err(format!("{what} {:?} instead of {:?}", of_ext(y), of_ext(x)));
                }
            }
            if *call != w.call {
                return Err(format!("call {:?} instead of {:?}", of_call(call), of_call(&w.call)));
            }
            Ok(())
        }
        (UX::Unsigned { call }, None) => {
            if *call != w.call {
                return Err(format!("call {:?} instead of {:?}", of_call(call), of_call(&w.call)));
            }
            Ok(())
        }
        _ => Err("signed for unsigned".into()),
    }
}

fn c08_one(meta: &Meta, src: &str, d: &[u8], how: &str, st: &mut Local, case: u64, known: bool) -> bool {
    let say = || format!("{how}; metadata {src}; version {}; address {}, signature {}, extra {}, call type {}; data {}", meta.version, show_ty(&meta.reg, meta.params.address_ty.id), show_ty(&meta.reg, meta.params.signature_ty.id), show_ty(&meta.reg, meta.params.extra_ty.id), meta.params.call_ty.id, hexs(d));
    let mut hit = false;
    let want = m2::extrinsic(meta, d);
    if let O::Skip = want {
        st.skip();
        return false;
    }
    let got = real_extrinsic(meta, d);
    match (want, &got) {
        (O::Skip, _) => {}
        (O::Ok(w), Ok(g)) => {
            if let Err(e) = xt_matches(&w, g) {
                st.fail(format!("{e}; {}", say()));
            } else if w.end != d.len() {
                hit = true;
                if known {
                    st.class("KNOWN: accepted with bytes left after the call");
                } else {
                    st.fail(format!("accepted with {} bytes unused after the call; {}", d.len() - w.end, say()));
                }
            } else {
                st.class(&format!("{how}: accepted {}", if w.parts.is_some() { "signed" } else { "unsigned" }));
            }
        }
        (O::Ok(w), Err(e)) => {
            if w.end == d.len() {
                st.fail(format!("sound extrinsic refused with {e:?}; {}", say()));
            } else {
                st.class("refused for bytes left after the call");
            }
        }
        (O::Err(_), Err(_)) => st.class(&format!("{how}: refused")),
        (O::Err(e), Ok(_)) => st.fail(format!("accepted although {e:?}; {}", say())),
    }
    st.eval(mix(hash_bytes(d), case));
    st.sample(say);
    hit
}

fn c08(run: &Runner) {
    let known = crate::run::known_finding("C08", "leftover-after-call");
    let body = |r: &mut Rng, st: &mut Local, real: u64, case: u64| {
        let t = if real == LONG { long_tx_world(r) } else { any_tx_world(r, real) };
        for _ in 0..8 {
            let Some((d, how)) = gen_extrinsic(&t, r, 40) else { continue };
            c08_one(&t.meta, &t.src, &d, how, st, case, known);
            if st.failed() {
                return;
            }
        }
    };
    run.stage("long calls", run.cfg.n(250), |r, c, st| body(r, st, LONG, c));
    run.stage("random", run.cfg.n(20_000), |r, c, st| body(r, st, 0, c));
    run.stage("real", run.cfg.n(4_000), |r, c, st| body(r, st, 100, c));
    // all version bytes, all cuts
    run.stage("every-version-and-cut", run.cfg.n(250), |r, c, st| {
        let t = any_tx_world(r, 30);
        let Some((d, _)) = gen_extrinsic(&t, r, 100) else { return };
        let Some((_, n)) = crate::model::compact_at(&d, 0, 32) else { return };
        if d.len() > 400 {
            return;
        }
        for v in 0..=255u8 {
            let mut e = d.clone();
            if e.len() > n {
                e[n] = v;
            }
            c08_one(&t.meta, &t.src, &e, "version byte", st, c, known);
        }
        for k in n..d.len() {
            let mut e = vec![];
            put_compact(&mut e, (k - n) as u128);
            e.extend(&d[n..k]);
            c08_one(&t.meta, &t.src, &e, "shorter body", st, c, known);
            c08_one(&t.meta, &t.src, &d[..k], "cut", st, c, known);
        }
    });
    // the reproduction of the known finding
    run.stage("known", 1, |_, c, st| {
        let k = real_worlds().iter().position(|w| w.0 == "polkadot1003003_v15");
        let Some(k) = k else { return };
        let d = hex::decode("3502840094af1b41d3346c8b50f9f2d229422ddbbc53e7a59df3b49abd049ff059122d6e01c240497d62b63d2e6144bd59d43f385f5d377d03c21d0643513054491cf90c67f71c5f32ae4ac37d16f55eb100dae006b774f57283d21bb7afb84c8bbfb5de873500280000000a040036988c476fff14e9885c49f938193f2fc4b54ba9e4cf673ffed3dc4e413aeb3a00").unwrap();
        if c08_one(&crate::txgen::real_metas()[k], "polkadot1003003_v15", &d, "known", st, c, known) && known {
            run.known(LEFTOVER.to_string());
        }
    });
    if known && run.total.lock().unwrap().classes.keys().any(|k| k.starts_with("KNOWN")) {
        run.known(LEFTOVER.to_string());
    }
}

/// Values of the error must be in its text, in a sensible order.
pub fn told(text: &str, debug: &str) -> Result<(), String> {
    let tokens = |s: &str| -> Vec<String> {
        s.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|t| t.bytes().any(|b| b.is_ascii_digit()) || t.len() >= 32 && t.bytes().all(|b| b.is_ascii_hexdigit())).map(|t| t.trim_start_matches("0x").to_string()).collect()
    };
    let mut want = vec![];
    // values only: what stands after a colon or in parentheses
    for part in debug.split([':', '(', ',', ')', '{', '}']) {
        let p = part.trim();
        if p.is_empty() || p.as_bytes()[0].is_ascii_uppercase() && !p.contains("0x") {
            continue;
        }
        if p.starts_with('"') || p.as_bytes()[0].is_ascii_digit() {
            want.extend(tokens(p));
        }
    }
    // named the other way round in the text
    if debug.starts_with("WrongSpecVersion") || debug.contains("DataTooShort") {
        want.reverse();
    }
    let have = tokens(text);
    let mut i = 0;
    for h in &have {
        if i < want.len() && *h == want[i] {
            i += 1;
        }
    }
    if i < want.len() {
        return Err(format!("text {text:?} does not state {:?} of {debug}", want[i]));
    }
    Ok(())
}

/// C22 on whole operations.
pub fn error_stages(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, real: u64, case: u64| {
        let t = any_tx_world(r, real);
        for _ in 0..4 {
            let Some((x, mut how)) = any_tx(&t, r, 5) else { continue };
            let mut d = x.marked();
            if r.chance(1, 4) {
                let (e, h) = prefixed(r, &x);
                d = e;
                how = format!("{how}, {h}");
            }
            let check = |want: Option<&SE>, got: Option<&SE>, what: &str, d: &[u8], st: &mut Local| match (want, got) {
                (Some(a), Some(b)) => {
                    let (p, q) = (format!("{a:?}"), format!("{b:?}"));
                    if p != q {
                        st.fail(format!("{what}: error {q}, really {p}; {}", say(&t, &x, d, &how)));
                    }
                    // one that is about the metadata only repeats it
                    if let Err(e) = told(&b.to_string(), &q) {
                        st.fail(format!("{e}; {}", say(&t, &x, d, &how)));
                    }
                    st.class(&format!("{what}: {}", p.chars().take_while(|c| !c.is_ascii_digit() && *c != '"').collect::<String>()));
                    st.eval(mix(mix(hash_bytes(d), case), what.len() as u64));
                    st.sample(|| format!("{q} => {b}"));
                }
                (None, Some(b)) => st.fail(format!("{what}: error {b:?} on sound data; {}", say(&t, &x, d, &how))),
                _ => {}
            };
            for what in ["transaction", "unmarked"] {
                let marked = what == "transaction";
                let d = if marked { d.clone() } else { x.unmarked() };
                let w = if marked { m2::marked_tx(&x.meta, &d, x.genesis) } else { m2::unmarked_tx(&x.meta, &d, x.genesis) };
                if let O::Skip = w {
                    st.skip();
                    continue;
                }
                let g = if marked { real_marked(&x.meta, &d, x.genesis) } else { real_unmarked(&x.meta, &d, x.genesis) };
                match (&w, &g) {
                    (O::Ok(w), Ok(g)) => check(w.call.as_ref().err(), g.call.as_ref().err(), "call", &d, st),
                    (O::Err(w), Err(g)) => check(Some(w), Some(g), what, &d, st),
                    (O::Ok(_), Err(g)) => check(None, Some(g), what, &d, st),
                    _ => {}
                }
            }
            if let Some((d, how)) = gen_extrinsic(&t, r, 2) {
                let w = m2::extrinsic(&x.meta, &d);
                if let O::Skip = w {
                    continue;
                }
                match (w, real_extrinsic(&x.meta, &d)) {
                    (O::Err(a), Err(b)) => {
                        let (p, q) = (format!("{a:?}"), format!("{b:?}"));
                        if p != q {
                            st.fail(format!("extrinsic: error {q}, really {p}; {how}; {}", hexs(&d)));
                        }
                        if let Err(e) = told(&b.to_string(), &q) {
                            st.fail(format!("{e}; {}", hexs(&d)));
                        }
                        st.class(&format!("extrinsic: {}", p.chars().take_while(|c| !c.is_ascii_digit()).collect::<String>()));
                        st.eval(mix(hash_bytes(&d), case));
                    }
                    (O::Ok(w), Err(b)) if w.end == d.len() => st.fail(format!("extrinsic: error {b:?} on sound data; {how}; {}", hexs(&d))),
                    _ => {}
                }
            }
            if st.failed() {
                return;
            }
        }
    };
    run.stage("transactions", run.cfg.n(12_000), |r, c, st| body(r, st, 0, c));
    run.stage("real-transactions", run.cfg.n(2_000), |r, c, st| body(r, st, 100, c));
}

/// C17 on extensions, through the extension identifiers.
pub fn tags_stages(run: &Runner) {
    run.stage("extensions", run.cfg.n(25_000), |r, c, st| {
        let t = any_tx_world(r, 12);
        for _ in 0..3 {
            let Some(x) = gen_tx(&t, r) else { continue };
            let d = x.marked();
            let w = m2::marked_tx(&x.meta, &d, x.genesis);
            if let O::Skip = w {
                continue;
            }
            if let (O::Ok(w), Ok(g)) = (w, real_marked(&x.meta, &d, x.genesis)) {
                let mut any = false;
                for (k, (a, b)) in w.ext.iter().zip(&g.ext).enumerate() {
                    let (p, q) = (project(Aspect::Tags, a), project(Aspect::Tags, b));
                    if let Some(e) = first_diff(&p, &q) {
                        st.fail(format!("extension part {k}: {e}; {}", say(&t, &x, &d, "sound")));
                    }
                    for s in p {
                        st.class(s.rsplit(": ").next().unwrap_or(""));
                        any = true;
                    }
                }
                if any {
                    st.eval(mix(hash_bytes(&d), c));
                }
                st.sample(|| say(&t, &x, &d, "sound"));
            }
        }
    });
}

/// C24: only a call passes as the call.
pub fn c24_calls(run: &Runner) {
    run.stage("calls", run.cfg.n(8_000), |r, c, st| {
        let mut t = crate::txgen::tx_world(r);
        if r.chance(1, 2) {
            // some other type as the call
            t.meta.params.call_ty = sym(t.w.target(r));
        }
        let id = t.meta.params.call_ty.id;
        for _ in 0..6 {
            let Some(x) = t.w.value(r, id) else { continue };
            let is_call = matches!(x.v, V::Pallet("Call", ..));
            let mut d = vec![];
            put_compact(&mut d, x.bytes.len() as u128);
            d.extend(&x.bytes);
            let g = real_call(&t.meta, &d);
            if g.is_ok() != is_call {
                st.fail(format!("{} as a call; type {}; data {}", outcome(&g), show_ty(&t.meta.reg, id), hexs(&d)));
            }
            let mut e = vec![t.meta.version & 0x7f];
            e.extend(&x.bytes);
            let mut f = vec![];
            put_compact(&mut f, e.len() as u128);
            f.extend(e);
            let g = real_extrinsic(&t.meta, &f);
            if g.is_ok() != is_call {
                st.fail(format!("{} as the call of an extrinsic; type {}; data {}", outcome(&g), show_ty(&t.meta.reg, id), hexs(&f)));
            }
            let g = substrate_parser::decode_as_call_unmarked::<&[u8], (), Meta>(&&x.bytes[..], &mut 0, &mut (), &t.meta);
            if g.is_ok() != is_call {
                st.fail(format!("{} as an unmarked call; type {}; data {}", outcome(&g), show_ty(&t.meta.reg, id), hexs(&x.bytes)));
            }
            st.class(if is_call { "call accepted as a call" } else { "other data refused as a call" });
            st.eval(super::types::key(id, &d, c));
        }
    });
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C05",
            rule: "Generated and real metadata; sound, cut, extended, mutated and wrongly prefixed transactions. Separation, call and extensions are compared with a reference that cuts the slices itself, then each part is decoded again with the other part replaced (emptied, random, other length). Non-trivial: every case; distinct by (data, metadata).",
            level: "exploration",
            assumptions: &[],
            min_distinct: 20_000,
            run: c05,
        },
        Spec {
            id: "C06",
            rule: "Generated metadata with complete, missing, doubled and reordered extensions of any width and wrapping, and real metadata; transactions made to fulfil the conditions and then spoiled in one of them (spec version text, any bit of genesis hash, hashes or data). Acceptance and extensions compared with the rules evaluated over a reference decoding, with and without prefix. Non-trivial: every case; distinct by (data, metadata, expectations).",
            level: "exploration",
            assumptions: &["an extension counts as era, hash or version when it is one or is a struct of one field that is one"],
            min_distinct: 50_000,
            run: c06,
        },
        Spec {
            id: "C07",
            rule: "The same extensions with sound, cut, extended, invalid, random and empty calls, and the same call with spoiled extensions, in both formats; extensions must be identical for all calls. Non-trivial: every case; distinct by (data, metadata).",
            level: "exploration",
            assumptions: &[],
            min_distinct: 30_000,
            run: c07,
        },
        Spec {
            id: "C08",
            rule: "Signed and unsigned extrinsics for generated and real metadata, sound and with spoiled prefix, version byte, parts, cuts and leftovers; compared with each part decoded on its own by the reference. All 256 version bytes and all cuts of some. Non-trivial: every case; distinct by (data, metadata).",
            level: "exploration",
            assumptions: &["the known finding (bytes left over after the call) is counted apart and recognised only when all parts are exactly right"],
            min_distinct: 40_000,
            run: c08,
        },
    ]
}
