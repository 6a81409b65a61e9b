//! Exact arithmetic: C10 compacts, C14 balances, C18 eras, C19 bit sequences.
use crate::common::*;
use crate::gen::{self, bitseq, fld, mk, put_compact, seq, tup, comp, Builder};
use crate::mem::{LogBuf, Mem, PagedBuf};
use crate::model::compact_at;
use crate::rng::Rng;
use crate::run::{hash_bytes, mix, Local, Runner, Spec};
use crate::val::{diff, of_ext};
use external_memory_tools::{AddressableBuffer, ExternalMemory};
use parity_scale_codec::{Compact, Decode, Encode, HasCompact};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::{ExtendedData, ParsedData};
use substrate_parser::compacts::{find_compact, get_compact};
use substrate_parser::printing_balance::AsBalance;
use substrate_parser::ShortSpecs;

// ---------------------------------------------------------------- C10

fn c10_at<T, B, E>(d: &B, m: &mut E, pos: usize, want: Option<(u128, usize)>) -> Result<(), String>
where
    T: HasCompact + Into<u128> + std::fmt::Debug + Copy,
    Compact<T>: Decode,
    B: AddressableBuffer<E>,
    E: ExternalMemory + std::fmt::Debug,
{
    let f = find_compact::<T, B, E>(d, m, pos);
    match (&f, want) {
        (Ok(g), Some((v, n))) => {
            if g.compact.into() != v || g.start_next_unit != pos + n {
                return Err(format!("found {:?} up to {}, it is {v} up to {}", g.compact, g.start_next_unit, pos + n));
            }
        }
        (Ok(g), None) => return Err(format!("found {:?} up to {} where no canonical compact is", g.compact, g.start_next_unit)),
        (Err(_), Some((v, n))) => return Err(format!("compact {v} of {n} bytes not found")),
        (Err(_), None) => {}
    }
    let mut p = pos;
    let g = get_compact::<T, B, E>(d, m, &mut p);
    match (&g, want) {
        (Ok(x), Some((v, n))) if (*x).into() == v && p == pos + n => {}
        (Err(_), None) if p == pos => {}
        _ => return Err(format!("taking it gives {:?} and position {p} (from {pos}), due {want:?}", g.ok())),
    }
    Ok(())
}

fn c10_one(d: &[u8], pos: usize, st: &mut Local, key: u64) {
    macro_rules! width {
        ($t:ty, $bits:expr) => {{
            let want = if pos <= d.len() { compact_at(d, pos, $bits) } else { None };
            if let Err(e) = c10_at::<$t, &[u8], ()>(&d, &mut (), pos, want) {
                st.fail(format!("{} bits at {pos}: {e}; data {}", $bits, hexs(d)));
            }
            st.class(if want.is_some() { concat!(stringify!($t), " found") } else { concat!(stringify!($t), " refused") });
        }};
    }
    width!(u8, 8);
    width!(u16, 16);
    width!(u32, 32);
    width!(u64, 64);
    width!(u128, 128);
    st.eval(key);
}

fn c10_stored(d: &[u8], pos: usize, r: &mut Rng, st: &mut Local) {
    macro_rules! width {
        ($t:ty, $bits:expr) => {{
            let want = if pos <= d.len() { compact_at(d, pos, $bits) } else { None };
            let mut m = Mem::logging();
            let b = LogBuf::new(d, 0);
            if let Err(e) = c10_at::<$t, LogBuf, Mem>(&b, &mut m, pos, want) {
                st.fail(format!("{} bits at {pos} in external memory: {e}; data {}", $bits, hexs(d)));
            }
            for a in m.log.unwrap() {
                if let crate::mem::Acc::Read { pos: p, len, .. } = a {
                    if p < pos || p + len > pos + 18 {
                        st.fail(format!("reads {len} bytes at {p} for a compact at {pos}; data {}", hexs(d)));
                    }
                }
            }
            let mut m = Mem::new();
            let b = PagedBuf::new(d, r.range(1, 9) as usize);
            if let Err(e) = c10_at::<$t, PagedBuf, Mem>(&b, &mut m, pos, want) {
                st.fail(format!("{} bits at {pos} in paged memory: {e}; data {}", $bits, hexs(d)));
            }
        }};
    }
    width!(u8, 8);
    width!(u16, 16);
    width!(u32, 32);
    width!(u64, 64);
    width!(u128, 128);
    st.eval(mix(hash_bytes(d), pos as u64 ^ 0x5555));
}

fn c10(run: &Runner) {
    // all inputs of up to two bytes, and three with few last bytes
    run.stage("all-short", 256, |_, c, st| {
        let a = c as u8;
        c10_one(&[], 0, st, 0);
        c10_one(&[], 1, st, 1);
        c10_one(&[a], 0, st, 2 + c);
        for b in 0..=255u8 {
            c10_one(&[a, b], 0, st, 1000 + (c << 8 | b as u64));
            for x in [0u8, 1, 3, 4, 0x40, 0xff] {
                c10_one(&[a, b, x], 0, st, (1 << 32) + (c << 16 | (b as u64) << 8 | x as u64));
                for y in [0u8, 1, 0x40, 0xff] {
                    c10_one(&[a, b, x, y], 0, st, (1 << 33) + (c << 24 | (b as u64) << 16 | (x as u64) << 8 | y as u64));
                }
            }
        }
    });
    // every value around every boundary, every cut, canonical and not
    let mut vals: Vec<u128> = vec![];
    for b in 0..128u32 {
        for d in -3i128..=3 {
            vals.push((1u128 << b).wrapping_add(d as u128));
        }
    }
    vals.extend([u128::MAX, u128::MAX - 1, u64::MAX as u128, u32::MAX as u128]);
    run.stage("boundaries", vals.len() as u64, |r, c, st| {
        let v = vals[c as usize];
        let mut enc = vec![vec![]];
        put_compact(&mut enc[0], v);
        // the same value in all longer modes
        if v < 1 << 14 {
            enc.push(((v as u16) << 2 | 1).to_le_bytes().to_vec());
        }
        if v < 1 << 30 {
            enc.push(((v as u32) << 2 | 2).to_le_bytes().to_vec());
        }
        for n in 4..=20usize {
            if n >= 16 || v >> (8 * n) == 0 {
                let mut e = vec![((n as u8 - 4) << 2) | 3];
                for i in 0..n {
                    e.push(if i < 16 { v.to_le_bytes()[i] } else { 0 });
                }
                enc.push(e);
            }
        }
        for e in enc {
            for (pre, post) in [(0usize, 0usize), (0, 3), (3, 0), (2, 20)] {
                let mut d = r.bytes(pre);
                d.extend(&e);
                d.extend(r.bytes(post));
                c10_one(&d, pre, st, mix(hash_bytes(&d), pre as u64));
                c10_stored(&d, pre, r, st);
            }
            for k in 0..e.len() {
                c10_one(&e[..k], 0, st, mix(hash_bytes(&e[..k]), 77));
            }
        }
    });
    run.stage("typed", run.cfg.n(15_000), |r, _, st| c10_typed(r, st));
    run.stage("random", run.cfg.n(40_000), |r, _, st| {
        for _ in 0..10 {
            let pre = r.idx(20);
            let mut d = r.bytes(pre);
            match r.below(4) {
                0 => {
                    let v = r.uint(r.clone().pick(&[8, 16, 32, 64, 128]));
                    put_compact(&mut d, v)
                }
                1 => {
                    let v = r.uint(r.clone().pick(&[8, 16, 32, 64, 128]));
                    put_compact_wrong(r, &mut d, v)
                }
                2 => {
                    let (b, n) = (r.byte() | 3, r.idx(20));
                    d.push(b);
                    d.extend(r.bytes(n));
                    if r.chance(1, 2) {
                        let z = r.idx(4);
                        d.extend(vec![0; z]);
                    }
                }
                _ => {
                    let n = r.idx(20);
                    d.extend(r.bytes(n))
                }
            }
            let n = r.idx(4);
            d.extend(r.bytes(n));
            let pos = if r.chance(1, 10) { r.idx(d.len() + 4) } else { pre };
            c10_one(&d, pos, st, mix(hash_bytes(&d), pos as u64));
            if r.chance(1, 4) {
                c10_stored(&d, pos, r, st);
            }
            if r.chance(1, 100) {
                c10_one(&d, usize::MAX - r.idx(3), st, 3);
            }
            st.sample(|| format!("at {pos} of {}: u128 {:?}", hexs(&d), compact_at(&d, pos.min(d.len()), 128)));
        }
    });
}

/// What a number behind a compact is.
fn number(d: &ExtendedData) -> Option<u128> {
    Some(match &d.data {
        ParsedData::PrimitiveU8 { value, .. } => *value as u128,
        ParsedData::PrimitiveU16 { value, .. } => *value as u128,
        ParsedData::PrimitiveU32 { value, .. } => *value as u128,
        ParsedData::PrimitiveU64 { value, .. } => *value as u128,
        ParsedData::PrimitiveU128 { value, .. } => *value,
        ParsedData::Composite(f) if f.len() == 1 => return number(&f[0].data),
        ParsedData::Tuple(t) if t.len() == 1 => return number(&t[0]),
        _ => return None,
    })
}

/// Compacts as types say, of every width, with encodings of any value.
fn c10_typed(r: &mut Rng, st: &mut Local) {
    let (id, bits) = r.pick(&[(gen::U8, 8u32), (gen::U16, 16), (gen::U32, 32), (gen::U64, 64), (gen::U128, 128)]);
    let mut b = Builder::new();
    let mut inner = id;
    for _ in 0..r.pick(&[0u64, 0, 1, 2]) {
        let name = if r.chance(1, 2) { Some("v") } else { None };
        inner = b.add(mk(&["Wrapped"], comp(vec![fld(name, inner, gen::type_name(r), &[])]), &[]));
    }
    let mut c = b.add(mk(&[], gen::cpt(inner), &[]));
    for _ in 0..r.pick(&[0u64, 0, 1]) {
        c = b.add(mk(&["Outer"], comp(vec![fld(gen::field_name(r), c, gen::type_name(r), &[])]), &[]));
    }
    let w = World::of(b.finish(), 18);
    for _ in 0..10 {
        // values about the limit of the type and of the others
        let v = match r.below(4) {
            0 => (1u128 << r.pick(&[6u32, 8, 14, 16, 30, 32, 56, 64, 120])).wrapping_add(r.below(5) as u128).wrapping_sub(2),
            1 if bits < 128 => (1u128 << bits).wrapping_add(r.below(5) as u128).wrapping_sub(2),
            _ => {
                let k = r.range(1, 128) as u32;
                r.uint(k)
            }
        };
        let mut d = vec![];
        if r.chance(1, 6) {
            put_compact_wrong(r, &mut d, v);
        } else {
            put_compact(&mut d, v);
        }
        if r.chance(1, 8) {
            let k = r.idx(d.len() + 1);
            d.truncate(k);
        }
        let n = r.idx(3);
        d.extend(r.bytes(n));
        let want = compact_at(&d, 0, bits);
        let mut pos = 0;
        let got = real_at(&w.reg, c, &d, &mut pos);
        match (&got, want) {
            (Ok(g), Some((v, n))) if number(g) == Some(v) && pos == n => st.class("typed: decoded"),
            (Err(_), None) => st.class("typed: refused"),
            (g, w) => st.fail(format!("compact of {bits} bits as a type: {:?} and position {pos}, due {w:?}; data {}", g.as_ref().map(of_ext), hexs(&d))),
        }
        st.eval(mix(hash_bytes(&d), bits as u64 + 1000));
    }
}

// ---------------------------------------------------------------- C14

/// Prefix of the unit and its power of ten.
pub const PREFIXES: [(&str, i32); 11] =
    [("T", 12), ("G", 9), ("M", 6), ("k", 3), ("", 0), ("m", -3), ("u", -6), ("n", -9), ("p", -12), ("f", -15), ("a", -18)];

/// Is this the integer times ten to the power of minus decimals, with all its digits?
pub fn balance_right(value: &str, decimals: u8, unit: &str, number: &str, units: &str) -> Result<i32, String> {
    let bad = |s: &str| Err(format!("{value} with {decimals} decimals of {unit:?} shown as {number:?} {units:?}: {s}"));
    let Some((_, e)) = PREFIXES.iter().find(|(p, _)| units.strip_prefix(p) == Some(unit) && units.len() == p.len() + unit.len()) else {
        return bad("unit is not the given one with a known prefix");
    };
    let (before, after) = number.split_once('.').map(|(a, b)| (a, Some(b))).unwrap_or((number, None));
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if !digits(before) || after.map(|a| !digits(a)).unwrap_or(false) {
        return bad("not a decimal number");
    }
    let after = after.unwrap_or("");
    let all = format!("{before}{after}");
    let sig = all.trim_start_matches('0');
    if value == "0" {
        return if !sig.is_empty() {
            bad("not zero")
        } else if before.len() > 3 {
            bad("integer part too long")
        } else {
            Ok(*e)
        };
    }
    // sig * 10^(e - after) == value * 10^-decimals
    let Some(pad) = sig.strip_prefix(value) else { return bad("digits differ") };
    if !pad.bytes().all(|b| b == b'0') {
        return bad("digits differ");
    }
    // value * 10^pad * 10^(e - after) == value * 10^-decimals
    if pad.len() as i32 + e - after.len() as i32 != -(decimals as i32) {
        return bad("magnitude differs");
    }
    // power of ten of the first digit
    let p = value.len() as i32 - 1 - decimals as i32;
    if (-18..=14).contains(&p) {
        if before.len() > 3 || before.starts_with('0') {
            return bad("integer part not of one to three digits");
        }
    } else if before.len() > 1 && before.starts_with('0') {
        return bad("leading zeros");
    }
    Ok(*e)
}

const UNITS: [&str; 12] = ["DOT", "WND", "", "m", "k", "T", "mm", "aT", "Unit", "µX", "1", " 0.5"];

fn c14_one(v: u128, decimals: u8, unit: &str, st: &mut Local) {
    let s = v.to_string();
    let mut check = |w: u32, c: substrate_parser::printing_balance::Currency| match balance_right(&s, decimals, unit, &c.number, &c.units) {
        Ok(e) => {
            st.class(&format!("prefix 10^{e}"));
            st.eval(mix(mix(hash_bytes(s.as_bytes()), decimals as u64), w as u64 ^ hash_bytes(unit.as_bytes())));
            st.sample(|| format!("{s} with {decimals} decimals: {} {}", c.number, c.units));
        }
        Err(e) => st.fail(format!("u{w}: {e}")),
    };
    check(128, u128::convert_balance_pretty(v, decimals, unit));
    if let Ok(x) = u64::try_from(v) {
        check(64, u64::convert_balance_pretty(x, decimals, unit));
    }
    if let Ok(x) = u32::try_from(v) {
        check(32, u32::convert_balance_pretty(x, decimals, unit));
    }
    if let Ok(x) = u16::try_from(v) {
        check(16, u16::convert_balance_pretty(x, decimals, unit));
    }
    if let Ok(x) = u8::try_from(v) {
        check(8, u8::convert_balance_pretty(x, decimals, unit));
    }
}

fn c14(run: &Runner) {
    // all digit counts with all decimals
    run.stage("all-lengths", 256, |r, c, st| {
        let d = c as u8;
        for len in 1..=39u32 {
            let lo = 10u128.checked_pow(len - 1).unwrap();
            let hi = 10u128.checked_pow(len).map(|x| x - 1).unwrap_or(u128::MAX);
            let mut vs = vec![lo, hi, lo + 1.min(hi - lo), lo.saturating_mul(2).min(hi), lo + (hi - lo) / 3];
            for _ in 0..run.cfg.n(3) {
                vs.push(lo + r.u128() % (hi - lo + 1));
            }
            // zeros inside and at the end
            let k = 10u128.pow(r.below(len as u64) as u32);
            vs.push(((lo + r.u128() % (hi - lo + 1)) / k * k).max(lo));
            vs.push(lo + r.u128() % k.min(hi - lo + 1));
            for v in vs {
                let u = r.pick(&UNITS);
                c14_one(v, d, u, st);
            }
        }
        for u in UNITS {
            c14_one(0, d, u, st);
            c14_one(u128::MAX, d, u, st);
        }
    });
    // all small numbers
    run.stage("all-small", 256, |r, c, st| {
        for v in 0..2100u128 {
            let u = r.pick(&UNITS);
            c14_one(v, c as u8, u, st);
        }
    });
    run.stage("random", run.cfg.n(40_000), |r, _, st| {
        for _ in 0..10 {
            let v = r.uint(r.clone().pick(&[8, 16, 32, 64, 128]));
            let d = if r.chance(2, 3) { r.below(40) as u8 } else { r.byte() };
            let u = if r.chance(1, 20) { (0..r.idx(6)).map(|_| char::from_u32(r.below(0xd7ff) as u32 + 1).unwrap()).collect::<String>() } else { r.pick(&UNITS).to_string() };
            c14_one(v, d, &u, st);
        }
    });
    // as shown on cards
    run.stage("cards", run.cfg.n(20_000), |r, _, st| {
        use substrate_parser::special_indicators::SpecialtyUnsignedInteger as U;
        for _ in 0..5 {
            let bits = r.pick(&[8u32, 16, 32, 64, 128]);
            let v = r.uint(bits);
            let tip = r.chance(1, 3);
            let sp = if tip { U::Tip } else { U::Balance };
            let data = match bits {
                8 => ParsedData::PrimitiveU8 { value: v as u8, specialty: sp },
                16 => ParsedData::PrimitiveU16 { value: v as u16, specialty: sp },
                32 => ParsedData::PrimitiveU32 { value: v as u32, specialty: sp },
                64 => ParsedData::PrimitiveU64 { value: v as u64, specialty: sp },
                _ => ParsedData::PrimitiveU128 { value: v, specialty: sp },
            };
            let d = r.below(40) as u8;
            let u = r.pick(&UNITS);
            let specs = ShortSpecs { base58prefix: 42, decimals: d, unit: u.to_string() };
            let t = ExtendedData { data, info: vec![] }.show(0, true, &specs, "x");
            let label = if tip { "Tip: " } else { "Balance: " };
            let ok = t.strip_prefix(label).and_then(|s| s.split_once(' ')).ok_or(format!("shown as {t:?}")).and_then(|(n, x)| balance_right(&v.to_string(), d, u, n, x));
            match ok {
                Ok(_) => st.eval(mix(mix(hash_bytes(&v.to_le_bytes()), d as u64), bits as u64)),
                Err(e) => st.fail(format!("card of u{bits}: {e}")),
            }
        }
    });
}

// ---------------------------------------------------------------- C18

/// The era two bytes stand for, as sp_runtime has it. `None`: invalid.
pub fn era_of(a: u8, b: Option<u8>) -> Option<(Option<(u64, u64)>, usize)> {
    if a == 0 {
        return Some((None, 1));
    }
    let x = a as u32 + 256 * b? as u32;
    let period = 1u64 << (x % 16 + 1);
    let quantum = if period > 4096 { period / 4096 } else { 1 };
    let phase = (x / 16) as u64 * quantum;
    if period < 4 || phase >= period {
        return None;
    }
    Some((Some((period, phase)), 2))
}

fn c18_one(d: &[u8], w: &World, ids: &[u32], st: &mut Local) {
    let want = d.first().and_then(|a| era_of(*a, d.get(1).copied()));
    let mut s = d;
    let got = Era::decode(&mut s);
    let used = d.len() - s.len();
    match (&got, &want) {
        (Ok(Era::Immortal), Some((None, 1))) if used == 1 => {}
        (Ok(Era::Mortal(p, f)), Some((Some((x, y)), 2))) if p == x && f == y && used == 2 => {}
        (Err(_), None) => {}
        _ => st.fail(format!("{} gives {got:?} using {used} bytes, is {want:?}", hexs(d))),
    }
    if let Ok(e) = got {
        if e.encode() != d[..used] {
            st.fail(format!("{} gives {e:?}, which encodes to {}", hexs(d), hexs(&e.encode())));
        }
        if e.size_hint() < e.encode().len() && e.size_hint() != 0 {
            st.class("size hint below the size");
        }
    }
    st.class(match want {
        None => "invalid",
        Some((None, _)) => "immortal",
        _ => "mortal",
    });
    st.eval(mix(hash_bytes(d), d.len() as u64));
    // inside typed data
    let n = want.map(|x| x.1);
    for (k, id) in ids.iter().enumerate() {
        let mut data = vec![];
        match k {
            0 => data.extend(d),
            1 => {
                data.push(7);
                data.extend(d);
            }
            _ => {
                put_compact(&mut data, 2);
                data.extend(d);
                if n.is_some() {
                    data.truncate(1 + n.unwrap());
                }
                data.push(0);
            }
        }
        let mut pos = 0;
        let r = real_at(&w.reg, *id, &data, &mut pos);
        let leaf = n.map(|_| match want.unwrap().0 {
            None => "era:immortal".to_string(),
            Some((p, f)) => format!("era:{p}/{f}"),
        });
        use crate::val::V;
        let v = leaf.map(V::Leaf);
        let (v, len) = match k {
            0 => (v, n.unwrap_or(0)),
            1 => (v.map(|v| V::Tuple(vec![V::Leaf("u8:7".into()), v])), 1 + n.unwrap_or(0)),
            _ => (v.map(|v| V::Seq(vec![v, V::Leaf("era:immortal".into())])), 2 + n.unwrap_or(0)),
        };
        match (&r, &v) {
            (Ok(e), Some(v)) => {
                if let Some(x) = diff(v, &of_ext(e), "era".into()) {
                    st.fail(format!("typed: {x}; data {}", hexs(&data)));
                }
                if pos != len {
                    st.fail(format!("typed: uses {pos} bytes instead of {len}; data {}", hexs(&data)));
                }
            }
            (Err(_), None) => {}
            // with two of them the second may make one
            (Ok(_), None) if k == 2 && d.len() < 2 => {}
            _ => st.fail(format!("typed: {:?}, due {v:?}; data {}", r.map(|e| of_ext(&e)), hexs(&data))),
        }
    }
}

fn c18(run: &Runner) {
    let mut b = Builder::new();
    let mut r = Rng::new(3);
    let made: Vec<u32> = (0..21).map(|k| b.add_special(&mut r, k)).collect();
    let era = made.into_iter().find(|id| b.types[*id as usize].path.segments.last().map(|s| s == "Era").unwrap_or(false)).expect("era type");
    let t = b.add(mk(&[], tup(&[gen::U8, era]), &[]));
    let s = b.add(mk(&[], seq(era), &[]));
    let w = World::of(b.finish(), 18);
    let ids = [era, t, s];
    run.stage("all", 256, |_, c, st| {
        c18_one(&[], &w, &ids[..1], st);
        c18_one(&[c as u8], &w, &ids, st);
        for b in 0..=255u8 {
            c18_one(&[c as u8, b], &w, &ids, st);
        }
        st.sample(|| format!("{c:02x}00..{c:02x}ff"));
    });
    // all valid period and phase pairs survive, all eras made from a block number as the runtime does
    run.stage("round-trip", 15, |r, c, st| {
        let period = 4u64 << c;
        if period > 65536 {
            return;
        }
        let q = (period >> 12).max(1);
        for k in 0..period / q {
            let e = Era::Mortal(period, k * q);
            let b = e.encode();
            let x = c.wrapping_add(1) as u16 | (k as u16) << 4;
            if b != x.to_le_bytes() {
                st.fail(format!("{e:?} encodes to {}, the runtime has {x:04x} little-endian", hexs(&b)));
            }
            match Era::decode(&mut &b[..]) {
                Ok(f) if f == e => {}
                f => st.fail(format!("{e:?} encodes to {} and that decodes to {f:?}", hexs(&b))),
            }
            // followed by anything
            let mut d = b.clone();
            d.extend(r.bytes(3));
            c18_one(&d, &w, &ids[..2], st);
            st.class("pairs");
        }
        if Era::Immortal.encode() != [0] {
            st.fail("immortal era is not one zero byte".into());
        }
    });
}

// ---------------------------------------------------------------- C19

pub struct BitsWorld {
    pub w: World,
    /// store width, least bit first, type
    pub kinds: Vec<(usize, bool, u32)>,
    pub wrapped: Vec<u32>,
}

pub fn bits_world() -> BitsWorld {
    let mut b = Builder::new();
    let mut kinds = vec![];
    let mut wrapped = vec![];
    for (w, s) in [(8, gen::U8), (16, gen::U16), (32, gen::U32), (64, gen::U64)] {
        for (l, o) in [(true, gen::LSB), (false, gen::MSB)] {
            let id = b.add(mk(&[], bitseq(s, o), &[]));
            kinds.push((w, l, id));
            wrapped.push(b.add(mk(&["x", "T"], comp(vec![fld(Some("a"), gen::U8, None, &[]), fld(Some("b"), id, None, &[]), fld(Some("c"), gen::U16, None, &[])]), &[])));
        }
    }
    BitsWorld { w: World::of(b.finish(), 18), kinds, wrapped }
}

pub fn encode_bits(w: usize, lsb: bool, bits: &[bool]) -> Vec<u8> {
    let mut o = vec![];
    put_compact(&mut o, bits.len() as u128);
    for ch in bits.chunks(w) {
        let mut e: u64 = 0;
        for (i, b) in ch.iter().enumerate() {
            if *b {
                e |= 1u64 << if lsb { i } else { w - 1 - i };
            }
        }
        o.extend(&e.to_le_bytes()[..w / 8]);
    }
    o
}

/// Bits shown in the text of a bit sequence card.
pub fn shown_bits(t: &str) -> Option<Vec<bool>> {
    let s = &t[t.find("[")?..];
    Some(s.chars().filter(|c| *c == '0' || *c == '1').map(|c| c == '1').collect())
}

/// The value, its text, and the wrapped value.
pub fn c19_value(x: &BitsWorld, k: usize, bits: &[bool], padding: u8) -> Result<(), String> {
    let (w, lsb, id) = x.kinds[k];
    let say = |s: String| Err(format!("{w}-bit store, {}: {} bits {}: {s}", if lsb { "Lsb0" } else { "Msb0" }, bits.len(), bits.iter().take(300).map(|b| if *b { '1' } else { '0' }).collect::<String>()));
    let mut d = encode_bits(w, lsb, bits);
    // padding bits carry no meaning
    if padding != 0 && bits.len() % w != 0 {
        let mut e = bits.to_vec();
        let mut p = padding;
        while e.len() % w != 0 {
            e.push(p & 1 == 1);
            p = p.rotate_right(1);
        }
        let y = encode_bits(w, lsb, &e);
        let n = bits.len().div_ceil(w) * w / 8;
        let at = d.len() - n;
        d[at..].copy_from_slice(&y[y.len() - n..]);
    }
    let want = crate::val::bits_leaf(bits.iter().copied());
    let mut pos = 0;
    match real_at(&x.w.reg, id, &d, &mut pos) {
        Ok(e) => {
            if let Some(f) = diff(&want, &of_ext(&e), "bits".into()) {
                return say(cut(f, 1500));
            }
            if pos != d.len() {
                return say(format!("{pos} bytes used of {}", d.len()));
            }
            let specs = ShortSpecs { base58prefix: 42, decimals: 0, unit: String::new() };
            let t = e.show(0, true, &specs, "x");
            if shown_bits(&t).as_deref() != Some(bits) || !t.starts_with(&format!("BitVec<u{w}, {}>: [", if lsb { "Lsb0" } else { "Msb0" })) {
                return say(format!("shown as {}", cut(t, 1500)));
            }
        }
        Err(e) => return say(format!("refused with {e:?}")),
    }
    let mut e = vec![9u8];
    e.extend(&d);
    e.extend([1, 2]);
    match real_all(&x.w.reg, x.wrapped[k], &e) {
        Ok(g) => {
            use crate::val::V;
            let want = V::Struct(vec![(Some("a".into()), V::Leaf("u8:9".into())), (Some("b".into()), want), (Some("c".into()), V::Leaf("u16:513".into()))]);
            if let Some(f) = diff(&want, &of_ext(&g), "struct".into()) {
                return say(cut(f, 1500));
            }
        }
        Err(g) => return say(format!("inside a struct refused with {g:?}")),
    }
    Ok(())
}

/// Cut or oversized data must be refused.
pub fn c19_refused(x: &BitsWorld, k: usize, d: &[u8]) -> Result<(), String> {
    let (w, lsb, id) = x.kinds[k];
    let mut pos = 0;
    match real_at(&x.w.reg, id, d, &mut pos) {
        Ok(e) => Err(format!("{w}-bit store, {}: {} accepted as {}", if lsb { "Lsb0" } else { "Msb0" }, hexs(d), cut(format!("{:?}", of_ext(&e)), 300))),
        Err(_) => Ok(()),
    }
}

pub fn patterns(r: &mut Rng, n: usize, k: u64) -> Vec<bool> {
    (0..n)
        .map(|i| match k {
            0 => false,
            1 => true,
            2 => i == 0 || i + 1 == n,
            3 => (i / 32) % 2 == 0,
            4 => (i / 64) % 2 == 1,
            _ => r.chance(1, 2),
        })
        .collect()
}

type Seen<'a> = &'a mut dyn FnMut(u64, &str);
/// All kinds with this length: patterns, every single bit, every cut.
pub fn c19_length(x: &BitsWorld, r: &mut Rng, n: usize, pats: u64, seen: Seen) -> Result<(), String> {
    for k in 0..8 {
        let kind = format!("values of {}-bit store, {}", x.kinds[k].0, if x.kinds[k].1 { "Lsb0" } else { "Msb0" });
        for p in 0..pats {
            let bits = patterns(r, n, p.min(8));
            let pad = if r.chance(1, 2) { 0 } else { r.byte() };
            c19_value(x, k, &bits, pad)?;
            let d = encode_bits(x.kinds[k].0, x.kinds[k].1, &bits);
            seen(mix(hash_bytes(&d), k as u64), &kind);
        }
        // single bits
        for i in 0..n.min(130) {
            let bits: Vec<bool> = (0..n).map(|j| j == i).collect();
            c19_value(x, k, &bits, 0)?;
            seen(mix(mix(n as u64, i as u64), k as u64), &kind);
        }
        // all cuts
        let bits = patterns(r, n, 7);
        let d = encode_bits(x.kinds[k].0, x.kinds[k].1, &bits);
        for c in 0..d.len() {
            c19_refused(x, k, &d[..c])?;
            seen(mix(hash_bytes(&d[..c]), 9 + k as u64), "cut data refused");
        }
    }
    Ok(())
}
/// A long one of some kind.
pub fn c19_long(x: &BitsWorld, r: &mut Rng, seen: Seen) -> Result<(), String> {
    let n = r.pick(&[1000usize, 4095, 4096, 16383, 16384, 16385, 65535, 65536, 100_003, 1 << 20]) + r.idx(70);
    let k = r.idx(8);
    let bits = patterns(r, n, 7);
    c19_value(x, k, &bits, 0)?;
    seen(mix(n as u64, k as u64), "long values");
    Ok(())
}
/// Claims of more bits than there are, of all kinds.
pub fn c19_oversized(x: &BitsWorld, r: &mut Rng, seen: Seen) -> Result<(), String> {
    for k in 0..8 {
        for claim in [1u128 << 29, (1 << 29) - 1, (1 << 29) + 1, u32::MAX as u128, u32::MAX as u128 - 6, u32::MAX as u128 - 64, 1 << 31, 1 << 32, u128::MAX, 1 << 30, 100_000] {
            let mut d = vec![];
            put_compact(&mut d, claim + r.below(3) as u128 * (claim < u128::MAX) as u128);
            let n = r.idx(80);
            d.extend(r.bytes(n));
            c19_refused(x, k, &d)?;
            seen(mix(hash_bytes(&d), k as u64), "oversized claims refused");
        }
        let mut d = vec![];
        put_compact_wrong(r, &mut d, 3);
        d.extend(r.bytes(40));
        c19_refused(x, k, &d)?;
    }
    Ok(())
}
/// Longest length tried exhaustively.
pub const C19_TOP: u64 = 400;

fn c19(run: &Runner) {
    let x = bits_world();
    let stage = |name: &str, n: u64, f: &(dyn Fn(&mut Rng, u64, Seen) -> Result<(), String> + Sync)| {
        run.stage(name, n, |r, c, st| {
            let mut v = vec![];
            let o = f(r, c, &mut |h, class| v.push((h, class.to_string())));
            for (h, class) in v {
                st.eval(h);
                st.class(&class);
            }
            if let Err(e) = o {
                st.fail(e);
            }
            st.sample(|| format!("case {c} of {name}, all eight kinds"));
        });
    };
    stage("all-lengths", C19_TOP, &|r, n, seen| c19_length(&x, r, n as usize, run.cfg.n(8), seen));
    stage("long", run.cfg.n(60), &|r, _, seen| c19_long(&x, r, seen));
    stage("oversized", run.cfg.n(400), &|r, _, seen| c19_oversized(&x, r, seen));
    super::vm::w32_made(run, 8, 60);
    super::vm::miri(run, "i686-unknown-linux-gnu", 8, 15);
}

use crate::gen::put_compact_wrong;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C10",
            rule: "All byte strings of up to two bytes and many of three and four, every value near every power of two in all canonical and longer modes with all cuts, random ones at random positions; each of five widths against an independent decoder, on slices, logged and paged memory. Non-trivial: every case; distinct by (bytes, position).",
            level: "exploration; exhaustive for up to two bytes",
            assumptions: &[],
            min_distinct: 100_000,
            run: c10,
        },
        Spec {
            id: "C14",
            rule: "Every digit count 1..39 with every decimals 0..255 with several values and units each, all integers below 2100 with every decimals, random ones; compared by exact string arithmetic. Non-trivial: every case; distinct by (value, decimals, width, unit).",
            level: "exploration; exhaustive in digit count and decimals",
            assumptions: &[],
            min_distinct: 300_000,
            run: c14,
        },
        Spec {
            id: "C18",
            rule: "All inputs of up to two bytes alone and in typed data, all valid periods and phases; compared with sp_runtime's definition written down anew. Non-trivial: every case; distinct by bytes.",
            level: "exhaustive",
            assumptions: &[],
            min_distinct: 60_000,
            run: c18,
        },
        Spec {
            id: "C19",
            rule: "All eight kinds with every length 0..399 in several patterns, every single bit, every cut, long and oversized ones, padding bits set; natively, with 32-bit sizes as WebAssembly, and (fewer) on 32-bit x86 under Miri; values, bytes used and text compared with the bits written. Non-trivial: every case; distinct by (bytes, kind).",
            level: "exploration; exhaustive in length and single bits to 399",
            assumptions: &["32-bit targets are represented by wasm32 run by V8 and i686 as interpreted by Miri"],
            min_distinct: 100_000,
            run: c19,
        },
    ]
}
