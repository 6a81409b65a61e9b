//! Storage keys and values: C09, and the storage part of C22.
use crate::common::*;
use crate::gen::{self, comp, fld, mk, seq, tup, Builder};
use crate::mem::{sym, Meta, Reg};
use crate::model2::{self as m2, O};
use crate::real::RealMeta;
use crate::rng::Rng;
use crate::run::{hash_bytes, mix, Local, Runner, Spec};
use crate::val::{diff, of_ext, V};
use frame_metadata::v14::{StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher as H};
use scale_info::form::PortableForm;
use std::sync::OnceLock;
use substrate_parser::error::StorageError;
use substrate_parser::storage_data::{process_key_mapped, Hash, KeyData, KeyPart, Storage};

pub type Entry = StorageEntryMetadata<PortableForm>;
pub const HASHERS: [H; 7] = [H::Blake2_128, H::Blake2_256, H::Blake2_128Concat, H::Twox128, H::Twox256, H::Twox64Concat, H::Identity];

pub fn real(reg: &Reg, key: &[u8], value: &[u8], e: &Entry) -> Result<Storage, StorageError<()>> {
    substrate_parser::decode_as_storage_entry::<&[u8], (), Meta>(&key, &value, &mut (), e, reg)
}

/// Does the key of a map decode from a position on?
pub fn process_case(hashers: &[H], key: u32, d: &[u8], from: usize, reg: &Reg) -> bool {
    process_key_mapped::<&[u8], (), Meta>(hashers, &sym(key), &d, &mut (), from, reg).is_ok()
}

/// What one part of the key should be.
#[derive(Clone, Debug)]
pub enum Part {
    Hash(Vec<u8>, u32),
    Val(V),
}

#[derive(Clone, Debug)]
pub struct Made {
    pub key: Vec<u8>,
    pub value: Vec<u8>,
    pub parts: Vec<Part>,
    pub val: V,
    /// Starts of the parts: hash, data, end.
    pub spans: Vec<(usize, usize, usize)>,
}

fn entry(ty: StorageEntryType<PortableForm>, docs: Vec<&str>) -> Entry {
    StorageEntryMetadata { name: "Entry".into(), modifier: StorageEntryModifier::Default, ty, default: vec![], docs: docs.into_iter().map(|x| x.to_string()).collect() }
}

pub struct StWorld {
    pub w: World,
    pub e: Entry,
}

/// A description and an entry in it whose hashers fit its key.
pub fn storage_world(r: &mut Rng) -> StWorld {
    let n = r.range(2, 12);
    let mut b = Builder::random(r, n as usize);
    let some = |r: &mut Rng, b: &Builder| if r.chance(1, 5) { r.pick(&[gen::U8, gen::U32, gen::U128, gen::STR, gen::UNIT]) } else { b.any(r) };
    let value = some(r, &b);
    let docs = gen::docs(r);
    let ty = if r.chance(1, 8) {
        StorageEntryType::Plain(sym(value))
    } else {
        let n = if r.chance(1, 12) { r.range(7, 24) as usize } else { r.pick(&[1usize, 1, 1, 2, 2, 3, 4, 6, 0]) };
        let hashers: Vec<H> = (0..n).map(|_| r.pick(&HASHERS)).collect();
        let key = if n == 1 {
            match r.below(4) {
                0 => {
                    let (x, y) = (some(r, &b), some(r, &b));
                    b.add(mk(&[], tup(&[x, y]), &gen::docs(r)))
                }
                _ => some(r, &b),
            }
        } else {
            let ids: Vec<u32> = (0..n).map(|_| some(r, &b)).collect();
            let path: &[&str] = if r.chance(1, 4) { &["keys", "Pair"] } else { &[] };
            b.add(mk(path, tup(&ids), &gen::docs(r)))
        };
        StorageEntryType::Map { hashers, key: sym(key), value: sym(value) }
    };
    let w = World::of(b.finish(), 18);
    StWorld { w, e: entry(ty, docs) }
}

fn key_ids(w: &World, e: &Entry) -> Option<(Vec<(H, u32)>, u32)> {
    match &e.ty {
        StorageEntryType::Plain(v) => Some((vec![], v.id)),
        StorageEntryType::Map { hashers, key, value } => {
            if hashers.len() == 1 {
                return Some((vec![(hashers[0].clone(), key.id)], value.id));
            }
            let scale_info::TypeDef::Tuple(t) = &w.reg.types.get(key.id as usize)?.ty.type_def else { return None };
            if t.fields.len() != hashers.len() {
                return None;
            }
            Some((hashers.iter().cloned().zip(t.fields.iter().map(|x| x.id)).collect(), value.id))
        }
    }
}

/// A key and value for the entry.
pub fn make(w: &World, e: &Entry, r: &mut Rng) -> Option<Made> {
    let (ids, value) = key_ids(w, e)?;
    let mut key = r.bytes(32);
    let (mut parts, mut spans) = (vec![], vec![]);
    for (h, id) in ids {
        let x = w.value(r, id)?;
        let start = key.len();
        let hash = m2::hash_of(&h, &x.bytes);
        key.extend(&hash);
        let data = key.len();
        parts.push(match h {
            H::Blake2_128Concat | H::Twox64Concat | H::Identity => {
                key.extend(&x.bytes);
                Part::Val(x.v)
            }
            _ => Part::Hash(hash, id),
        });
        spans.push((start, data, key.len()));
    }
    let v = w.value(r, value)?;
    Some(Made { key, value: v.bytes, parts, val: v.v, spans })
}

fn hash_parts(h: &Hash) -> (&'static str, &[u8]) {
    match h {
        Hash::Blake2_128(x) => ("Blake2_128", x),
        Hash::Blake2_256(x) => ("Blake2_256", x),
        Hash::Twox128(x) => ("Twox128", x),
        Hash::Twox256(x) => ("Twox256", x),
    }
}

/// Compare a result with what was put into it.
fn judge(m: &Made, e: &Entry, w: &World, s: &Storage) -> Result<(), String> {
    if s.docs != e.docs.join("\n") {
        return Err(format!("documentation {:?} instead of {:?}", s.docs, e.docs));
    }
    let hashers = match &e.ty {
        StorageEntryType::Plain(_) => vec![],
        StorageEntryType::Map { hashers, .. } => hashers.clone(),
    };
    let parts: Vec<&KeyPart> = match (&s.key, &e.ty) {
        (KeyData::Plain, StorageEntryType::Plain(_)) => vec![],
        (KeyData::SingleHash { content }, StorageEntryType::Map { hashers, .. }) if hashers.len() == 1 => vec![content],
        (KeyData::TupleHash { content, info }, StorageEntryType::Map { hashers, key, .. }) if hashers.len() != 1 => {
            let t = &w.reg.types[key.id as usize].ty;
            if info.docs != t.docs.join("\n") || info.path != t.path {
                return Err(format!("key information {info:?}"));
            }
            content.iter().collect()
        }
        (k, _) => return Err(format!("key of another kind: {k:?}")),
    };
    if parts.len() != m.parts.len() {
        return Err(format!("{} key parts instead of {}", parts.len(), m.parts.len()));
    }
    for (i, (want, got)) in m.parts.iter().zip(parts).enumerate() {
        match (want, got) {
            (Part::Hash(h, id), KeyPart::Hash(d)) => {
                let (kind, bytes) = hash_parts(&d.hash);
                if kind != format!("{:?}", hashers[i]) || bytes != &h[..] || d.type_id != *id {
                    return Err(format!("part {i} is {d:?} instead of {:?} {} of type {id}", hashers[i], hex::encode(h)));
                }
            }
            (Part::Val(v), KeyPart::Parsed(x)) => {
                if let Some(d) = diff(v, &of_ext(x), format!("key part {i}")) {
                    return Err(d);
                }
            }
            _ => return Err(format!("part {i} is {got:?} instead of {want:?}")),
        }
    }
    match diff(&m.val, &of_ext(&s.value), "value".into()) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}

fn say(w: &World, e: &Entry, key: &[u8], value: &[u8]) -> String {
    let t = match &e.ty {
        StorageEntryType::Plain(v) => format!("plain {}", show_ty(&w.reg, v.id)),
        StorageEntryType::Map { hashers, key, value } => format!("map {hashers:?} {} => {}", show_ty(&w.reg, key.id), show_ty(&w.reg, value.id)),
    };
    format!("; entry {t}; key {}; value {}", hexs(key), hexs(value))
}

/// Spoil a key, a value or the entry.
pub fn spoil(e: &Entry, m: &Made, r: &mut Rng, w: &World) -> (Entry, Vec<u8>, Vec<u8>, &'static str) {
    let (mut e, mut key, mut value) = (e.clone(), m.key.clone(), m.value.clone());
    let span = if m.spans.is_empty() { None } else { Some(r.pick(&m.spans)) };
    let how = match (r.below(14), span) {
        (0 | 1, Some((a, b, _))) if b > a => {
            let i = r.range(a as u64, b as u64 - 1) as usize;
            key[i] ^= 1 << r.below(8);
            "bit of the hash"
        }
        (2 | 3, Some((_, b, c))) if c > b => {
            let i = r.range(b as u64, c as u64 - 1) as usize;
            key[i] ^= 1 << r.below(8);
            "bit of the key data"
        }
        (4, _) => {
            let n = r.range(1, 33) as usize;
            let x = r.bytes(n);
            key.extend(x);
            "key extended"
        }
        (5, _) => {
            let n = r.idx(key.len());
            key.truncate(n);
            "key cut"
        }
        (6, _) => {
            key.pop();
            "last byte of the key removed"
        }
        (7, _) => {
            value = mutate(r, &value).0;
            "value changed"
        }
        (8, _) => {
            let x = r.byte();
            value.push(x);
            "value extended"
        }
        (9, Some(_)) => {
            if let StorageEntryType::Map { hashers, .. } = &mut e.ty {
                match r.below(5) {
                    3 => {
                        // many more
                        for _ in 0..r.pick(&[2u32, 3, 4, 7, 8, 15, 16, 32, 64, 128, 256]) {
                            let k = r.idx(HASHERS.len());
                            hashers.push(HASHERS[k].clone());
                        }
                    }
                    4 => {
                        let k = r.idx(hashers.len());
                        hashers.truncate(k);
                    }
                    0 => {
                        hashers.pop();
                    }
                    1 => hashers.push(r.pick(&HASHERS)),
                    _ => {
                        let i = r.idx(hashers.len());
                        hashers[i] = r.pick(&HASHERS);
                    }
                }
            }
            "other hashers"
        }
        (10, Some(_)) => {
            if let StorageEntryType::Map { key, .. } = &mut e.ty {
                let n = w.reg.types.len() as u64 + 2;
                *key = sym(r.below(n) as u32);
            }
            "other key type"
        }
        (11, Some((a, b, c))) => {
            // one byte too many or too few in the middle, with a right hash or not
            let i = r.range(a as u64, c as u64) as usize;
            if r.chance(1, 2) {
                let x = r.byte();
                key.insert(i, x);
            } else if i < key.len() {
                key.remove(i);
            }
            let _ = b;
            "byte inserted or removed"
        }
        (12, Some((_, b, c))) => {
            // other data under its right hash
            let n = r.idx(20);
            let d = r.bytes(n);
            let h = match &e.ty {
                StorageEntryType::Map { hashers, .. } => m.spans.iter().position(|s| s.1 == b && s.2 == c).and_then(|k| hashers.get(k)).cloned(),
                _ => None,
            };
            if let Some(h) = h {
                let mut x = key[..b].to_vec();
                let hash = m2::hash_of(&h, &d);
                let at = x.len() - hash.len();
                x[at..].copy_from_slice(&hash);
                x.extend(&d);
                x.extend(&key[c..]);
                key = x;
            }
            "other data under its hash"
        }
        _ => {
            if r.chance(1, 2) {
                let (v, _) = mutate(r, &key);
                key = v;
                "key mutated"
            } else {
                let t = e.ty.clone();
                e.ty = match t {
                    StorageEntryType::Plain(v) => StorageEntryType::Map { hashers: vec![r.pick(&HASHERS)], key: sym(gen::U8), value: v },
                    StorageEntryType::Map { value, .. } => StorageEntryType::Plain(value),
                };
                "plain instead of map or the reverse"
            }
        }
    };
    (e, key, value, how)
}

fn compare(w: &World, e: &Entry, key: &[u8], value: &[u8], how: &str, st: &mut Local, case: u64, told: bool) {
    let meta = w.meta();
    let want = m2::storage(&meta, key, value, e);
    if let O::Skip = want {
        st.skip();
        return;
    }
    let got = real(&Reg(w.reg.clone()), key, value, e);
    match (&want, &got) {
        (O::Ok(a), Ok(b)) => {
            // what is said of the value and parts belongs to other properties; here the values
            if let Some(d) = same_storage(a, b) {
                st.fail(format!("{how}: {d}{}", say(w, e, key, value)));
            }
            st.class(&format!("{how}: accepted"));
            if told {
                st.eval_trivial();
                return;
            }
        }
        (O::Err(a), Err(b)) => {
            let (p, q) = (format!("{a:?}"), format!("{b:?}"));
            st.class(&format!("{how}: {}", q.chars().take_while(|c| c.is_alphanumeric()).collect::<String>()));
            if told {
                if p != q {
                    st.fail(format!("{how}: error {q}, really {p}{}", say(w, e, key, value)));
                }
                if let Err(d) = super::tx::told(&b.to_string(), &q) {
                    st.fail(format!("{d}{}", say(w, e, key, value)));
                }
                // the kind of the failure in words of its own
                let words = match b {
                    StorageError::KeyPartHashMismatch => "does not match",
                    StorageError::KeyPartsUnused => "unused",
                    StorageError::KeyShorterThanPrefix => "shorter",
                    StorageError::MultipleHashesNotATuple => "not a tuple",
                    StorageError::MultipleHashesNumberMismatch => "number",
                    StorageError::ParsingKey(_) => "key",
                    StorageError::ParsingValue(_) => "value",
                    StorageError::PlainKeyExceedsPrefix => "other than the prefix",
                };
                if !b.to_string().contains(words) {
                    st.fail(format!("text {:?} of {q}", b.to_string()));
                }
            }
        }
        (O::Err(a), Ok(b)) => st.fail(format!("{how}: accepted as {b:?}, should be {a:?}{}", say(w, e, key, value))),
        (O::Ok(_), Err(b)) => st.fail(format!("{how}: refused with {b:?}{}", say(w, e, key, value))),
        (O::Skip, _) => {}
    }
    st.eval(mix(mix(hash_bytes(key), hash_bytes(value)), case));
    st.sample(|| format!("{how}{}", say(w, e, key, value)));
}

fn same_storage(a: &Storage, b: &Storage) -> Option<String> {
    if a.docs != b.docs {
        return Some(format!("documentation {:?} instead of {:?}", b.docs, a.docs));
    }
    let part = |i: usize, x: &KeyPart, y: &KeyPart| match (x, y) {
        (KeyPart::Parsed(p), KeyPart::Parsed(q)) => diff(&of_ext(p), &of_ext(q), format!("key part {i}")),
        (KeyPart::Hash(p), KeyPart::Hash(q)) if p == q => None,
        _ => Some(format!("key part {i} is {y:?} instead of {x:?}")),
    };
    match (&a.key, &b.key) {
        (KeyData::Plain, KeyData::Plain) => {}
        (KeyData::SingleHash { content: x }, KeyData::SingleHash { content: y }) => {
            if let Some(d) = part(0, x, y) {
                return Some(d);
            }
        }
        (KeyData::TupleHash { content: x, info: p }, KeyData::TupleHash { content: y, info: q }) => {
            if x.len() != y.len() || p != q {
                return Some(format!("key {:?} instead of {:?}", b.key, a.key));
            }
            for (i, (x, y)) in x.iter().zip(y).enumerate() {
                if let Some(d) = part(i, x, y) {
                    return Some(d);
                }
            }
        }
        _ => return Some(format!("key {:?} instead of {:?}", b.key, a.key)),
    }
    diff(&of_ext(&a.value), &of_ext(&b.value), "value".into())
}

fn sound(w: &World, e: &Entry, m: &Made, st: &mut Local, case: u64) {
    // with the model first: it knows when a case is too large
    if let O::Skip = m2::storage(&w.meta(), &m.key, &m.value, e) {
        st.skip();
        return;
    }
    let reg = Reg(w.reg.clone());
    match real(&reg, &m.key, &m.value, e) {
        Err(x) => st.fail(format!("sound entry refused: {x:?}{}", say(w, e, &m.key, &m.value))),
        Ok(s) => {
            if let Err(d) = judge(m, e, w, &s) {
                st.fail(format!("{d}{}", say(w, e, &m.key, &m.value)));
            }
            // key without its prefix
            if let StorageEntryType::Map { hashers, key, .. } = &e.ty {
                for from in [0usize, 7] {
                    let mut d = vec![0xAA; from];
                    d.extend(&m.key[32..]);
                    match process_key_mapped::<&[u8], (), Meta>(hashers, key, &&d[..], &mut (), from, &reg) {
                        Ok(k) if k == s.key => {}
                        o => st.fail(format!("key after {from} bytes gives {o:?}, with prefix {:?}", s.key)),
                    }
                }
            }
        }
    }
    for p in &m.parts {
        st.class(match p {
            Part::Hash(..) => "hash part",
            Part::Val(_) => "decoded part",
        });
    }
    if let StorageEntryType::Map { hashers, .. } = &e.ty {
        for h in hashers {
            st.class(&format!("{h:?}"));
        }
        st.class(&format!("{} hashers", hashers.len()));
    }
    st.eval(mix(mix(hash_bytes(&m.key), hash_bytes(&m.value)), case));
}

/// Entries of the real metadata.
pub fn real_entries() -> &'static Vec<(usize, Entry)> {
    static E: OnceLock<Vec<(usize, Entry)>> = OnceLock::new();
    E.get_or_init(|| {
        let mut v = vec![];
        for (k, (_, _, m)) in real_worlds().iter().enumerate() {
            match m {
                RealMeta::V14(m) => m.pallets.iter().flat_map(|p| p.storage.iter().flat_map(|s| s.entries.iter())).for_each(|e| v.push((k, e.clone()))),
                RealMeta::V15(m) => m.pallets.iter().flat_map(|p| p.storage.iter().flat_map(|s| s.entries.iter())).for_each(|e| v.push((k, e.clone()))),
            }
        }
        v
    })
}

fn c09(run: &Runner) {
    run.stage("sound", run.cfg.n(25_000), |r, c, st| {
        let s = storage_world(r);
        for _ in 0..4 {
            if let Some(m) = make(&s.w, &s.e, r) {
                sound(&s.w, &s.e, &m, st, c);
            }
        }
    });
    run.stage("spoiled", run.cfg.n(25_000), |r, c, st| {
        let s = storage_world(r);
        for _ in 0..3 {
            let Some(m) = make(&s.w, &s.e, r) else { continue };
            for _ in 0..6 {
                let (e, k, v, how) = spoil(&s.e, &m, r, &s.w);
                compare(&s.w, &e, &k, &v, how, st, c, false);
            }
            if st.failed() {
                return;
            }
        }
    });
    // every bit of every hash, every cut of the key
    run.stage("every-bit", run.cfg.n(400), |r, c, st| {
        let s = storage_world(r);
        let Some(m) = make(&s.w, &s.e, r) else { return };
        if m.key.len() > 400 {
            return;
        }
        if let O::Skip = m2::storage(&s.w.meta(), &m.key, &m.value, &s.e) {
            return;
        }
        for i in 32..m.key.len() {
            for bit in 0..8 {
                let mut k = m.key.clone();
                k[i] ^= 1 << bit;
                compare(&s.w, &s.e, &k, &m.value, "every bit", st, c, false);
            }
        }
        for i in 0..m.key.len() {
            compare(&s.w, &s.e, &m.key[..i], &m.value, "every cut", st, c, false);
        }
    });
    let n = real_entries().len() as u64;
    run.stage("real-entries", n, |r, c, st| {
        let (k, e) = &real_entries()[c as usize];
        let w = real_worlds()[*k].1.same();
        for _ in 0..run.cfg.n(3) {
            let Some(m) = make(&w, e, r) else { continue };
            sound(&w, e, &m, st, c);
            for _ in 0..3 {
                let (e, k, v, how) = spoil(e, &m, r, &w);
                compare(&w, &e, &k, &v, how, st, c, false);
            }
        }
    });
    // all pairs of hashers over a few key types
    run.stage("pairs", 49, |r, c, st| {
        let mut b = Builder::new();
        let s8 = b.add(mk(&[], seq(gen::U8), &[]));
        let id = b.add_special(r, 0);
        let empty = b.add(mk(&["Empty"], comp(vec![]), &["none"]));
        let pair = b.add(mk(&["Pair"], comp(vec![fld(Some("a"), gen::U16, None, &[]), fld(Some("b"), s8, None, &[])]), &[]));
        let kinds = [gen::U8, gen::U128, gen::STR, s8, id, empty, pair, gen::UNIT, gen::BOOL];
        let mut tuples = vec![];
        for x in kinds {
            for y in kinds {
                tuples.push(b.add(mk(&[], tup(&[x, y]), &[])));
            }
        }
        let w = World::of(b.finish(), 18);
        let hashers = vec![HASHERS[c as usize / 7].clone(), HASHERS[c as usize % 7].clone()];
        for t in tuples {
            let e = entry(StorageEntryType::Map { hashers: hashers.clone(), key: sym(t), value: sym(gen::U32) }, vec![]);
            if let Some(m) = make(&w, &e, r) {
                sound(&w, &e, &m, st, c);
                for _ in 0..4 {
                    let (e, k, v, how) = spoil(&e, &m, r, &w);
                    compare(&w, &e, &k, &v, how, st, c, false);
                }
            }
        }
    });
}

/// C22 on storage.
pub fn error_stages(run: &Runner) {
    run.stage("storage", run.cfg.n(12_000), |r, c, st| {
        let s = storage_world(r);
        for _ in 0..3 {
            let Some(m) = make(&s.w, &s.e, r) else { continue };
            for _ in 0..6 {
                let (e, k, v, how) = spoil(&s.e, &m, r, &s.w);
                compare(&s.w, &e, &k, &v, how, st, c, true);
            }
            if st.failed() {
                return;
            }
        }
    });
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C09",
        rule: "Generated entries with none to six hashers in any order over any key and value types, and all entries of the real metadata; keys with right hashes and values are made by an independent encoder and every part of the result compared; then hashes, key data, lengths, values, hashers and key types are spoiled, every bit and cut of some keys too, and acceptance and content compared with a reference. Non-trivial: every case; distinct by (key, value, entry).",
        level: "exploration",
        assumptions: &["the hash functions of sp-crypto-hashing are right"],
        min_distinct: 100_000,
        run: c09,
    }]
}
