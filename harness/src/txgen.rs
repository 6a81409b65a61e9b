//! Generation of metadata for transactions, of transactions and extrinsics.
use crate::common::*;
use crate::dict;
use crate::gen::{self, comp, cpt, enm, fld, mk, put_compact, tup, var, Builder};
use crate::mem::{sym, Meta};
use crate::model::{Model, ME};
use crate::model2::{role, Role};
use crate::rng::Rng;
use crate::val::V;
use primitive_types::H256;
use substrate_parser::additional_types::Era;
use substrate_parser::traits::{ExtrinsicTypeParams, SignedExtensionMetadata, SpecNameVersion};

pub struct TxWorld {
    pub w: World,
    pub meta: Meta,
    pub src: String,
    /// Calls are of a kind that may be very long.
    pub long: bool,
}

pub fn ext(identifier: &str, ty: u32, add: u32) -> SignedExtensionMetadata {
    SignedExtensionMetadata { identifier: identifier.into(), ty: sym(ty), additional_signed: sym(add) }
}

/// Single-field wrappers around a type that leave it recognisable as one item.
fn wrap(r: &mut Rng, b: &mut Builder, id: u32, compactable: bool, path: &str) -> u32 {
    let n = gen::field_name(r).filter(|n| !["nonce", "spec_version", "tx_version", "transaction_version", "spec_name"].contains(n));
    match r.below(5) {
        0 | 1 => id,
        2 if compactable => b.add(mk(&[], cpt(id), &[])),
        3 => b.add(mk(&["frame_system", "extensions", path], comp(vec![fld(n, id, Some("T::X"), &[])]), &gen::docs(r))),
        _ if compactable => {
            let c = b.add(mk(&[], cpt(id), &[]));
            b.add(mk(&["frame_system", "extensions", path], comp(vec![fld(n, c, None, &[])]), &[]))
        }
        _ => b.add(mk(&["frame_system", "extensions", path], comp(vec![fld(n, id, None, &gen::docs(r))]), &gen::docs(r))),
    }
}

pub fn tx_world(r: &mut Rng) -> TxWorld {
    tx_world_with(r, false)
}
/// With calls of pallet 222, variant 7, of one byte vector.
pub fn long_tx_world(r: &mut Rng) -> TxWorld {
    tx_world_with(r, true)
}
fn tx_world_with(r: &mut Rng, long: bool) -> TxWorld {
    let mut b = Builder::new();
    for _ in 0..r.range(1, 8) {
        b.add_random(r);
    }
    let h256 = b.add_special(r, 3);
    let era = b.add_special(r, 1);
    let empty = b.add(mk(&["frame_system", "Empty"], comp(vec![]), &[]));
    let unit = |r: &mut Rng, b: &mut Builder, name: &str| match r.below(3) {
        0 => gen::UNIT,
        1 => empty,
        _ => b.add(mk(&["frame_system", "extensions", name], comp(vec![]), &[])),
    };
    let uints = [gen::U8, gen::U16, gen::U32, gen::U64, gen::U128];
    let mut exts = vec![];
    let standard = ["CheckNonZeroSender", "CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "CheckWeight", "ChargeTransactionPayment"];
    for name in standard {
        // now and then something is missing
        if r.chance(1, if ["CheckSpecVersion", "CheckGenesis"].contains(&name) { 25 } else { 6 }) {
            continue;
        }
        let u = if r.chance(3, 4) { gen::U32 } else { r.pick(&uints) };
        let e = match name {
            "CheckSpecVersion" | "CheckTxVersion" => {
                let t = wrap(r, &mut b, u, true, name);
                let x = unit(r, &mut b, name);
                if r.chance(1, 12) {
                    ext(name, t, x)
                } else {
                    ext(name, x, t)
                }
            }
            "CheckGenesis" => {
                let t = wrap(r, &mut b, h256, false, "Hash");
                let x = unit(r, &mut b, name);
                ext(name, x, t)
            }
            "CheckMortality" => {
                let t = wrap(r, &mut b, era, false, name);
                let x = wrap(r, &mut b, h256, false, "Hash");
                ext(name, t, x)
            }
            "CheckNonce" => {
                let c = b.add(mk(&[], cpt(u), &[]));
                let t = b.add(mk(&["frame_system", "extensions", "check_nonce", "CheckNonce"], comp(vec![fld(None, c, Some("T::Nonce"), &[])]), &[]));
                ext(name, t, gen::UNIT)
            }
            "ChargeTransactionPayment" => {
                let u = r.pick(&[gen::U128, gen::U128, gen::U64]);
                let c = b.add(mk(&[], cpt(u), &[]));
                let t = if r.chance(1, 2) {
                    b.add(mk(&["pallet", name], comp(vec![fld(None, c, Some("BalanceOf<T>"), &[])]), &[]))
                } else {
                    let o = b.add(mk(&["Option"], enm(vec![var("None", 0, vec![], &[]), var("Some", 1, vec![fld(None, gen::U32, None, &[])], &[])]), &[]));
                    b.add(mk(&["pallet", "ChargeAssetTxPayment"], comp(vec![fld(Some("tip"), c, Some("BalanceOf<T>"), &[]), fld(Some("asset_id"), o, None, &[])]), &[]))
                };
                ext(if r.chance(1, 2) { name } else { "ChargeAssetTxPayment" }, t, gen::UNIT)
            }
            _ => {
                let x = unit(r, &mut b, name);
                ext(name, x, gen::UNIT)
            }
        };
        exts.push(e);
    }
    // others of any type, with known and unknown names
    for _ in 0..r.below(3) {
        let name = dict::word(r).unwrap_or(r.pick(&["Custom", "PrevalidateAttests", "CheckNonce", "CheckTxVersion", "ChargeTransactionPayment", "ChargeAssetTxPayment", "checkGenesis", "CheckSpecVersions"]));
        let lim = b.types.len() as u64;
        let pick = |r: &mut Rng| if r.chance(1, 2) { gen::UNIT } else { r.below(lim) as u32 };
        let (t, a) = (pick(r), pick(r));
        let k = r.idx(exts.len() + 1);
        exts.insert(k, ext(name, t, a));
    }
    if r.chance(1, 10) {
        // a block hash without an era, or an era without a block hash
        let e = if r.chance(1, 2) {
            let x = wrap(r, &mut b, h256, false, "Hash");
            if r.chance(1, 2) { ext("CheckMortality", gen::UNIT, x) } else { ext("CheckMortality", x, gen::UNIT) }
        } else {
            let t = wrap(r, &mut b, era, false, "CheckEra");
            ext(r.pick(&["CheckMortality", "CheckEra"]), t, gen::UNIT)
        };
        if r.chance(1, 2) {
            exts.retain(|x| x.identifier != "CheckMortality");
        }
        let k = r.idx(exts.len() + 1);
        exts.insert(k, e);
    }
    if r.chance(1, 15) && !exts.is_empty() {
        let k = r.idx(exts.len());
        exts[k].identifier = gen::near_name(r, &exts[k].identifier);
    }
    if r.chance(1, 8) && !exts.is_empty() {
        // something twice
        let e = r.pick(&exts);
        let k = r.idx(exts.len() + 1);
        exts.insert(k, e);
    }
    if r.chance(1, 3) {
        let (i, j) = (r.idx(exts.len().max(1)), r.idx(exts.len().max(1)));
        if !exts.is_empty() {
            exts.swap(i, j);
        }
    }
    let address_ty = b.any(r);
    let signature_ty = if r.chance(1, 2) { b.add_special(r, 16) } else { b.any(r) };
    let extra_ty = {
        let ids: Vec<u32> = exts.iter().map(|e| e.ty.id).collect();
        if r.chance(1, 2) {
            b.add(mk(&[], tup(&ids), &[]))
        } else {
            b.any(r)
        }
    };
    let call = if !long && r.chance(1, 15) { b.any(r) } else { call_type(r, &mut b, long) };
    let n = b.types.len();
    let w = World::of(b.finish(), 18);
    let fix = |id: u32| if w.h[id as usize] == u32::MAX { gen::U8 } else { id };
    let exts = exts.into_iter().map(|e| ext(&e.identifier, fix(e.ty.id), fix(e.additional_signed.id))).collect();
    let _ = n;
    let meta = Meta {
        reg: w.reg.clone(),
        spec: Ok(SpecNameVersion { printed_spec_version: "0".into(), spec_name: dict::word(r).unwrap_or(r.pick(&["westend", "polkadot", "", "x y"])).to_string() }),
        params: ExtrinsicTypeParams { address_ty: sym(fix(address_ty)), call_ty: sym(fix(call)), signature_ty: sym(fix(signature_ty)), extra_ty: sym(fix(extra_ty)) },
        version: dict::num(r, 0, 127).map_or(r.pick(&[4, 4, 5, 0, 1, 127]), |n| n as u8),
        exts,
    };
    TxWorld { w, meta, src: "generated".into(), long }
}

/// A well-formed type of calls.
pub fn call_type(r: &mut Rng, b: &mut Builder, long: bool) -> u32 {
    if !long && r.chance(1, 4) {
        return b.add_pallets(r);
    }
    let mut vs = vec![];
    for i in 0..r.range(1, 5) as usize {
        let nv = r.range(1, 6) as usize;
        let v = b.variants(r, nv, false);
        let d = gen::docs(r);
        let inner = b.add(mk(&["pallet_x", "pallet", "Call"], enm(v), &d));
        let name = dict::word(r).unwrap_or(r.pick(&["Balances", "Staking", "System", "Utility", "Proxy", "XcmPallet"]));
        let dd = gen::docs(r);
        vs.push(var(name, if r.chance(1, 4) { 250 - i as u8 } else { i as u8 }, vec![fld(None, inner, Some("CallableCallFor"), &dd)], &gen::docs(r)));
    }
    if long {
        let bytes = b.add(mk(&[], gen::seq(gen::U8), &[]));
        let inner = b.add(mk(&["pallet_blob", "pallet", "Call"], enm(vec![var("remark", 7, vec![fld(Some("blob"), bytes, Some("Vec<u8>"), &[])], &["Remark."])]), &[]));
        vs.push(var("Blob", 222, vec![fld(None, inner, None, &[])], &[]));
    }
    let d = gen::docs(r);
    let n = r.pick(&["Call", "RuntimeCall"]);
    b.add(mk(&["runtime", n], enm(vs), &d))
}

pub fn real_tx_world(r: &mut Rng) -> Option<TxWorld> {
    let ws = real_worlds();
    if ws.is_empty() {
        return None;
    }
    let k = r.idx(ws.len());
    let (name, w, m) = &ws[k];
    Some(TxWorld { w: w.same(), meta: real_metas()[k].clone(), src: format!("{name} {}", matches!(m, crate::real::RealMeta::V15(_))), long: false })
}
pub fn real_metas() -> &'static Vec<Meta> {
    static M: std::sync::OnceLock<Vec<Meta>> = std::sync::OnceLock::new();
    M.get_or_init(|| real_worlds().iter().map(|w| w.2.meta()).collect())
}

pub fn any_tx_world(r: &mut Rng, real: u64) -> TxWorld {
    if r.chance(real, 100) {
        if let Some(t) = real_tx_world(r) {
            return t;
        }
    }
    tx_world(r)
}

#[derive(Clone)]
pub struct Tx {
    pub meta: Meta,
    /// Expected genesis hash.
    pub genesis: Option<H256>,
    pub call: Vec<u8>,
    pub call_valid: bool,
    /// Explicit parts, then additional signed ones.
    pub parts: Vec<Vec<u8>>,
}
impl Tx {
    pub fn ext(&self) -> Vec<u8> {
        self.parts.concat()
    }
    pub fn marked(&self) -> Vec<u8> {
        let mut o = vec![];
        put_compact(&mut o, self.call.len() as u128);
        o.extend(&self.call);
        o.extend(self.ext());
        o
    }
    pub fn unmarked(&self) -> Vec<u8> {
        let mut o = self.call.clone();
        o.extend(self.ext());
        o
    }
}

pub fn gen_call(t: &TxWorld, r: &mut Rng) -> Option<(Vec<u8>, bool)> {
    let id = t.meta.params.call_ty.id;
    if t.long && r.chance(9, 10) {
        // calls and what contains them on both sides of the boundaries of compact modes
        let n = match r.below(8) {
            0 => r.range(16_300, 16_500),
            1 => r.range(65_400, 65_700),
            2 => r.range(10_000, 100_000),
            3 => r.range(0, 70),
            _ => r.range(16_375, 16_392),
        } as usize;
        let mut o = vec![222, 7];
        put_compact(&mut o, n as u128);
        if r.chance(1, 2) {
            o.extend(r.bytes(n))
        } else {
            o.resize(o.len() + n, r.clone().byte())
        }
        return Some((o, true));
    }
    for _ in 0..4 {
        let x = t.w.value(r, id)?;
        if matches!(x.v, V::Pallet("Call", ..)) {
            return Some((x.bytes, true));
        }
    }
    Some((t.w.value(r, id)?.bytes, false))
}

/// A transaction fulfilling the rules if the metadata allows that.
pub fn gen_tx(t: &TxWorld, r: &mut Rng) -> Option<Tx> {
    let (call, call_valid) = gen_call(t, r)?;
    let mut meta = t.meta.clone();
    let mut parts = vec![];
    let mut roles = vec![];
    for signed in [false, true] {
        for e in meta.exts.iter() {
            let id = if signed { e.additional_signed.id } else { e.ty.id };
            let x = t.w.value(r, id)?;
            let role = match Model::new(&meta.reg, &x.bytes).ext(id, &e.identifier, &mut 0) {
                Ok(d) => role(&d),
                Err(ME::P(_)) => Role::None,
                Err(ME::Skip) => return None,
            };
            parts.push(x.bytes);
            roles.push(role);
        }
    }
    // make it immortal now and then; a single zero byte
    for (p, x) in parts.iter_mut().zip(roles.iter_mut()) {
        if let Role::Era(Era::Mortal(..)) = x {
            if p.len() == 2 && r.chance(1, 2) {
                *p = vec![0];
                *x = Role::Era(Era::Immortal);
            }
        }
    }
    let mut genesis = None;
    for x in roles.iter() {
        match x {
            Role::Genesis(h) => genesis = Some(*h),
            Role::Spec(s) => {
                if let Ok(sp) = meta.spec.as_mut() {
                    sp.printed_spec_version = s.clone()
                }
            }
            _ => {}
        }
    }
    let immortal = roles.iter().any(|x| matches!(x, Role::Era(Era::Immortal)));
    if let (true, Some(g)) = (immortal, genesis) {
        for (p, x) in parts.iter_mut().zip(roles.iter()) {
            if let Role::Block(h) = x {
                if let Some(i) = p.windows(32).position(|w| w == h.0) {
                    p[i..i + 32].copy_from_slice(&g.0);
                }
            }
        }
    }
    let genesis = if r.chance(1, 3) { None } else { genesis };
    Some(Tx { meta, genesis, call, call_valid, parts })
}

/// Break one of the conditions on extensions, or the extensions data.
pub fn spoil_ext(t: &TxWorld, x: &Tx, r: &mut Rng) -> (Tx, &'static str) {
    let mut y = x.clone();
    match r.below(9) {
        0 => {
            if let Ok(s) = y.meta.spec.as_mut() {
                let v = s.printed_spec_version.clone();
                s.printed_spec_version = match r.below(7) {
                    0 => format!("0{v}"),
                    1 => format!("{v}0"),
                    2 => format!("{v} "),
                    3 => v.parse::<u128>().map(|n| n.wrapping_add(1).to_string()).unwrap_or("x".into()),
                    4 => v.parse::<u128>().map(|n| (n ^ 1 << r.below(128)).to_string()).unwrap_or("y".into()),
                    5 => v.parse::<u128>().map(|n| format!("{n:x}")).unwrap_or("z".into()),
                    _ => String::new(),
                };
            }
            (y, "other spec version")
        }
        1 => {
            let mut g = y.genesis.unwrap_or(H256([7; 32]));
            let k = r.idx(32);
            g.0[k] ^= 1 << r.below(8);
            y.genesis = Some(g);
            (y, "other genesis hash")
        }
        2 | 3 => {
            // one byte of a hash or number
            let e = y.ext();
            if !e.is_empty() {
                let mut k = if r.chance(1, 2) { r.idx(e.len()) } else { e.len() - 1 - r.idx(e.len().min(70)) };
                for p in y.parts.iter_mut() {
                    if k < p.len() {
                        p[k] ^= 1 << r.below(8);
                        break;
                    }
                    k -= p.len();
                }
            }
            (y, "bit of the extensions flipped")
        }
        4 => {
            // truncated
            let e = y.ext();
            let k = if e.is_empty() { 0 } else { e.len() - 1 - r.idx(e.len().min(40)) };
            y.parts = vec![e[..k].to_vec()];
            (y, "extensions cut")
        }
        5 => {
            let n = r.range(1, 3) as usize;
            y.parts.push(r.bytes(n));
            (y, "extensions extended")
        }
        6 => {
            if r.chance(1, 2) && !y.meta.exts.is_empty() {
                // the description loses one, the data with it
                let n = y.meta.exts.len();
                let k = r.idx(n);
                y.meta.exts.remove(k);
                if y.parts.len() == 2 * n {
                    y.parts.remove(n + k);
                    y.parts.remove(k);
                }
                (y, "extension missing")
            } else {
                let n = y.meta.exts.len();
                if n > 0 && y.parts.len() == 2 * n {
                    let k = r.idx(n);
                    let e = y.meta.exts[k].clone();
                    let at = r.idx(n + 1);
                    y.meta.exts.insert(at, e);
                    let (p, q) = (y.parts[k].clone(), y.parts[n + k].clone());
                    y.parts.insert(n + at, q);
                    y.parts.insert(at, p);
                }
                (y, "extension twice")
            }
        }
        7 => {
            if y.meta.exts.len() > 1 {
                // the description in another order
                let n = y.meta.exts.len();
                let (i, j) = (r.idx(n), r.idx(n));
                y.meta.exts.swap(i, j);
            }
            (y, "description in another order")
        }
        _ => {
            // one extension of the description with an invalid leaf
            let n = y.meta.exts.len();
            if n > 0 && y.parts.len() == 2 * n {
                let k = r.idx(2 * n);
                let e = &y.meta.exts[k % n];
                let id = if k < n { e.ty.id } else { e.additional_signed.id };
                if let Some(p) = t.w.poisoned(r, id) {
                    y.parts[k] = p.bytes;
                }
            }
            (y, "invalid leaf in extensions")
        }
    }
}

/// Another call instead of a valid one.
pub fn spoil_call(t: &TxWorld, x: &Tx, r: &mut Rng) -> (Tx, &'static str) {
    let mut y = x.clone();
    y.call_valid = false;
    let how = match r.below(7) {
        6 => {
            broken_call(&mut y, r);
            "call of a broken type"
        }
        0 => {
            let k = r.idx(y.call.len().max(1));
            y.call.truncate(k);
            "call cut"
        }
        1 => {
            let n = r.range(1, 4) as usize;
            let e = r.bytes(n);
            y.call.extend(e);
            "call extended"
        }
        2 => {
            if let Some(p) = t.w.poisoned(r, t.meta.params.call_ty.id) {
                y.call = p.bytes;
            }
            "invalid leaf in call"
        }
        3 => {
            let n = r.idx(30);
            y.call = r.bytes(n);
            "random call"
        }
        4 => {
            y.call = vec![];
            "empty call"
        }
        _ => {
            let (b, _) = mutate(r, &y.call);
            y.call = b;
            "call mutated"
        }
    };
    (y, how)
}

/// Describe one more call, wrongly, and make it the call of the transaction.
fn broken_call(y: &mut Tx, r: &mut Rng) {
    let id = y.meta.params.call_ty.id as usize;
    let mut reg = (*y.meta.reg).clone();
    if id >= reg.types.len() {
        return;
    }
    let path = reg.types[id].ty.path.segments.last().cloned().unwrap_or("Call".into());
    let mut add = |t: scale_info::Type<scale_info::form::PortableForm>| {
        let k = reg.types.len() as u32;
        reg.types.push(scale_info::PortableType { id: k, ty: t });
        k
    };
    let me = 999_999;
    let bad = match r.below(7) {
        0 => me,
        1 => {
            let k = add(mk(&[], comp(vec![]), &[]));
            let l = add(mk(&[], comp(vec![fld(None, k, None, &[])]), &[]));
            reg.types[k as usize].ty = mk(&["Ring"], comp(vec![fld(None, l, None, &[])]), &[]);
            k
        }
        2 => add(mk(&[], cpt(gen::STR), &[])),
        3 => add(mk(&[], gen::bitseq(gen::STR, gen::LSB), &[])),
        4 => add(mk(&[], gen::bitseq(gen::U8, gen::STR), &[])),
        5 => add(mk(&[], gen::arr(me, 3), &[])),
        _ => add(mk(&["Holder"], comp(vec![fld(Some("a"), gen::U8, None, &[]), fld(Some("b"), me, None, &[])]), &[])),
    };
    let inner = r.below(4);
    let ty = match inner {
        0 => bad,
        _ => {
            let mut f = vec![fld(Some("x"), bad, None, &[])];
            if r.chance(1, 2) {
                f.insert(0, fld(Some("w"), gen::U8, None, &[]));
            }
            let k = reg.types.len() as u32;
            let t = mk(&["pallet_broken", "pallet", if inner == 1 { "Call" } else { &path }], enm(vec![var("broken", 3, f, &[])]), &[]);
            reg.types.push(scale_info::PortableType { id: k, ty: t });
            k
        }
    };
    let scale_info::TypeDef::Variant(v) = &mut reg.types[id].ty.type_def else { return };
    let Some(n) = (0..=255u8).find(|n| v.variants.iter().all(|x| x.index != *n)) else { return };
    v.variants.push(var("Broken", n, vec![fld(None, ty, None, &[])], &[]));
    y.call = vec![n, 3];
    let k = r.idx(9);
    y.call.extend(r.bytes(k));
    y.meta.reg = std::sync::Arc::new(reg);
}
