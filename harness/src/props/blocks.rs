//! C26: the public stages of decoding, called on their own.
use crate::common::*;
use crate::gen;
use crate::mem::{sym, ExtMeta, ExtReg, Fault, LogBuf, Mem, Meta, Reg};
use crate::model2 as m2;
use crate::model::{info_of, special, tag_of_ext, tag_of_field, tag_of_path, Model, Sp, St, Tag, ME};
use crate::rng::Rng;
use crate::run::{guarded, hash_bytes, mix, Local, Pan, Runner, Spec};
use scale_info::TypeDef;
use substrate_parser::cards::{Documented, Info};
use substrate_parser::decoding_sci::{
    decode_type_def_primitive, decode_with_type, find_bit_order_ty, husk_type, pick_variant, BitVecPositions, FoundBitOrder, ResolvedTy, Ty,
};
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError as RI};
use substrate_parser::propagated::{Checker, Propagated, SpecialtySet};
use substrate_parser::special_indicators::{
    Hint, PalletSpecificItem, SignatureIndicator, SpecialtyH256, SpecialtyStr, SpecialtyTypeChecked, SpecialtyTypeHinted, SpecialtyUnsignedInteger as U,
};
use substrate_parser::traits::{ResolveType, SignedExtensionMetadata};

const HINTS: [(Hint, Tag); 13] = [
    (Hint::None, Tag::None),
    (Hint::CheckSpecVersion, Tag::Num(U::SpecVersion)),
    (Hint::CheckTxVersion, Tag::Num(U::TxVersion)),
    (Hint::CheckGenesis, Tag::Genesis),
    (Hint::CheckMortality, Tag::Block),
    (Hint::CheckNonce, Tag::Num(U::Nonce)),
    (Hint::ChargeAssetTxPayment, Tag::Num(U::TipAsset)),
    (Hint::ChargeTransactionPayment, Tag::Num(U::Tip)),
    (Hint::FieldBalance, Tag::Num(U::Balance)),
    (Hint::FieldNonce, Tag::Num(U::Nonce)),
    (Hint::FieldSpecName, Tag::SpecName),
    (Hint::FieldSpecVersion, Tag::Num(U::SpecVersion)),
    (Hint::FieldTxVersion, Tag::Num(U::TxVersion)),
];

/// What a hint makes of numbers, texts and hashes.
fn effect(h: &Hint) -> String {
    format!("{:?} {:?} {:?}", h.unsigned_integer(), h.string(), h.hash256())
}
fn effect_due(t: Tag) -> String {
    let n = if let Tag::Num(u) = t { u } else { U::None };
    let s = if t == Tag::SpecName { SpecialtyStr::SpecName } else { SpecialtyStr::None };
    let h = match t {
        Tag::Genesis => SpecialtyH256::GenesisHash,
        Tag::Block => SpecialtyH256::BlockHash,
        _ => SpecialtyH256::None,
    };
    format!("{n:?} {s:?} {h:?}")
}

/// Runs the code; a panic is a violation.
fn run<T>(st: &mut Local, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match guarded(f) {
        Ok(x) => Some(x),
        Err(Pan::Code(e)) => {
            st.fail(format!("{what}: {e}"));
            None
        }
        Err(Pan::Budget(n)) => {
            st.fail(format!("{what}: more than {n} steps"));
            None
        }
        Err(Pan::Harness(e)) => panic!("{e}"),
    }
}

fn state(r: &mut Rng, n: usize) -> (SpecialtySet, Tag, Vec<u32>) {
    let (hint, tag) = r.pick(&HINTS);
    let compact_at = if r.chance(1, 4) { Some(r.below(n as u64 + 2) as u32) } else { None };
    let seen: Vec<u32> = (0..r.pick(&[0u64, 0, 0, 1, 3])).map(|_| r.below(n as u64 + 2) as u32).collect();
    (SpecialtySet { compact_at, hint }, tag, seen)
}

/// Decoding with a state inherited from above.
fn inherited(w: &World, id: u32, data: &[u8], pos: usize, r: &mut Rng, st: &mut Local, case: u64) {
    let n = w.reg.types.len();
    let (specialty_set, tag, seen) = state(r, n);
    let mut info = vec![];
    for _ in 0..r.pick(&[0, 0, 1, 2]) {
        let i = Info::from_ty(&w.reg.types[r.idx(n)].ty);
        if !i.is_empty() {
            info.push(i)
        }
    }
    let due = St { compact_at: specialty_set.compact_at, tag, seen: seen.clone() };
    let by_id = r.chance(1, 2);
    let Some(mut ty) = w.reg.types.get(id as usize).map(|t| t.ty.clone()) else { return };
    let mut given = id;
    if !by_id && r.chance(1, 2) {
        // a type that is not the one stored, or not stored at all
        given = r.below(n as u64 + 3) as u32;
        if r.chance(1, 2) {
            ty.docs.push("given".into());
        }
        st.class("type not from the registry");
    }
    let mut m = Model::new(&w.reg, data);
    m.max_steps = 20_000;
    m.max_depth = 600;
    let mut end = pos;
    let want = m.node(&ty, given, &mut end, due, info.clone(), 0);
    if let Err(ME::Skip) = want {
        st.skip();
        return;
    }
    let reg = Reg(w.reg.clone());
    let symbol = sym(id);
    let input = if by_id { Ty::Symbol(&symbol) } else { Ty::Resolved(ResolvedTy { ty: ty.clone(), id: given }) };
    let say = || format!("type {id}: {} given {specialty_set:?} after {seen:?}, at {pos} of {}", show_ty(&w.reg, id), hexs(data));
    let mut at = pos;
    let p = Propagated { checker: Checker { specialty_set, cycle_check: seen.clone() }, info };
    let Some(got) = run(st, &say(), || decode_with_type::<&[u8], (), Meta>(&input, &data, &mut (), &mut at, &reg, p)) else { return };
    match (&want, &got) {
        (Ok(x), Ok(y)) => {
            if x != y {
                st.fail(format!("gives {}, should {}; {}", cut(format!("{y:?}"), 400), cut(format!("{x:?}"), 400), say()));
            }
            if at != end {
                st.fail(format!("ends at {at}, should at {end}; {}", say()));
            }
            st.class(if tag == Tag::None { "decoded" } else { "decoded with a meaning" });
        }
        (Err(ME::P(x)), Err(y)) if x == y => st.class("refused"),
        (x, y) => st.fail(format!("gives {}, should {}; {}", cut(format!("{y:?}"), 400), cut(format!("{x:?}"), 400), say())),
    }
    st.eval(mix(super::types::key(id, data, case), mix(pos as u64, hash_bytes(format!("{specialty_set:?}{seen:?}").as_bytes()))));
    st.sample(|| format!("{} => {}", say(), cut(format!("{got:?}"), 200)));
}

/// Stages below: each against the rule it has inside the whole.
fn parts(w: &World, id: u32, data: &[u8], pos: usize, r: &mut Rng, st: &mut Local, case: u64) {
    let reg = Reg(w.reg.clone());
    let say = |what: &str| format!("{what}; type {id}: {}, at {pos} of {}", show_ty(&w.reg, id), hexs(data));
    let Some(ty) = w.reg.types.get(id as usize).map(|t| &t.ty) else {
        // lookup
        if ResolveType::<()>::resolve_ty(&*w.reg, id, &mut ()) != Err(RegistryError::Internal(RI::TypeNotResolved { id })) {
            st.fail(say("a type that is not there is found"));
        }
        return;
    };
    st.eval(mix(super::types::key(id, data, case), pos as u64 | 1 << 40));
    if ResolveType::<()>::resolve_ty(&*w.reg, id, &mut ()).as_ref() != Ok(ty) {
        st.fail(say("lookup gives another type"));
    }
    let m = Model::new(&w.reg, data);
    // documentation
    let i = Info::from_ty(ty);
    let due = info_of(ty);
    let empty = due.docs.is_empty() && due.path.segments.is_empty();
    let flat = i.flatten();
    let flat_due = ((!due.docs.is_empty()).then(|| due.docs.clone()), (!due.path.segments.is_empty()).then(|| due.path.segments.join(" >> ")));
    if i != due || i.is_empty() != empty || ty.collect_docs() != due.docs || (flat.docs, flat.path_flat) != flat_due {
        st.fail(say(&format!("documentation {i:?}")));
    }
    let before: Vec<Info> = (0..r.below(3)).map(|k| Info { docs: format!("{k}"), path: Default::default() }).collect();
    let mut p = Propagated::default();
    p.add_info_slice(&before);
    p.add_info(&i);
    let mut all = before;
    if !empty {
        all.push(due)
    }
    if p.info != all {
        st.fail(say(&format!("collected documentation {:?}", p.info)));
    }
    // special names
    let (sp, hinted) = (special(ty), SpecialtyTypeHinted::from_type(ty));
    use SpecialtyTypeHinted as H;
    let same = matches!(
        (sp, &hinted),
        (Sp::None, H::None)
            | (Sp::Id, H::AccountId32)
            | (Sp::Call, H::PalletSpecific(PalletSpecificItem::Call))
            | (Sp::Event, H::PalletSpecific(PalletSpecificItem::Event))
            | (Sp::Era, H::Era)
            | (Sp::H160, H::H160)
            | (Sp::H256, H::H256)
            | (Sp::H512, H::H512)
            | (Sp::MultiSig, H::MultiSignature)
            | (Sp::PerU16, H::PerU16)
            | (Sp::Percent, H::Percent)
            | (Sp::Permill, H::Permill)
            | (Sp::Perbill, H::Perbill)
            | (Sp::Perquintill, H::Perquintill)
            | (Sp::PubEd, H::PublicEd25519)
            | (Sp::PubSr, H::PublicSr25519)
            | (Sp::PubEc, H::PublicEcdsa)
            | (Sp::SigEd, H::SignatureEd25519)
            | (Sp::SigSr, H::SignatureSr25519)
            | (Sp::SigEc, H::SignatureEcdsa)
            | (Sp::Unchecked, H::UncheckedExtrinsic)
    );
    if !same {
        st.fail(say(&format!("taken for {sp:?} by its path {:?}", ty.path.segments)));
    }
    if sp != Sp::None {
        st.class("special by name");
    }
    // special names confirmed
    let mut at = pos;
    let Some(checked) = run(st, &say("recognition"), || SpecialtyTypeChecked::from_type::<&[u8], (), Meta>(ty, &data, &mut (), &mut at, &reg)) else { return };
    use SpecialtyTypeChecked as C;
    let (due, moved) = match sp {
        Sp::Unchecked => (Sp::None, 0),
        Sp::Call | Sp::Event => match m.pallet_variant(ty, sp, pos) {
            Some(_) => (sp, 1),
            None => (Sp::None, 0),
        },
        Sp::MultiSig => match m.signature_variant(ty, pos) {
            Some(s) => (s, 1),
            None => (Sp::None, 0),
        },
        s => (s, 0),
    };
    let ok = match (&checked, due) {
        (C::None, Sp::None)
        | (C::AccountId32, Sp::Id)
        | (C::Era, Sp::Era)
        | (C::H160, Sp::H160)
        | (C::H256, Sp::H256)
        | (C::H512, Sp::H512)
        | (C::PerU16, Sp::PerU16)
        | (C::Percent, Sp::Percent)
        | (C::Permill, Sp::Permill)
        | (C::Perbill, Sp::Perbill)
        | (C::Perquintill, Sp::Perquintill)
        | (C::PublicEd25519, Sp::PubEd)
        | (C::PublicSr25519, Sp::PubSr)
        | (C::PublicEcdsa, Sp::PubEc)
        | (C::SignatureEd25519, Sp::SigEd)
        | (C::SignatureSr25519, Sp::SigSr)
        | (C::SignatureEcdsa, Sp::SigEc) => true,
        (C::PalletSpecific { pallet_name, pallet_info, pallet_variant, item_ty_id, variants, item }, Sp::Call | Sp::Event) => {
            let (name, inner) = m.pallet_variant(ty, sp, pos).unwrap();
            let TypeDef::Variant(v) = &inner.type_def else { unreachable!() };
            let TypeDef::Variant(outer) = &ty.type_def else { unreachable!() };
            let picked = m.pick(&outer.variants, pos).unwrap();
            st.class("pallet item");
            *pallet_name == name
                && *pallet_info == info_of(inner)
                && pallet_variant == picked
                && *item_ty_id == picked.fields[0].ty.id
                && *variants == v.variants
                && (*item == PalletSpecificItem::Call) == (sp == Sp::Call)
        }
        _ => false,
    };
    if !ok || at != pos + moved {
        st.fail(say(&format!("recognised otherwise than as {due:?}, position moved by {}", at.wrapping_sub(pos))));
    }
    // wrappers peeled
    let (specialty_set, _, seen) = state(r, w.reg.types.len());
    let want = m.husk(id, seen.clone());
    let got = run(st, &say("peeling"), || husk_type::<(), Meta>(&sym(id), &reg, &mut (), Checker { specialty_set, cycle_check: seen.clone() }));
    match (want, got) {
        (_, None) => return,
        (Ok((t, k, s, i)), Some(Ok(h))) => {
            if h.ty != *t || h.id != k || h.info != i || h.checker.specialty_set.compact_at != s.compact_at || effect(&h.checker.specialty_set.hint) != effect_due(s.tag) {
                st.fail(say(&format!("wrappers peeled to type {} {:?} with {:?}, should {k} {i:?} with {s:?}", h.id, h.info, h.checker.specialty_set)));
            }
            st.class(if k == id { "nothing to peel" } else { "peeled" });
        }
        (Err(ME::P(ParserError::Registry(x))), Some(Err(y))) if x == y => st.class("peeling refused"),
        (x, y) => st.fail(say(&format!("peeling gives {:?}, should {:?}", y.map(|y| y.map(|h| h.id)), x.map(|x| x.1)))),
    }
    let fields: Vec<&gen::F> = match &ty.type_def {
        TypeDef::Composite(c) => c.fields.iter().collect(),
        TypeDef::Variant(v) => {
            // the variant
            let got = run(st, &say("variant"), || pick_variant::<&[u8], ()>(&v.variants, &data, &mut (), pos).map(|v| v.clone()));
            let want = match data.get(pos) {
                Some(_) => m.pick(&v.variants, pos).cloned().ok_or(ParserError::UnexpectedEnumVariant { position: pos }),
                None => Err(ParserError::Buffer(external_memory_tools::BufferError::DataTooShort { position: pos, minimal_length: 1 })),
            };
            match (got, want) {
                (Some(Ok(a)), Ok(b)) if a == b => st.class("variant selected"),
                (Some(Err(a)), Err(b)) if a == b || pos >= data.len() && matches!(a, ParserError::Buffer(_)) => st.class("no variant"),
                (None, _) => return,
                (a, b) => st.fail(say(&format!("variant {a:?}, should be {b:?}"))),
            }
            v.variants.iter().flat_map(|v| v.fields.iter()).collect()
        }
        TypeDef::BitSequence(b) => {
            let order = w.reg.types.get(b.bit_order_type.id as usize).map(|t| &t.ty);
            let want = match order {
                None => Err(RegistryError::Internal(RI::TypeNotResolved { id: b.bit_order_type.id })),
                Some(t) => match (&t.type_def, t.path.segments.last().map(|s| s.as_str())) {
                    (TypeDef::Composite(_), Some("Lsb0")) => Ok(true),
                    (TypeDef::Composite(_), Some("Msb0")) => Ok(false),
                    _ => Err(RegistryError::Internal(RI::NotBitOrderType { id })),
                },
            };
            let got = find_bit_order_ty::<(), Meta>(b, id, &mut (), &reg).map(|o| matches!(o, FoundBitOrder::Lsb0));
            if got != want {
                st.fail(say(&format!("bit order {got:?}, should be {want:?}")));
            }
            st.class("bit order");
            vec![]
        }
        TypeDef::Primitive(p) => {
            let (specialty_set, tag, _) = state(r, w.reg.types.len());
            let mut m = Model::new(&w.reg, data);
            let mut end = pos;
            let bare = gen::mk(&[], p.clone(), &[]);
            // as a type of its own
            let k = w.reg.types.iter().position(|t| t.ty == bare);
            if let Some(k) = k {
                let want = m.sym(k as u32, &mut end, St { compact_at: specialty_set.compact_at, tag, seen: vec![] }, vec![], 0).map(|x| x.data);
                let mut at = pos;
                let got = run(st, &say("primitive"), || decode_type_def_primitive::<&[u8], ()>(p, &data, &mut (), &mut at, specialty_set));
                match (want, got) {
                    (_, None) => return,
                    (Ok(x), Some(Ok(y))) if x == y && at == end => st.class("primitive"),
                    (Err(ME::P(x)), Some(Err(y))) if x == y => st.class("primitive refused"),
                    (x, y) => st.fail(say(&format!("primitive {p:?} with {specialty_set:?} gives {y:?} up to {at}, should {x:?} up to {end}"))),
                }
            }
            vec![]
        }
        _ => vec![],
    };
    // what fields say
    for f in fields {
        if effect(&Hint::from_field(f)) != effect_due(tag_of_field(f)) {
            st.fail(say(&format!("meaning {} of field {:?} of type {:?}", effect(&Hint::from_field(f)), f.name, f.type_name)));
        }
        let husk = m.husk(f.ty.id, vec![]);
        let due = match (f.type_name.as_deref(), husk.ok().map(|h| &h.0.type_def)) {
            (Some(n), Some(TypeDef::Array(a))) => {
                let bytes = matches!(w.reg.types.get(a.type_param.id as usize).map(|t| &t.ty.type_def), Some(TypeDef::Primitive(scale_info::TypeDefPrimitive::U8)));
                match (n, a.len, bytes) {
                    ("ecdsa::Signature", 65, true) => SignatureIndicator::Ecdsa,
                    ("ed25519::Signature", 64, true) => SignatureIndicator::Ed25519,
                    ("sr25519::Signature", 64, true) => SignatureIndicator::Sr25519,
                    _ => SignatureIndicator::None,
                }
            }
            _ => SignatureIndicator::None,
        };
        let got = run(st, &say("signature"), || SignatureIndicator::from_field::<(), Meta>(f, &mut (), &reg));
        let Some(got) = got else { return };
        if std::mem::discriminant(&got) != std::mem::discriminant(&due) {
            st.fail(say(&format!("field {:?} of type {:?} is taken for another signature", f.name, f.type_name)));
        }
        if !matches!(due, SignatureIndicator::None) {
            st.class("signature");
        }
    }
    // what the state does
    let (specialty_set, tag, seen) = state(r, w.reg.types.len());
    let mut p = Propagated::with_checker(Checker { specialty_set, cycle_check: seen.clone() });
    let refused = p.reject_compact();
    let due = specialty_set.compact_at.map_or(Ok(()), |id| Err(RI::UnexpectedCompactInsides { id }));
    if refused != due || p.compact_at() != specialty_set.compact_at || p.checker.reject_compact() != due {
        st.fail(say(&format!("compact state {specialty_set:?}: {refused:?}")));
    }
    let next = Propagated::for_ty(&p.checker, ty, id);
    let cyc = seen.contains(&id);
    match next {
        Ok(n) if !cyc => {
            let t = if tag == Tag::None { tag_of_path(ty) } else { tag };
            if effect(&n.checker.specialty_set.hint) != effect_due(t) || n.compact_at() != specialty_set.compact_at || !n.info.is_empty() || n.checker.clone().check_id(id).is_ok() {
                st.fail(say(&format!("state {:?} for the type after {specialty_set:?}", n.checker)));
            }
        }
        Err(RI::CyclicMetadata { id: k }) if cyc && k == id => st.class("cycle"),
        x => st.fail(say(&format!("{x:?} for the type after {seen:?}"))),
    }
    p.forget_hint();
    let t = if tag == Tag::Num(U::TipAsset) { tag } else { Tag::None };
    if effect(&p.checker.specialty_set.hint) != effect_due(t) {
        st.fail(say(&format!("meaning {:?} after {specialty_set:?} is forgotten", p.checker.specialty_set)));
    }
    if let Some(k) = seen.first() {
        let mut c = p.checker.clone();
        let a = c.check_id(*k);
        c.drop_cycle_check();
        if a != Err(RI::CyclicMetadata { id: *k }) || c.check_id(*k).is_err() {
            st.fail(say(&format!("passed types {seen:?}: {a:?}")));
        }
    }
}

/// What extensions say.
fn extension(r: &mut Rng, w: &World, id: u32, data: &[u8], st: &mut Local, case: u64) {
    let name = match r.below(3) {
        0 => r.pick(&["CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"]).to_string(),
        1 => {
            let n = r.pick(&["CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"]);
            gen::near_name(r, n)
        }
        _ => r.text(),
    };
    let e = SignedExtensionMetadata { identifier: name.clone(), ty: sym(id), additional_signed: sym(0) };
    let p = Propagated::from_ext_meta(&e);
    if effect(&Hint::from_ext_meta(&e)) != effect_due(tag_of_ext(&name)) || effect(&p.checker.specialty_set.hint) != effect_due(tag_of_ext(&name)) {
        st.fail(format!("meaning {} of extension {name:?}", effect(&Hint::from_ext_meta(&e))));
    }
    let mut end = 0;
    let mut m = Model::new(&w.reg, data);
    m.max_steps = 20_000;
    m.max_depth = 600;
    let want = m.ext(id, &name, &mut end);
    if let Err(ME::Skip) = want {
        st.skip();
        return;
    }
    let mut at = 0;
    let say = || format!("extension {name:?} of type {id}: {} from {}", show_ty(&w.reg, id), hexs(data));
    let got = run(st, &say(), || decode_with_type::<&[u8], (), Meta>(&Ty::Symbol(&sym(id)), &data, &mut (), &mut at, &Reg(w.reg.clone()), p));
    match (want, got) {
        (_, None) => {}
        (Ok(x), Some(Ok(y))) if x == y && at == end => st.class("extension decoded"),
        (Err(ME::P(x)), Some(Err(y))) if x == y => st.class("extension refused"),
        (x, y) => st.fail(format!("gives {y:?}, should {x:?}; {}", say())),
    }
    st.eval(mix(super::types::key(id, data, case), hash_bytes(name.as_bytes())));
}

/// Where a bit sequence ends.
fn bit_ends(r: &mut Rng, st: &mut Local, case: u64) {
    let n = match r.below(5) {
        0 => r.below(300) as u32,
        1 => r.uint(32) as u32,
        2 => u32::MAX - r.below(70) as u32,
        _ => (1u32 << r.below(32)).wrapping_add(r.below(70) as u32).wrapping_sub(35),
    };
    let before = r.idx(5);
    let mut data = r.bytes(before);
    gen::put_compact(&mut data, n as u128);
    let start = data.len();
    if r.chance(1, 10) {
        data.pop();
    }
    macro_rules! one {
        ($t:ty) => {{
            let Some(got) = run(st, &format!("end of {n} bits"), || BitVecPositions::new::<$t, &[u8], ()>(&&data[..], &mut (), before)) else { return };
            let due = start as u64 + (n as u64).div_ceil(8 * std::mem::size_of::<$t>() as u64) * std::mem::size_of::<$t>() as u64;
            match got {
                Ok(p) if data.len() == start && p.bitvec_end as u64 == due => {}
                Err(ParserError::NoCompact { position }) if data.len() < start && position == before => {}
                x => st.fail(format!("{n} bits in elements of {} bytes at {before} of {}: {x:?}, should end at {due}", std::mem::size_of::<$t>(), hexs(&data))),
            }
        }};
    }
    one!(u8);
    one!(u16);
    one!(u32);
    one!(u64);
    st.class("bit positions");
    st.eval(mix(n as u64, mix(before as u64, case)));
}

/// Recognition with faulty storage gives nothing, and nothing else happens.
fn faults(w: &World, id: u32, data: &[u8], st: &mut Local, case: u64) {
    let Some(ty) = w.reg.types.get(id as usize).map(|t| &t.ty) else { return };
    let reg = ExtReg(w.reg.clone());
    let buf = LogBuf::new(data, 0);
    let mut m = Mem::with_budget(200_000);
    let Some(sound) = run(st, "recognition", || {
        let mut at = 0;
        let c = SpecialtyTypeChecked::from_type::<LogBuf, Mem, ExtMeta>(ty, &buf, &mut m, &mut at, &reg);
        (std::mem::discriminant(&c), at)
    }) else { return };
    for k in 0..m.n.min(40) {
        let mut m = Mem::with_fault(Fault::At(k));
        let mut at = 0;
        let Some(c) = run(st, "recognition with a fault", || SpecialtyTypeChecked::from_type::<LogBuf, Mem, ExtMeta>(ty, &buf, &mut m, &mut at, &reg)) else { return };
        if (std::mem::discriminant(&c), at) != if matches!(c, SpecialtyTypeChecked::None) { (std::mem::discriminant(&c), 0) } else { sound } {
            st.fail(format!("a fault at access {k} changes what type {id} {} is taken for", show_ty(&w.reg, id)));
        }
        st.class("faults");
        st.eval(mix(super::types::key(id, data, case), k));
    }
}

/// The set of extensions and the call, wherever in the data they are.
fn places(r: &mut Rng, st: &mut Local, case: u64) {
    let real = if real_worlds().is_empty() { 0 } else { 5 };
    let t = crate::txgen::any_tx_world(r, real);
    let Some((x, how)) = super::tx::any_tx(&t, r, 40) else { return };
    let pos = r.pick(&[0, 1, 2, 7, 300]);
    let mut d = r.bytes(pos);
    let exts = r.chance(1, 2);
    d.extend(if exts { x.ext() } else { x.call.clone() });
    if r.chance(1, 4) {
        let n = r.idx(6);
        d.extend(r.bytes(n));
    }
    let at0 = if r.chance(1, 30) { d.len() + r.idx(3) } else { pos };
    let (mut end, mut at) = (at0, at0);
    let say = || format!("{} at {at0} of {}; {how}", if exts { "extensions" } else { "call" }, hexs(&d));
    // an empty set at a place outside of the data is nobody's claim
    if at0 > d.len() && x.meta.exts.is_empty() {
        return;
    }
    if exts {
        let want = match m2::extensions(&x.meta, &d, &mut end, x.genesis) {
            m2::O::Ok(v) => Ok(v),
            m2::O::Err(e) => Err(e),
            m2::O::Skip => {
                st.skip();
                return;
            }
        };
        let Some(got) = run(st, &say(), || substrate_parser::decode_extensions_unmarked::<&[u8], (), Meta>(&&d[..], &mut at, &mut (), &x.meta, x.genesis)) else { return };
        match (&want, &got) {
            (Ok(a), Ok(b)) if a == b && at == end => st.class("extensions at a place"),
            (Err(a), Err(b)) if format!("{a:?}") == format!("{b:?}") => st.class("extensions refused"),
            (a, b) => st.fail(format!("gives {} up to {at}, should {} up to {end}; {}", cut(format!("{b:?}"), 400), cut(format!("{a:?}"), 400), say())),
        }
    } else {
        let want = match m2::call_at(&x.meta, &d, &mut end) {
            m2::O::Ok(v) => Ok(v),
            m2::O::Err(e) => Err(e),
            m2::O::Skip => {
                st.skip();
                return;
            }
        };
        let Some(got) = run(st, &say(), || substrate_parser::decode_as_call_unmarked::<&[u8], (), Meta>(&&d[..], &mut at, &mut (), &x.meta)) else { return };
        match (&want, &got) {
            (Ok(a), Ok(b)) if a == b && at == end => st.class("call at a place"),
            (Err(a), Err(b)) if format!("{a:?}") == format!("{b:?}") => st.class("call refused"),
            (a, b) => st.fail(format!("gives {} up to {at}, should {} up to {end}; {}", cut(format!("{b:?}"), 400), cut(format!("{a:?}"), 400), say())),
        }
    }
    st.eval(mix(hash_bytes(&d), mix(at0 as u64, case)));
}

/// The state handed to a field.
fn field_state(w: &World, r: &mut Rng, st: &mut Local, case: u64) {
    let n = w.reg.types.len();
    for _ in 0..20 {
        let t = &w.reg.types[r.idx(n)].ty;
        if effect(&Hint::from_path(&t.path)) != effect_due(tag_of_path(t)) {
            st.fail(format!("meaning {} of path {:?}", effect(&Hint::from_path(&t.path)), t.path.segments));
        }
        let fields: Vec<&gen::F> = match &t.type_def {
            TypeDef::Composite(c) => c.fields.iter().collect(),
            TypeDef::Variant(v) => v.variants.iter().flat_map(|v| v.fields.iter()).collect(),
            _ => continue,
        };
        for f in fields.into_iter().take(8) {
            let (specialty_set, tag, seen) = state(r, n);
            let c = Checker { specialty_set, cycle_check: seen.clone() };
            let cyc = seen.contains(&f.ty.id);
            match Propagated::for_field(&c, f) {
                Ok(p) if !cyc => {
                    let t = if tag == Tag::None { tag_of_field(f) } else { tag };
                    let again = p.checker.clone().check_id(f.ty.id);
                    if effect(&p.checker.specialty_set.hint) != effect_due(t) || p.compact_at() != specialty_set.compact_at || !p.info.is_empty() || again != Err(RI::CyclicMetadata { id: f.ty.id }) {
                        st.fail(format!("state {:?} for field {:?} of type {:?} after {specialty_set:?} {seen:?}", p.checker, f.name, f.type_name));
                    }
                    if seen.iter().any(|k| p.checker.clone().check_id(*k).is_ok()) {
                        st.fail(format!("types {seen:?} passed before are forgotten for field {:?}", f.name));
                    }
                    st.class("field state");
                }
                Err(RI::CyclicMetadata { id }) if cyc && id == f.ty.id => st.class("cycle at a field"),
                x => st.fail(format!("{x:?} for field {:?} of type id {} after {seen:?}", f.name, f.ty.id)),
            }
            st.eval(mix(mix(case, f.ty.id as u64), hash_bytes(format!("{specialty_set:?}{seen:?}{:?}{:?}", f.name, f.type_name).as_bytes())));
        }
    }
}

/// A sound description some references of which lead elsewhere or nowhere.
fn rerouted(r: &mut Rng) -> World {
    let w = World::random(r);
    let mut reg = (*w.reg).clone();
    let n = reg.types.len();
    for k in 0..n {
        let named = special(&reg.types[k].ty) != Sp::None;
        if !r.chance(if named { 20 } else { 3 }, 40) {
            continue;
        }
        let to = sym(if r.chance(1, 2) { n + r.idx(3) } else { r.idx(n) } as u32);
        match &mut reg.types[k].ty.type_def {
            TypeDef::Composite(c) if !c.fields.is_empty() => {
                let i = r.idx(c.fields.len());
                c.fields[i].ty = to
            }
            TypeDef::Variant(v) => {
                for v in v.variants.iter_mut() {
                    if !v.fields.is_empty() && r.chance(1, 2) {
                        let i = r.idx(v.fields.len());
                        v.fields[i].ty = to
                    }
                }
            }
            TypeDef::Sequence(s) => s.type_param = to,
            TypeDef::Array(a) => a.type_param = to,
            TypeDef::Compact(c) => c.type_param = to,
            TypeDef::BitSequence(b) => {
                if r.chance(1, 2) {
                    b.bit_order_type = to
                } else {
                    b.bit_store_type = to
                }
            }
            _ => {}
        }
    }
    World { reg: reg.into(), ..w.same() }
}

fn c26(run: &Runner) {
    let at = |r: &mut Rng, w: &World, id: u32| -> (Vec<u8>, usize) {
        let pos = if r.chance(1, 2) { 0 } else { r.idx(6) };
        let mut d = r.bytes(pos);
        match w.value(r, id) {
            Some(x) => {
                let b = if r.chance(1, 3) { mutate(r, &x.bytes).0 } else { x.bytes };
                d.extend(b)
            }
            None => {
                let n = r.idx(20);
                d.extend(r.bytes(n))
            }
        }
        if r.chance(1, 3) {
            let n = r.idx(6);
            d.extend(r.bytes(n));
        }
        (d, pos)
    };
    let any = |r: &mut Rng| if r.chance(1, 20) { super::types::nested(r).0 } else { World::random(r) };
    run.stage("inherited", run.cfg.n(40_000), |r, c, st| {
        let w = any(r);
        for _ in 0..8 {
            let id = w.target(r);
            let (d, pos) = at(r, &w, id);
            for _ in 0..3 {
                inherited(&w, id, &d, pos, r, st, c);
            }
            if st.failed() {
                return;
            }
        }
    });
    run.stage("parts", run.cfg.n(40_000), |r, c, st| {
        let mut w = any(r);
        if r.chance(1, 2) {
            let mut reg = (*w.reg).clone();
            let k = r.range(3, 30);
            gen::misname(r, &mut reg, k);
            w = World { reg: reg.into(), ..w.same() };
        }
        for _ in 0..10 {
            let id = if r.chance(1, 100) { w.reg.types.len() as u32 + r.below(3) as u32 } else { r.below(w.reg.types.len() as u64) as u32 };
            let n = r.idx(8);
            let mut d = r.bytes(n);
            let pos = if r.chance(1, 2) { 0 } else { r.idx(n + 1) };
            if let (Some(t), true) = (w.reg.types.get(id as usize), pos < n && r.chance(2, 3)) {
                if let TypeDef::Variant(v) = &t.ty.type_def {
                    if !v.variants.is_empty() {
                        d[pos] = r.pick(&v.variants).index;
                    }
                }
            }
            parts(&w, id, &d, pos, r, st, c);
            if st.failed() {
                return;
            }
        }
    });
    // types that may cycle or miss
    run.stage("broken", run.cfg.n(30_000), |r, c, st| {
        let w = if r.chance(1, 2) { super::broken::broken_world(r) } else { rerouted(r) };
        for _ in 0..10 {
            let id = r.below(w.reg.types.len() as u64 + 1) as u32;
            let n = r.idx(8);
            let mut d = r.bytes(n);
            if let (Some(t), false, true) = (w.reg.types.get(id as usize), d.is_empty(), r.chance(2, 3)) {
                if let TypeDef::Variant(v) = &t.ty.type_def {
                    if !v.variants.is_empty() {
                        d[0] = r.pick(&v.variants).index;
                    }
                }
            }
            parts(&w, id, &d, 0, r, st, c);
            faults(&w, id, &d, st, c);
            if st.failed() {
                return;
            }
        }
    });
    run.stage("extensions", run.cfg.n(20_000), |r, c, st| {
        let w = any(r);
        for _ in 0..6 {
            let id = w.target(r);
            let (d, pos) = at(r, &w, id);
            extension(r, &w, id, &d[pos..], st, c);
        }
    });
    run.stage("real", if real_worlds().is_empty() { 0 } else { run.cfg.n(4_000) }, |r, c, st| {
        let rw = real_worlds();
        let (_, w, _) = &rw[r.idx(rw.len())];
        for _ in 0..8 {
            let id = r.below(w.reg.types.len() as u64) as u32;
            if w.h[id as usize] == u32::MAX {
                continue;
            }
            let (d, pos) = at(r, w, id);
            inherited(w, id, &d, pos, r, st, c);
            parts(w, id, &d, pos, r, st, c);
            faults(w, id, &d, st, c);
        }
    });
    run.stage("places", run.cfg.n(40_000), |r, c, st| places(r, st, c));
    run.stage("fields", run.cfg.n(30_000), |r, c, st| {
        let mut w = any(r);
        if r.chance(1, 2) {
            let mut reg = (*w.reg).clone();
            let k = r.range(3, 30);
            gen::misname(r, &mut reg, k);
            w = World { reg: reg.into(), ..w.same() };
        }
        field_state(&w, r, st, c)
    });
    run.stage("bit positions", run.cfg.n(20_000), |r, c, st| bit_ends(r, st, c));
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C26",
        rule: "Public stages called directly on generated, misspelt, broken and real types: decoding of a resolved or named type with any inherited meaning, compact state, passed ids and documentation; primitives, variant selection, peeling of wrappers, bit order and positions, recognition of fields, paths, extensions, signatures and special types (with storage faults as well), state handling, documentation; extensions and calls at any place of the data. Each result, error and position against the reference. Non-trivial: every case; distinct by (type, data, position, state, description).",
        level: "exploration",
        assumptions: &["cases the reference decoder gives up on (20000 steps, depth 600) are skipped"],
        min_distinct: 100_000,
        run: c26,
    }]
}

