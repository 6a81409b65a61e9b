//! Metadata of both versions: C20, and broken metadata for C11.
use crate::common::*;
use crate::gen::{self, comp, cpt, enm, fld, mk, put_compact, seq, tup, var};
use crate::mem::{sym, Meta};
use crate::model::{Model, ME};
use crate::real::RealMeta;
use crate::rng::Rng;
use crate::run::{guarded, hash_bytes, mix, Local, Pan, Runner, Spec};
use crate::txgen::{any_tx_world, gen_tx, spoil_call, spoil_ext};
use frame_metadata::v14::{self, RuntimeMetadataV14};
use frame_metadata::v15::{self, RuntimeMetadataV15};
use parity_scale_codec::Encode;
use primitive_types::H256;
use scale_info::{form::PortableForm, PortableRegistry, PortableType, Type, TypeDef, TypeDefPrimitive, TypeParameter};
use std::sync::Arc;
use substrate_parser::cards::ParsedData;
use substrate_parser::error::{MetaStructureErrorV14, MetaVersionErrorPallets as VE, ParserError, RegistryError, RegistryInternalError as RI};
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as U};
use substrate_parser::traits::{AsCompleteMetadata, AsMetadata, ExtrinsicTypeParams, SignedExtensionMetadata, SpecNameVersion};

fn push(reg: &mut PortableRegistry, ty: Type<PortableForm>) -> u32 {
    let id = reg.types.len() as u32;
    reg.types.push(PortableType { id, ty });
    id
}

/// The same runtime in both versions of metadata, with what they should say.
pub struct Pair {
    pub v14: RuntimeMetadataV14,
    pub v15: RuntimeMetadataV15,
    pub ext_ty: u32,
    pub how: String,
    /// Name and version put into an unspoiled constant.
    pub truth: Option<SpecNameVersion>,
}

/// A version constant: type, bytes, and the truth if nothing is wrong with it.
fn version_constant(r: &mut Rng, reg: &mut PortableRegistry, want: &SpecNameVersion, spoil: bool, how: &mut String) -> (u32, Vec<u8>, Option<SpecNameVersion>) {
    let v: u128 = want.printed_spec_version.parse().expect("harness: number");
    let need = [8u32, 16, 32, 64, 128].into_iter().filter(|b| *b == 128 || v >> b == 0).collect::<Vec<_>>();
    // mostly what chains have
    let w = if need.contains(&32) && r.chance(1, 2) { 32 } else { r.pick(&need) };
    let prim = |b: u32| match b {
        8 => gen::U8,
        16 => gen::U16,
        32 => gen::U32,
        64 => gen::U64,
        _ => gen::U128,
    };
    let le = |v: u128, b: u32| v.to_le_bytes()[..b as usize / 8].to_vec();
    let num = |v: u128, b: u32, r: &mut Rng, reg: &mut PortableRegistry| -> (u32, Vec<u8>) {
        if r.chance(1, 8) {
            let id = push(reg, mk(&[], cpt(prim(b)), &[]));
            let mut o = vec![];
            put_compact(&mut o, v);
            (id, o)
        } else {
            (prim(b), le(v, b))
        }
    };
    let mut fields: Vec<(&str, u32, Vec<u8>)> = vec![];
    let (t, b) = num(v, w, r, reg);
    let other = r.text();
    fields.push(("spec_name", gen::STR, want.spec_name.encode()));
    fields.push(("impl_name", gen::STR, other.encode()));
    fields.push(("authoring_version", gen::U32, le(r.uint(32), 32)));
    fields.push(("spec_version", t, b));
    let ib = r.pick(&[8, 32, 64]);
    fields.push(("impl_version", prim(ib), le(r.uint(ib), ib)));
    let api = push(reg, mk(&[], gen::arr(gen::U8, 8), &[]));
    let pair = push(reg, mk(&[], tup(&[api, gen::U32]), &[]));
    let apis = push(reg, mk(&[], seq(pair), &[]));
    let n = r.below(4);
    let mut ab = vec![];
    put_compact(&mut ab, n as u128);
    ab.extend(r.bytes(12 * n as usize));
    fields.push(("apis", apis, ab));
    let tb = r.pick(&[8, 16, 32, 64, 128]);
    fields.push((r.pick(&["transaction_version", "tx_version"]), prim(tb), le(r.uint(tb), tb)));
    fields.push(("state_version", gen::U8, vec![r.byte()]));
    if r.chance(1, 3) {
        // a chain may order them otherwise, or leave some out
        let (i, j) = (r.idx(fields.len()), r.idx(fields.len()));
        fields.swap(i, j);
        if r.chance(1, 3) {
            fields.retain(|f| ["spec_name", "spec_version"].contains(&f.0) || r.chance(2, 3));
        }
    }
    let path: &[&str] = if r.chance(3, 4) { &["sp_version", "RuntimeVersion"] } else { &[] };
    let mut truth = fields.len() > 1;
    let mut bytes_how = 0;
    if spoil {
        truth = false;
        let rename = |fields: &mut Vec<(&str, u32, Vec<u8>)>, from: &str, to: &'static str| {
            for f in fields.iter_mut() {
                if f.0 == from {
                    f.0 = to
                }
            }
        };
        let k = r.below(14);
        *how = match k {
            0 => {
                fields.retain(|f| f.0 != "spec_version");
                "no spec version"
            }
            1 => {
                fields.retain(|f| f.0 != "spec_name");
                "no spec name"
            }
            2 => {
                rename(&mut fields, "spec_version", r.pick(&["specVersion", "spec_versions", "Spec_version", ""]));
                "spec version under another name"
            }
            3 => {
                rename(&mut fields, "spec_name", r.pick(&["specName", "name", "impl_names", ""]));
                "spec name under another name"
            }
            4 => {
                let b = r.pick(&[8, 16, 32, 64, 128]);
                let v = r.uint(b);
                let at = r.idx(fields.len() + 1);
                let (t, e) = num(v, b, r, reg);
                fields.insert(at, ("spec_version", t, e));
                "two spec versions"
            }
            5 => {
                let at = r.idx(fields.len() + 1);
                let x = if r.chance(1, 2) { want.spec_name.clone() } else { r.text() };
                fields.insert(at, ("spec_name", gen::STR, x.encode()));
                "two spec names"
            }
            6 => {
                for f in fields.iter_mut().filter(|f| f.0 == "spec_version") {
                    let x = r.text();
                    (f.1, f.2) = (gen::STR, x.encode());
                }
                "spec version a text"
            }
            7 => {
                for f in fields.iter_mut().filter(|f| f.0 == "spec_name") {
                    (f.1, f.2) = (gen::U32, le(r.uint(32), 32));
                }
                "spec name a number"
            }
            8 => {
                for f in fields.iter_mut().filter(|f| f.0 == "spec_version") {
                    f.1 = push(reg, mk(&["Wrapped"], comp(vec![fld(None, f.1, None, &[])]), &[]));
                }
                "spec version wrapped"
            }
            9 => {
                bytes_how = 1;
                "value cut"
            }
            10 => {
                bytes_how = 2;
                "value with bytes left"
            }
            11 => {
                bytes_how = 3;
                "type not a struct"
            }
            12 => {
                bytes_how = 4;
                "type missing"
            }
            _ => {
                let keep = r.pick(&["spec_name", "spec_version"]);
                fields.retain(|f| f.0 == keep);
                "only one field"
            }
        }
        .into();
    }
    let mut bytes: Vec<u8> = fields.iter().flat_map(|f| f.2.clone()).collect();
    let fs = fields.iter().map(|f| fld(if f.0.is_empty() { None } else { Some(f.0) }, f.1, if r.chance(1, 2) { Some("u32") } else { None }, &[])).collect();
    let mut id = match bytes_how {
        3 => match r.below(3) {
            0 => push(reg, mk(path, tup(&fields.iter().map(|f| f.1).collect::<Vec<_>>()), &[])),
            1 => {
                bytes.insert(0, 3);
                push(reg, mk(path, enm(vec![var("V", 3, fs, &[])]), &[]))
            }
            _ => {
                bytes = want.spec_name.encode();
                gen::STR
            }
        },
        _ => push(reg, mk(path, comp(fs), &[])),
    };
    match bytes_how {
        1 => {
            let n = r.idx(bytes.len());
            bytes.truncate(n)
        }
        2 => {
            let n = r.range(1, 3) as usize;
            bytes.extend(r.bytes(n))
        }
        4 => id = reg.types.len() as u32 + 50,
        _ => {}
    }
    (id, bytes, truth.then(|| want.clone()))
}

fn constant(name: &str, ty: u32, value: Vec<u8>) -> v14::PalletConstantMetadata<PortableForm> {
    v14::PalletConstantMetadata { name: name.into(), ty: sym(ty), value, docs: vec![] }
}

fn param(name: &str, ty: Option<u32>) -> TypeParameter<PortableForm> {
    TypeParameter::new_portable(name.into(), ty.map(sym))
}

/// A type of the extrinsic with these parts as parameters.
fn extrinsic_ty(r: &mut Rng, reg: &mut PortableRegistry, p: &ExtrinsicTypeParams, spoil: bool, how: &mut String) -> u32 {
    let mut ps = vec![
        param("Address", Some(p.address_ty.id)),
        param("Call", Some(p.call_ty.id)),
        param("Signature", Some(p.signature_ty.id)),
        param("Extra", Some(p.extra_ty.id)),
    ];
    if r.chance(1, 2) {
        let (i, j) = (r.idx(4), r.idx(4));
        ps.swap(i, j);
    }
    if r.chance(1, 4) {
        // others of no concern
        let n = reg.types.len() as u64;
        let x = r.below(n) as u32;
        let k = r.idx(5);
        ps.insert(k, param(r.pick(&["address", "Calls", "T", "ExtraFlags", ""]), if r.chance(1, 2) { None } else { Some(x) }));
    }
    let u8_id = reg.types.iter().position(|t| matches!(t.ty.type_def, TypeDef::Primitive(TypeDefPrimitive::U8))).expect("harness: no u8") as u32;
    let mut elem = u8_id;
    let mut shape = r.below(4);
    let mut wraps = if r.chance(1, 6) { r.range(1, 3) } else { 0 };
    let mut cyclic = false;
    if spoil {
        *how = match r.below(9) {
            k @ 0..=3 => {
                let name = ["Address", "Call", "Signature", "Extra"][k as usize];
                for q in ps.iter_mut().filter(|q| q.name == name) {
                    if r.chance(1, 2) {
                        q.ty = None
                    } else {
                        q.name = r.pick(&["address", "CALL", "Sig", "Extras", ""]).to_string()
                    }
                }
                format!("no {name} parameter")
            }
            4 => {
                elem = r.pick(&[gen::U16, gen::STR, gen::BOOL, 9]);
                "sequence of something else".into()
            }
            5 => {
                elem = reg.types.len() as u32 + 40;
                "sequence of a missing type".into()
            }
            6 => {
                shape = 4 + r.below(4);
                "not a sequence".into()
            }
            7 => {
                cyclic = true;
                wraps = r.range(1, 3);
                "cyclic".into()
            }
            _ => {
                shape = 8;
                "missing type".into()
            }
        };
    }
    let s = push(reg, mk(&[], seq(elem), &[]));
    let un: &[&str] = &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"];
    let mut id = match shape {
        // as chains have it
        0..=2 => {
            let mut t = mk(un, comp(vec![fld(None, s, None, &[])]), &["UncheckedExtrinsic raw bytes, requires custom decoding routine"]);
            t.type_params = ps;
            push(reg, t)
        }
        3 => {
            let mut t = mk(&[], seq(elem), &[]);
            t.type_params = ps;
            push(reg, t)
        }
        4 => {
            let mut t = mk(un, comp(vec![fld(None, s, None, &[]), fld(None, gen::U8, None, &[])]), &[]);
            t.type_params = ps;
            push(reg, t)
        }
        5 => {
            let mut t = mk(un, tup(&[s]), &[]);
            t.type_params = ps;
            push(reg, t)
        }
        6 => {
            // not recognised: the parameters stay on the outer type
            let mut t = mk(&["node_runtime", "UncheckedExtrinsic"], comp(vec![fld(None, s, None, &[])]), &[]);
            t.type_params = ps;
            push(reg, t)
        }
        7 => {
            let e = push(reg, mk(&[], comp(vec![]), &[]));
            let mut t = mk(un, comp(vec![fld(None, r.pick(&[gen::U8, e, gen::UNIT, gen::STR]), None, &[])]), &[]);
            t.type_params = ps;
            push(reg, t)
        }
        _ => reg.types.len() as u32 + 60,
    };
    let first = reg.types.len() as u32;
    for k in 0..wraps {
        if k == 0 && cyclic {
            id = first + wraps as u32 - 1;
        }
        id = push(reg, mk(&["W"], comp(vec![fld(None, id, None, &[])]), &[]));
    }
    id
}

/// The metadata in both versions. Spoiled in the version constant or the extrinsic type if asked.
pub fn pair(r: &mut Rng, meta: &Meta, spoil_version: bool, spoil_ext: bool) -> Pair {
    let mut reg = (*meta.reg).clone();
    let mut how = String::new();
    let want = meta.spec.clone().unwrap_or(SpecNameVersion { printed_spec_version: "7".into(), spec_name: "none".into() });
    let (vt, vb, mut truth) = {
        let mut h = String::new();
        let sp = spoil_version && r.chance(3, 4);
        let x = version_constant(r, &mut reg, &want, sp, &mut h);
        how.push_str(&h);
        x
    };
    let decoy = (vt, {
        let mut h = String::new();
        let w = SpecNameVersion { printed_spec_version: r.uint(32).to_string(), spec_name: "decoy".into() };
        version_constant(r, &mut reg, &w, false, &mut h)
    });
    let (dt, db) = (decoy.1 .0, decoy.1 .1);
    let mut consts = vec![constant("BlockHashCount", gen::U32, vec![0; 4]), constant("Version", vt, vb), constant("SS58Prefix", gen::U16, vec![42, 0])];
    if r.chance(1, 3) {
        let k = r.idx(4);
        consts.insert(k, constant(r.pick(&["version", "Versions", "RuntimeVersion", "Version "]), dt, db.clone()));
    }
    let (i, j) = (r.idx(consts.len()), r.idx(consts.len()));
    consts.swap(i, j);
    let mut names = vec![("Timestamp", vec![]), ("System", consts), ("Balances", vec![])];
    if r.chance(1, 3) {
        let k = r.idx(4);
        names.insert(k, (r.pick(&["system", "Systems", "FrameSystem", "ParaSystem", "System "]), vec![constant("Version", dt, db)]));
    }
    let (i, j) = (r.idx(names.len()), r.idx(names.len()));
    names.swap(i, j);
    if spoil_version && how.is_empty() {
        truth = None;
        if r.chance(1, 2) {
            names.retain(|n| n.0 != "System");
            how.push_str("no System pallet");
        } else {
            for n in names.iter_mut().filter(|n| n.0 == "System") {
                n.1.retain(|c| c.name != "Version")
            }
            how.push_str("no Version constant");
        }
    }
    let ext_ty = {
        let mut h = String::new();
        let id = extrinsic_ty(r, &mut reg, &meta.params, spoil_ext, &mut h);
        how.push_str(&h);
        id
    };
    let p14 = names
        .iter()
        .enumerate()
        .map(|(i, (n, c))| v14::PalletMetadata { name: n.to_string(), storage: None, calls: None, event: None, constants: c.clone(), error: None, index: i as u8 })
        .collect();
    let p15 = names
        .iter()
        .enumerate()
        .map(|(i, (n, c))| v15::PalletMetadata { name: n.to_string(), storage: None, calls: None, event: None, constants: c.clone(), error: None, index: i as u8, docs: vec![] })
        .collect();
    let e14 = v14::ExtrinsicMetadata {
        ty: sym(ext_ty),
        version: meta.version,
        signed_extensions: meta.exts.iter().map(|e| v14::SignedExtensionMetadata { identifier: e.identifier.clone(), ty: e.ty, additional_signed: e.additional_signed }).collect(),
    };
    let v14 = RuntimeMetadataV14 { types: reg.clone(), pallets: p14, extrinsic: e14, ty: sym(0) };
    let mut v15 = as15(&v14, &meta.params, Some(p15));
    if r.chance(1, 2) {
        // the outer enums are not what extrinsics are made of
        let n = v15.types.types.len() as u64 + 2;
        v15.outer_enums = v15::OuterEnums { call_enum_ty: sym(r.below(n) as u32), event_enum_ty: sym(r.below(n) as u32), error_enum_ty: sym(r.below(n) as u32) };
    }
    Pair { v14, v15, ext_ty, how, truth }
}

fn as15(m: &RuntimeMetadataV14, p: &ExtrinsicTypeParams, pallets: Option<Vec<v15::PalletMetadata<PortableForm>>>) -> RuntimeMetadataV15 {
    let pallets = pallets.unwrap_or_else(|| {
        m.pallets
            .iter()
            .map(|p| v15::PalletMetadata {
                name: p.name.clone(),
                storage: p.storage.clone(),
                calls: p.calls.clone(),
                event: p.event.clone(),
                constants: p.constants.clone(),
                error: p.error.clone(),
                index: p.index,
                docs: vec![],
            })
            .collect()
    });
    RuntimeMetadataV15 {
        types: m.types.clone(),
        pallets,
        extrinsic: v15::ExtrinsicMetadata {
            version: m.extrinsic.version,
            address_ty: p.address_ty,
            call_ty: p.call_ty,
            signature_ty: p.signature_ty,
            extra_ty: p.extra_ty,
            signed_extensions: m
                .extrinsic
                .signed_extensions
                .iter()
                .map(|e| v15::SignedExtensionMetadata { identifier: e.identifier.clone(), ty: e.ty, additional_signed: e.additional_signed })
                .collect(),
        },
        ty: m.ty,
        apis: vec![],
        outer_enums: v15::OuterEnums { call_enum_ty: p.call_ty, event_enum_ty: sym(0), error_enum_ty: sym(0) },
        custom: v15::CustomMetadata { map: Default::default() },
    }
}

fn as14(m: &RuntimeMetadataV15, r: &mut Rng) -> RuntimeMetadataV14 {
    let mut types = m.types.clone();
    let x = &m.extrinsic;
    let p = ExtrinsicTypeParams { address_ty: x.address_ty, call_ty: x.call_ty, signature_ty: x.signature_ty, extra_ty: x.extra_ty };
    let ty = extrinsic_ty(r, &mut types, &p, false, &mut String::new());
    RuntimeMetadataV14 {
        types,
        pallets: m
            .pallets
            .iter()
            .map(|p| v14::PalletMetadata {
                name: p.name.clone(),
                storage: p.storage.clone(),
                calls: p.calls.clone(),
                event: p.event.clone(),
                constants: p.constants.clone(),
                error: p.error.clone(),
                index: p.index,
            })
            .collect(),
        extrinsic: v14::ExtrinsicMetadata {
            ty: sym(ty),
            version: x.version,
            signed_extensions: x
                .signed_extensions
                .iter()
                .map(|e| v14::SignedExtensionMetadata { identifier: e.identifier.clone(), ty: e.ty, additional_signed: e.additional_signed })
                .collect(),
        },
        ty: m.ty,
    }
}

/// What the version constant says, by the reference decoder.
fn spec_of(reg: &PortableRegistry, found: Result<(u32, &[u8]), VE>) -> Option<Result<SpecNameVersion, VE>> {
    let (ty, value) = match found {
        Ok(x) => x,
        Err(e) => return Some(Err(e)),
    };
    let d = match Model::new(reg, value).all(ty) {
        Ok(d) => d,
        Err(ME::Skip) => return None,
        Err(ME::P(_)) => return Some(Err(VE::RuntimeVersionNotDecodeable)),
    };
    let ParsedData::Composite(fields) = d.data else { return Some(Err(VE::UnexpectedRuntimeVersionFormat)) };
    let (mut v, mut n) = (None, None);
    for f in fields {
        let num = match f.data.data {
            ParsedData::PrimitiveU8 { value, specialty: U::SpecVersion } => value as u128,
            ParsedData::PrimitiveU16 { value, specialty: U::SpecVersion } => value as u128,
            ParsedData::PrimitiveU32 { value, specialty: U::SpecVersion } => value as u128,
            ParsedData::PrimitiveU64 { value, specialty: U::SpecVersion } => value as u128,
            ParsedData::PrimitiveU128 { value, specialty: U::SpecVersion } => value,
            ParsedData::Text { text, specialty: SpecialtyStr::SpecName } => {
                if n.replace(text).is_some() {
                    return Some(Err(VE::SpecNameIdentifierTwice));
                }
                continue;
            }
            _ => continue,
        };
        if v.replace(num).is_some() {
            return Some(Err(VE::SpecVersionIdentifierTwice));
        }
    }
    Some(match (v, n) {
        (None, _) => Err(VE::NoSpecVersionIdentifier),
        (_, None) => Err(VE::NoSpecNameIdentifier),
        (Some(v), Some(n)) => Ok(SpecNameVersion { printed_spec_version: v.to_string(), spec_name: n }),
    })
}

fn found<'a>(mut pallets: impl Iterator<Item = (&'a str, &'a Vec<v14::PalletConstantMetadata<PortableForm>>)>) -> Result<(u32, &'a [u8]), VE> {
    let Some((_, consts)) = pallets.find(|p| p.0 == "System") else { return Err(VE::NoSystemPallet) };
    let Some(c) = consts.iter().find(|c| c.name == "Version") else { return Err(VE::NoVersionInConstants) };
    Ok((c.ty.id, &c.value))
}

/// Parts of the extrinsic, by the description of metadata version 14.
fn params_of(reg: &PortableRegistry, ext_ty: u32) -> Result<ExtrinsicTypeParams, MetaStructureErrorV14> {
    let int = |e: RI| MetaStructureErrorV14::ExtrinsicTypeNotResolved(e);
    let (t, id) = match Model::new(reg, &[]).husk_of(ext_ty) {
        Ok(x) => x,
        Err(ME::P(ParserError::Registry(RegistryError::Internal(e)))) => return Err(int(e)),
        Err(_) => panic!("harness: husk"),
    };
    let bad = MetaStructureErrorV14::UnexpectedExtrinsicType { extrinsic_ty_id: id };
    let get = |id: u32| reg.types.get(id as usize).map(|t| &t.ty).ok_or(int(RI::TypeNotResolved { id }));
    let s = match &t.type_def {
        TypeDef::Sequence(s) => s,
        TypeDef::Composite(c) if c.fields.len() == 1 => match &get(c.fields[0].ty.id)?.type_def {
            TypeDef::Sequence(s) => s,
            _ => return Err(bad),
        },
        _ => return Err(bad),
    };
    if !matches!(get(s.type_param.id)?.type_def, TypeDef::Primitive(TypeDefPrimitive::U8)) {
        return Err(bad);
    }
    let p = |n: &str| t.type_params.iter().find(|p| p.name == n).and_then(|p| p.ty);
    Ok(ExtrinsicTypeParams {
        address_ty: p("Address").ok_or(MetaStructureErrorV14::NoAddressParam)?,
        call_ty: p("Call").ok_or(MetaStructureErrorV14::NoCallParam)?,
        extra_ty: p("Extra").ok_or(MetaStructureErrorV14::NoExtraParam)?,
        signature_ty: p("Signature").ok_or(MetaStructureErrorV14::NoSignatureParam)?,
    })
}

fn dbg<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}")
}

/// All that the metadata says about itself.
fn told(p: &Pair, st: &mut Local) -> bool {
    let f14 = found(p.v14.pallets.iter().map(|x| (x.name.as_str(), &x.constants)));
    let f15 = found(p.v15.pallets.iter().map(|x| (x.name.as_str(), &x.constants)));
    let (Some(w14), Some(w15)) = (spec_of(&p.v14.types, f14), spec_of(&p.v15.types, f15)) else {
        st.skip();
        return false;
    };
    if let Some(t) = &p.truth {
        if w14.as_ref() != Ok(t) || w15.as_ref() != Ok(t) {
            panic!("harness: the reference finds {w14:?} and {w15:?} instead of {t:?}");
        }
    }
    let say = |what: &str, got: String, want: String| format!("{what} ({}): {got} instead of {want}", p.how);
    let g14 = dbg(&AsMetadata::<()>::spec_name_version(&p.v14));
    let w = match &w14 {
        Ok(s) => format!("Ok({s:?})"),
        Err(e) => format!("Err(Version({e:?}))"),
    };
    if g14 != w {
        st.fail(say("spec name and version in V14", g14, w));
    }
    let g15 = dbg(&AsMetadata::<()>::spec_name_version(&p.v15));
    let w = dbg(&w15);
    if g15 != w {
        st.fail(say("spec name and version in V15", g15, w));
    }
    // texts of errors
    if let (Err(a), Err(b)) = (AsMetadata::<()>::spec_name_version(&p.v14), AsMetadata::<()>::spec_name_version(&p.v15)) {
        if a.to_string() != b.to_string() || a.to_string().is_empty() {
            st.fail(say("text of the error in V14", a.to_string(), b.to_string()));
        }
    }
    let wp = params_of(&p.v14.types, p.ext_ty);
    let gp = AsCompleteMetadata::<()>::extrinsic_type_params(&p.v14);
    if dbg(&gp) != dbg(&wp) {
        st.fail(say("types of the extrinsic in V14", dbg(&gp), dbg(&wp)));
    }
    let gc = AsMetadata::<()>::call_ty(&p.v14);
    let wc = wp.as_ref().map(|x| x.call_ty);
    if dbg(&gc) != dbg(&wc) {
        st.fail(say("call type in V14", dbg(&gc), dbg(&wc)));
    }
    let x = &p.v15.extrinsic;
    let w = ExtrinsicTypeParams { address_ty: x.address_ty, call_ty: x.call_ty, signature_ty: x.signature_ty, extra_ty: x.extra_ty };
    let g = AsCompleteMetadata::<()>::extrinsic_type_params(&p.v15);
    if g.as_ref().ok() != Some(&w) {
        st.fail(say("types of the extrinsic in V15", dbg(&g), dbg(&w)));
    }
    if AsMetadata::<()>::call_ty(&p.v15).ok() != Some(w.call_ty) {
        st.fail(say("call type in V15", dbg(&AsMetadata::<()>::call_ty(&p.v15)), dbg(&w.call_ty)));
    }
    let e14: Vec<SignedExtensionMetadata> =
        p.v14.extrinsic.signed_extensions.iter().map(|e| SignedExtensionMetadata { identifier: e.identifier.clone(), ty: e.ty, additional_signed: e.additional_signed }).collect();
    let e15: Vec<SignedExtensionMetadata> =
        p.v15.extrinsic.signed_extensions.iter().map(|e| SignedExtensionMetadata { identifier: e.identifier.clone(), ty: e.ty, additional_signed: e.additional_signed }).collect();
    for (n, g, w) in [("V14", AsMetadata::<()>::signed_extensions(&p.v14).ok(), e14), ("V15", AsMetadata::<()>::signed_extensions(&p.v15).ok(), e15)] {
        if g.as_ref() != Some(&w) {
            st.fail(say(&format!("signed extensions in {n}"), dbg(&g), dbg(&w)));
        }
    }
    for (n, g, w) in [
        ("V14", AsCompleteMetadata::<()>::extrinsic_version(&p.v14).ok(), p.v14.extrinsic.version),
        ("V15", AsCompleteMetadata::<()>::extrinsic_version(&p.v15).ok(), p.v15.extrinsic.version),
    ] {
        if g != Some(w) {
            st.fail(say(&format!("extrinsic version in {n}"), dbg(&g), w.to_string()));
        }
    }
    if AsMetadata::<()>::types(&p.v14) != p.v14.types || AsMetadata::<()>::types(&p.v15) != p.v15.types {
        st.fail(say("types", "other types".into(), "those of the metadata".into()));
    }
    st.class(&format!("version constant: {}", match &w14 {
        Ok(_) => "good".into(),
        Err(e) => dbg(e),
    }));
    st.class(&format!("extrinsic type: {}", match &wp {
        Ok(_) => "good".to_string(),
        Err(e) => dbg(e).split(['(', '{']).next().unwrap_or("").trim().to_string(),
    }));
    true
}

/// The same data with three descriptions of one runtime.
fn three<T: PartialEq, A: std::fmt::Debug, B: std::fmt::Debug, C: std::fmt::Debug>(what: &str, a: Result<T, A>, b: Result<T, B>, c: Result<T, C>, st: &mut Local, say: &str) {
    let e = |x: String| x.replace("MetaStructure(Version(", "MetaStructure((");
    let same = match (&a, &b, &c) {
        (Ok(a), Ok(b), Ok(c)) => a == b && b == c,
        (Err(a), Err(b), Err(c)) => e(dbg(a)) == e(dbg(b)) && dbg(b) == dbg(c),
        _ => false,
    };
    st.class(&format!("{what}: {}", if a.is_ok() { "accepted" } else { "refused" }));
    if !same {
        let s = |ok: bool, err: Option<String>| if ok { "a value".to_string() } else { format!("error {}", err.unwrap_or_default()) };
        st.fail(format!(
            "{what}: V14 gives {}, V15 {}, plain description {}; {say}",
            s(a.is_ok(), a.as_ref().err().map(dbg)),
            s(b.is_ok(), b.as_ref().err().map(dbg)),
            s(c.is_ok(), c.as_ref().err().map(dbg))
        ));
    }
}

fn tx_three(p: &Pair, meta: &Meta, marked: &[u8], unmarked: &[u8], xt: &[u8], genesis: Option<H256>, st: &mut Local, how: &str, key: u64) {
    use crate::model2::{self as m2, O};
    let say = format!("{how}; marked {}; extrinsic {}", hexs(marked), hexs(xt));
    macro_rules! run {
        ($m:expr, $ty:ty, $f:ident, $d:expr) => {{
            let d = $d;
            substrate_parser::$f::<&[u8], (), $ty>(&d, &mut (), $m, genesis)
        }};
    }
    macro_rules! split {
        ($x:expr) => {
            match $x {
                Ok(t) => (Ok(t.extensions), Some(t.call_result)),
                Err(e) => (Err(e), None),
            }
        };
    }
    if !matches!(m2::marked_tx(meta, marked, genesis), O::Skip) {
        let (ea, ca) = split!(run!(&p.v14, RuntimeMetadataV14, parse_transaction, marked));
        let (eb, cb) = split!(run!(&p.v15, RuntimeMetadataV15, parse_transaction, marked));
        let (ec, cc) = split!(run!(meta, Meta, parse_transaction, marked));
        three("extensions", ea, eb, ec, st, &say);
        if let (Some(a), Some(b), Some(c)) = (ca, cb, cc) {
            three("call", a, b, c, st, &say);
        }
        st.eval(mix(key, hash_bytes(marked)));
    }
    if !matches!(m2::unmarked_tx(meta, unmarked, genesis), O::Skip) {
        let a = run!(&p.v14, RuntimeMetadataV14, parse_transaction_unmarked, unmarked).map(|t| (t.call, t.extensions));
        let b = run!(&p.v15, RuntimeMetadataV15, parse_transaction_unmarked, unmarked).map(|t| (t.call, t.extensions));
        let c = run!(meta, Meta, parse_transaction_unmarked, unmarked).map(|t| (t.call, t.extensions));
        three("unmarked", a, b, c, st, &say);
        st.eval(mix(key, hash_bytes(unmarked) ^ 1));
    }
    if !matches!(m2::extrinsic(meta, xt), O::Skip) {
        let a = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), RuntimeMetadataV14>(&xt, &mut (), &p.v14);
        let b = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), RuntimeMetadataV15>(&xt, &mut (), &p.v15);
        let c = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), Meta>(&xt, &mut (), meta);
        three("extrinsic", a, b, c, st, &say);
        st.eval(mix(key, hash_bytes(xt) ^ 2));
    }
}

fn numbered(r: &mut Rng, meta: &mut Meta) {
    if let Ok(s) = meta.spec.as_mut() {
        let good = s.printed_spec_version.parse::<u128>().ok().filter(|v| v.to_string() == s.printed_spec_version);
        if good.is_none() {
            let b = r.pick(&[8, 16, 32, 64, 128]);
            s.printed_spec_version = r.uint(b).to_string();
        }
    }
}

fn c20(run: &Runner) {
    // what metadata says of itself
    run.stage("told", run.cfg.n(25_000), |r, c, st| {
        let t = crate::txgen::tx_world(r);
        let mut meta = t.meta.clone();
        if let Ok(s) = meta.spec.as_mut() {
            let b = r.pick(&[8, 16, 32, 32, 64, 128]);
            s.printed_spec_version = r.uint(b).to_string();
            s.spec_name = r.text();
        }
        let (a, b) = match r.below(5) {
            0 | 1 => (true, false),
            2 | 3 => (false, true),
            _ => (false, false),
        };
        let p = pair(r, &meta, a, b);
        if told(&p, st) {
            st.eval(mix(c, hash_bytes(p.how.as_bytes())));
        }
    });
    // parsing with both
    run.stage("parsing", run.cfg.n(6_000), |r, c, st| {
        let t = any_tx_world(r, 0);
        let Some(mut x) = gen_tx(&t, r) else { return };
        let mut how = "sound".to_string();
        if r.chance(1, 2) {
            let (y, h) = if r.chance(1, 2) { spoil_ext(&t, &x, r) } else { spoil_call(&t, &x, r) };
            x = y;
            how = h.into();
        }
        let mut meta = x.meta.clone();
        numbered(r, &mut meta);
        let p = pair(r, &meta, false, false);
        if !told(&p, st) {
            return;
        }
        // the same registry for the third description
        meta.reg = Arc::new(p.v14.types.clone());
        let Some((xt, _)) = super::tx::gen_extrinsic(&t, r, 60) else { return };
        tx_three(&p, &meta, &x.marked(), &x.unmarked(), &xt, x.genesis, st, &how, c);
    });
    // real metadata, converted to the other version
    let real: Vec<Pair> = {
        let mut r = Rng::for_case(run.cfg.seed, "C20/convert", 0);
        real_worlds()
            .iter()
            .map(|(name, _, m)| match m {
                RealMeta::V14(m) => {
                    let p = params_of(&m.types, m.extrinsic.ty.id);
                    match p {
                        Ok(p) => Pair { v14: (**m).clone(), v15: as15(m, &p, None), ext_ty: m.extrinsic.ty.id, how: name.clone(), truth: None },
                        Err(e) => panic!("harness: {name} {e:?}"),
                    }
                }
                RealMeta::V15(m) => {
                    let v14 = as14(m, &mut r);
                    Pair { ext_ty: v14.extrinsic.ty.id, v14, v15: (**m).clone(), how: name.clone(), truth: None }
                }
            })
            .collect()
    };
    run.stage("real told", real.len() as u64, |_, c, st| {
        let p = &real[c as usize];
        if told(p, st) {
            st.eval(mix(c, 99));
            st.sample(|| format!("{}: {:?}", p.how, AsMetadata::<()>::spec_name_version(&p.v14)));
        }
    });
    let real = &real;
    run.stage("real parsing", run.cfg.n(150), |r, c, st| {
        if real.is_empty() {
            return;
        }
        let k = r.idx(real.len());
        let p = &real[k];
        let (name, w, _) = &real_worlds()[k];
        let meta = &crate::txgen::real_metas()[k];
        let t = crate::txgen::TxWorld { w: w.same(), meta: meta.clone(), src: name.clone(), long: false };
        for _ in 0..2 {
            let Some(mut x) = gen_tx(&t, r) else { continue };
            let mut how = "sound".to_string();
            if r.chance(1, 3) {
                let (y, h) = spoil_call(&t, &x, r);
                x = y;
                how = h.into();
            }
            // make the version right: it is the metadata that stays
            patch_version(&mut x, meta);
            let Some((xt, _)) = super::tx::gen_extrinsic(&t, r, 70) else { continue };
            tx_three(p, meta, &x.marked(), &x.unmarked(), &xt, x.genesis, st, &format!("{name} {how}"), c);
        }
        // storage entries
        for _ in 0..4 {
            let pk = r.idx(p.v14.pallets.len());
            let (Some(a), Some(b)) = (&p.v14.pallets[pk].storage, &p.v15.pallets[pk].storage) else { continue };
            if a.entries.is_empty() {
                continue;
            }
            let ek = r.idx(a.entries.len());
            let (a, b) = (&a.entries[ek], &b.entries[ek]);
            let Some(m) = super::storage::make(w, a, r) else { continue };
            let (mut key, mut value) = (m.key.clone(), m.value.clone());
            if r.chance(1, 3) {
                let (_, k, v, _) = super::storage::spoil(a, &m, r, w);
                (key, value) = (k, v);
            }
            if matches!(crate::model2::storage(meta, &key, &value, a), crate::model2::O::Skip) {
                st.skip();
                continue;
            }
            let (k, v): (&[u8], &[u8]) = (&key, &value);
            let x = substrate_parser::decode_as_storage_entry::<&[u8], (), RuntimeMetadataV14>(&k, &v, &mut (), a, &AsMetadata::<()>::types(&p.v14));
            let y = substrate_parser::decode_as_storage_entry::<&[u8], (), RuntimeMetadataV15>(&k, &v, &mut (), b, &AsMetadata::<()>::types(&p.v15));
            let z = super::storage::real(&crate::mem::Reg(meta.reg.clone()), k, v, a);
            three("storage", x, y, z, st, &format!("{name} {}; key {}; value {}", a.name, hexs(k), hexs(v)));
            st.eval(mix(hash_bytes(k), hash_bytes(v)));
        }
    });
}

/// Put the version of the metadata into the data.
fn patch_version(x: &mut crate::txgen::Tx, meta: &Meta) {
    let Ok(s) = &meta.spec else { return };
    let Ok(v) = s.printed_spec_version.parse::<u128>() else { return };
    let n = meta.exts.len();
    if x.parts.len() != 2 * n {
        return;
    }
    for (i, e) in meta.exts.iter().enumerate() {
        for (k, id) in [(i, e.ty.id), (n + i, e.additional_signed.id)] {
            if let Ok(d) = Model::new(&meta.reg, &x.parts[k]).ext(id, &e.identifier, &mut 0) {
                if let crate::model2::Role::Spec(_) = crate::model2::role(&d) {
                    let m = x.parts[k].len();
                    if matches!(m, 1 | 2 | 4 | 8 | 16) {
                        x.parts[k] = v.to_le_bytes()[..m].to_vec();
                    }
                }
            }
        }
    }
    x.meta.spec = meta.spec.clone();
}

/// Broken metadata must be refused in the end, by every function and operation.
pub fn c11_metadata(run: &Runner) {
    run.stage("metadata", run.cfg.n(6_000), |r, c, st| {
        let t = crate::txgen::tx_world(r);
        let mut meta = t.meta.clone();
        numbered(r, &mut meta);
        let (a, b) = (r.chance(1, 2), r.chance(2, 3));
        let mut p = pair(r, &meta, a, b);
        if r.chance(1, 2) {
            // types of parts that do not exist
            let k = p.v14.types.types.len() as u32 + 7;
            for e in p.v14.extrinsic.signed_extensions.iter_mut() {
                if r.chance(1, 3) {
                    e.ty = sym(k)
                }
            }
        }
        let n = r.idx(40);
        let d = r.bytes(n);
        let mut marked = vec![];
        let k = r.below(n as u64 + 1);
        put_compact(&mut marked, k as u128);
        marked.extend(&d);
        let res = guarded(|| {
            let _ = AsMetadata::<()>::spec_name_version(&p.v14);
            let _ = AsMetadata::<()>::spec_name_version(&p.v15);
            let x = AsCompleteMetadata::<()>::extrinsic_type_params(&p.v14);
            let m: &[u8] = &marked;
            let u: &[u8] = &d;
            let mm = Meta { reg: Arc::new(p.v14.types.clone()), exts: AsMetadata::<()>::signed_extensions(&p.v14).unwrap_or_default(), ..meta.clone() };
            use crate::model2::{self as m2, O};
            let skip = matches!(m2::marked_tx(&mm, m, None), O::Skip) || matches!(m2::unmarked_tx(&mm, u, None), O::Skip) || matches!(m2::extrinsic(&mm, m), O::Skip);
            if skip {
                return (x.is_ok(), false);
            }
            let ok = substrate_parser::parse_transaction::<&[u8], (), RuntimeMetadataV14>(&m, &mut (), &p.v14, None).map(|t| t.call_result.is_ok()).unwrap_or(false);
            let ok2 = substrate_parser::parse_transaction_unmarked::<&[u8], (), RuntimeMetadataV14>(&u, &mut (), &p.v14, None).is_ok();
            let ok3 = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), RuntimeMetadataV14>(&m, &mut (), &p.v14).is_ok();
            (x.is_ok(), ok || ok2 || ok3)
        });
        match res {
            Ok((params, any)) => {
                if any && !params {
                    st.fail(format!("data accepted although the extrinsic type is broken ({})", p.how));
                }
                if params != params_of(&p.v14.types, p.ext_ty).is_ok() {
                    st.fail(format!("types of the extrinsic: {}, where the reference says otherwise ({})", params, p.how));
                }
                st.class(&format!("metadata: {}", if p.how.is_empty() { "good" } else { &p.how }));
                st.eval(mix(c, hash_bytes(&marked)));
            }
            Err(Pan::Harness(m)) => panic!("{m}"),
            Err(Pan::Code(m)) => st.fail(format!("{m} ({})", p.how)),
            Err(Pan::Budget(_)) => {}
        }
    });
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C20",
        rule: "Runtimes synthesised as V14 and V15 metadata (version constant of every integer width, order and defect; extrinsic type of every shape and defect; decoy pallets, constants and parameters; extensions in any order) and the real metadata of the repository converted to the other version. What the metadata says is compared with an independent reading, and transactions, extrinsics and storage parsed with V14, V15 and a plain description must agree, errors included. Non-trivial: every metadata read and every parsed input; distinct by (metadata case, bytes).",
        level: "exploration",
        assumptions: &["metadata with two System pallets or two Version constants is not considered"],
        min_distinct: 30_000,
        run: c20,
    }]
}
