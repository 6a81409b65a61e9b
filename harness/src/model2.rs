//! Reference behaviour of whole transactions, extrinsics and storage entries.
use crate::mem::Meta;
use crate::model::{compact_at, info_of, Model, ME};
use external_memory_tools::BufferError;
use frame_metadata::v14::{StorageEntryMetadata, StorageEntryType, StorageHasher};
use primitive_types::H256;
use scale_info::{form::PortableForm, TypeDef};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::{Call, ExtendedData, ParsedData};
use substrate_parser::error::{ExtensionsError, ParserError, RegistryError, RegistryInternalError, SignableError, StorageError, UncheckedExtrinsicError};
use substrate_parser::special_indicators::SpecialtyUnsignedInteger as U;
use substrate_parser::storage_data::{Hash, HashData, KeyData, KeyPart, Storage};

pub type SE = SignableError<(), Meta>;
pub type XE = UncheckedExtrinsicError<(), Meta>;

/// Outcome of a model: value, error, or nothing to say.
#[derive(Debug)]
pub enum O<T, E> {
    Ok(T),
    Err(E),
    Skip,
}

macro_rules! get {
    ($e:expr, $wrap:path) => {
        match $e {
            Ok(x) => x,
            Err(ME::P(e)) => return O::Err($wrap(e)),
            Err(ME::Skip) => return O::Skip,
        }
    };
}

/// Start of the call and of the extensions.
pub fn mark(data: &[u8]) -> Option<(usize, usize)> {
    let (len, n) = compact_at(data, 0, 32)?;
    let end = n as u128 + len;
    if end > data.len() as u128 {
        None
    } else {
        Some((n, end as usize))
    }
}

pub fn call_at(meta: &Meta, data: &[u8], pos: &mut usize) -> O<Call, SE> {
    let mut m = Model::new(&meta.reg, data);
    let id = meta.params.call_ty.id;
    match get!(m.at(id, pos), SE::Parsing).data {
        ParsedData::Call(c) => O::Ok(c),
        _ => O::Err(SE::NotACall(id)),
    }
}

pub fn marked_call(meta: &Meta, data: &[u8], call_start: usize, ext_start: usize) -> O<Call, SE> {
    let mut pos = call_start;
    match call_at(meta, &data[..ext_start], &mut pos) {
        O::Ok(c) => {
            if pos == ext_start {
                O::Ok(c)
            } else {
                O::Err(SE::SomeDataNotUsedCall { from: pos, to: ext_start })
            }
        }
        o => o,
    }
}

pub fn extensions(meta: &Meta, data: &[u8], pos: &mut usize, genesis: Option<H256>) -> O<Vec<ExtendedData>, SE> {
    let mut out = vec![];
    for signed in [false, true] {
        for e in meta.exts.iter() {
            let id = if signed { e.additional_signed.id } else { e.ty.id };
            let mut m = Model::new(&meta.reg, data);
            out.push(get!(m.ext(id, &e.identifier, pos), SE::Parsing));
        }
    }
    if *pos != data.len() {
        return O::Err(SE::SomeDataNotUsedExtensions { from: *pos });
    }
    let spec = match &meta.spec {
        Ok(s) => s.printed_spec_version.clone(),
        Err(e) => return O::Err(SE::MetaStructure(e.clone())),
    };
    if let Err(e) = rules(&out, &spec, genesis) {
        return O::Err(e);
    }
    O::Ok(out)
}

/// What the extension is for the rules, if anything.
pub enum Role {
    Era(Era),
    Genesis(H256),
    Block(H256),
    Spec(String),
    None,
}
pub fn role(e: &ExtendedData) -> Role {
    let d = match &e.data {
        ParsedData::Composite(f) if f.len() == 1 => &f[0].data.data,
        ParsedData::Composite(_) => return Role::None,
        d => d,
    };
    match d {
        ParsedData::Era(e) => Role::Era(*e),
        ParsedData::GenesisHash(h) => Role::Genesis(*h),
        ParsedData::BlockHash(h) => Role::Block(*h),
        ParsedData::PrimitiveU8 { value, specialty: U::SpecVersion } => Role::Spec(value.to_string()),
        ParsedData::PrimitiveU16 { value, specialty: U::SpecVersion } => Role::Spec(value.to_string()),
        ParsedData::PrimitiveU32 { value, specialty: U::SpecVersion } => Role::Spec(value.to_string()),
        ParsedData::PrimitiveU64 { value, specialty: U::SpecVersion } => Role::Spec(value.to_string()),
        ParsedData::PrimitiveU128 { value, specialty: U::SpecVersion } => Role::Spec(value.to_string()),
        _ => Role::None,
    }
}

pub fn rules(ext: &[ExtendedData], spec: &str, genesis: Option<H256>) -> Result<(), SE> {
    let (mut era, mut gen, mut block, mut ver) = (None, None, None, None);
    for e in ext {
        match role(e) {
            Role::Era(x) => {
                if era.replace(x).is_some() {
                    return Err(SE::ExtensionsList(ExtensionsError::EraTwice));
                }
            }
            Role::Genesis(x) => {
                if gen.replace(x).is_some() {
                    return Err(SE::ExtensionsList(ExtensionsError::GenesisHashTwice));
                }
            }
            Role::Block(x) => {
                if block.replace(x).is_some() {
                    return Err(SE::ExtensionsList(ExtensionsError::BlockHashTwice));
                }
            }
            Role::Spec(x) => {
                if ver.replace(x).is_some() {
                    return Err(SE::ExtensionsList(ExtensionsError::SpecVersionTwice));
                }
            }
            Role::None => {}
        }
    }
    let Some(ver) = ver else { return Err(SE::ExtensionsList(ExtensionsError::NoSpecVersion)) };
    if ver != spec {
        return Err(SE::WrongSpecVersion { as_decoded: ver, in_metadata: spec.to_string() });
    }
    let Some(gen) = gen else { return Err(SE::ExtensionsList(ExtensionsError::NoGenesisHash)) };
    if let Some(expected) = genesis {
        if gen != expected {
            return Err(SE::WrongGenesisHash { as_decoded: gen, expected });
        }
    }
    if let (Some(Era::Immortal), Some(b)) = (era, block) {
        if b != gen {
            return Err(SE::ImmortalHashMismatch);
        }
    }
    Ok(())
}

#[derive(Debug)]
pub struct Tx {
    pub call: Result<Call, SE>,
    pub ext: Vec<ExtendedData>,
}

pub fn marked_tx(meta: &Meta, data: &[u8], genesis: Option<H256>) -> O<Tx, SE> {
    let Some((cs, es)) = mark(data) else { return O::Err(SE::CutSignable) };
    // nothing is said of a call too big for the model, in whichever order the
    // parts are looked at
    let call = match marked_call(meta, data, cs, es) {
        O::Ok(c) => Ok(c),
        O::Err(e) => Err(e),
        O::Skip => return O::Skip,
    };
    let mut pos = es;
    match extensions(meta, data, &mut pos, genesis) {
        O::Ok(ext) => O::Ok(Tx { call, ext }),
        O::Err(e) => O::Err(e),
        O::Skip => O::Skip,
    }
}

pub fn unmarked_tx(meta: &Meta, data: &[u8], genesis: Option<H256>) -> O<Tx, SE> {
    let mut pos = 0;
    let call = match call_at(meta, data, &mut pos) {
        O::Ok(c) => c,
        O::Err(e) => return O::Err(e),
        O::Skip => return O::Skip,
    };
    match extensions(meta, data, &mut pos, genesis) {
        O::Ok(ext) => O::Ok(Tx { call: Ok(call), ext }),
        O::Err(e) => O::Err(e),
        O::Skip => O::Skip,
    }
}

#[derive(Debug)]
pub struct Xt {
    /// address, signature, extra
    pub parts: Option<[ExtendedData; 3]>,
    pub call: Call,
    /// Where the call ends.
    pub end: usize,
}

/// All but the rule that nothing is left after the call.
pub fn extrinsic(meta: &Meta, data: &[u8]) -> O<Xt, XE> {
    let Some((len, n)) = compact_at(data, 0, 32) else { return O::Err(XE::FormatNoCompact) };
    let end = n + len as usize;
    if end > data.len() {
        return O::Err(XE::Parsing(ParserError::Buffer(BufferError::DataTooShort {
            position: data.len(),
            minimal_length: end - data.len(),
        })));
    }
    if end < data.len() {
        return O::Err(XE::Parsing(ParserError::SomeDataNotUsedBlob { from: end }));
    }
    let mut pos = n;
    let Some(byte) = data.get(pos) else {
        return O::Err(XE::Parsing(ParserError::Buffer(BufferError::DataTooShort { position: pos, minimal_length: 1 })));
    };
    pos += 1;
    if byte & 0x7f != meta.version {
        return O::Err(XE::VersionMismatch { version_byte: *byte, version: meta.version });
    }
    let mut m = Model::new(&meta.reg, data);
    let p = &meta.params;
    let parts = if byte >> 7 == 1 {
        Some([
            get!(m.at(p.address_ty.id, &mut pos), XE::Parsing),
            get!(m.at(p.signature_ty.id, &mut pos), XE::Parsing),
            get!(m.at(p.extra_ty.id, &mut pos), XE::Parsing),
        ])
    } else {
        None
    };
    match get!(m.at(p.call_ty.id, &mut pos), XE::Parsing).data {
        ParsedData::Call(call) => O::Ok(Xt { parts, call, end: pos }),
        _ => O::Err(XE::UnexpectedCallTy { call_ty_id: p.call_ty.id }),
    }
}

pub fn hash_of(h: &StorageHasher, data: &[u8]) -> Vec<u8> {
    match h {
        StorageHasher::Blake2_128 | StorageHasher::Blake2_128Concat => sp_crypto_hashing::blake2_128(data).to_vec(),
        StorageHasher::Blake2_256 => sp_crypto_hashing::blake2_256(data).to_vec(),
        StorageHasher::Twox128 => sp_crypto_hashing::twox_128(data).to_vec(),
        StorageHasher::Twox256 => sp_crypto_hashing::twox_256(data).to_vec(),
        StorageHasher::Twox64Concat => sp_crypto_hashing::twox_64(data).to_vec(),
        StorageHasher::Identity => vec![],
    }
}

pub fn storage(meta: &Meta, key: &[u8], value: &[u8], entry: &StorageEntryMetadata<PortableForm>) -> O<Storage, StorageError<()>> {
    type E = StorageError<()>;
    let docs = entry.docs.join("\n");
    let (kd, vt) = match &entry.ty {
        StorageEntryType::Plain(v) | StorageEntryType::Map { value: v, .. } if key.len() < 32 => (O::Err(E::KeyShorterThanPrefix), v.id),
        StorageEntryType::Plain(v) => (if key.len() == 32 { O::Ok(KeyData::Plain) } else { O::Err(E::PlainKeyExceedsPrefix) }, v.id),
        StorageEntryType::Map { hashers, key: kt, value: v } => (map_key(meta, key, 32, hashers, kt.id), v.id),
    };
    // nothing is said of a value too big for the model, in whichever order
    // key and value are looked at
    let value = match Model::new(&meta.reg, value).all(vt) {
        Err(ME::Skip) => return O::Skip,
        v => v,
    };
    let kd = match kd {
        O::Ok(k) => k,
        O::Err(e) => return O::Err(e),
        O::Skip => return O::Skip,
    };
    let value = get!(value, E::ParsingValue);
    O::Ok(Storage { key: kd, value, docs })
}

pub fn map_key(meta: &Meta, key: &[u8], start: usize, hashers: &[StorageHasher], kt: u32) -> O<KeyData, StorageError<()>> {
    type E = StorageError<()>;
    let mut pos = start;
    let mut parts = vec![];
    let (ids, info) = if hashers.len() == 1 {
        (vec![kt], None)
    } else {
        let Some(t) = meta.reg.types.get(kt as usize) else {
            return O::Err(E::ParsingKey(ParserError::Registry(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id: kt }))));
        };
        let TypeDef::Tuple(tp) = &t.ty.type_def else { return O::Err(E::MultipleHashesNotATuple) };
        if tp.fields.len() != hashers.len() {
            return O::Err(E::MultipleHashesNumberMismatch);
        }
        (tp.fields.iter().map(|f| f.id).collect(), Some(info_of(&t.ty)))
    };
    let mut m = Model::new(&meta.reg, key);
    for (h, id) in hashers.iter().zip(&ids) {
        let n = match h {
            StorageHasher::Identity => 0,
            StorageHasher::Twox64Concat => 8,
            StorageHasher::Blake2_256 | StorageHasher::Twox256 => 32,
            _ => 16,
        };
        let Some(hash) = key.get(pos..pos + n) else {
            return O::Err(E::ParsingKey(ParserError::Buffer(BufferError::DataTooShort { position: pos, minimal_length: n })));
        };
        pos += n;
        let raw = |h: Hash| KeyPart::Hash(HashData { hash: h, type_id: *id });
        parts.push(match h {
            StorageHasher::Blake2_128 => raw(Hash::Blake2_128(hash.try_into().unwrap())),
            StorageHasher::Blake2_256 => raw(Hash::Blake2_256(hash.try_into().unwrap())),
            StorageHasher::Twox128 => raw(Hash::Twox128(hash.try_into().unwrap())),
            StorageHasher::Twox256 => raw(Hash::Twox256(hash.try_into().unwrap())),
            _ => {
                let from = pos;
                let d = get!(m.at(*id, &mut pos), E::ParsingKey);
                if hash_of(h, &key[from..pos]) != hash {
                    return O::Err(E::KeyPartHashMismatch);
                }
                KeyPart::Parsed(d)
            }
        });
    }
    if pos != key.len() {
        return O::Err(E::KeyPartsUnused);
    }
    O::Ok(match info {
        None => KeyData::SingleHash { content: parts.pop().unwrap() },
        Some(info) => KeyData::TupleHash { content: parts, info },
    })
}
