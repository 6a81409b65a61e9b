//! Every error there is, with any values: what its text says. Part of C22.
use crate::mem::{ExtMeta, Mem, MemErr};
use crate::rng::Rng;
use crate::run::{hash_bytes, mix, Local, Runner};
use external_memory_tools::BufferError as BE;
use primitive_types::H256;
use substrate_parser::error::*;

type PE = ParserError<Mem>;
type SE = SignableError<Mem, ExtMeta>;
type UE = UncheckedExtrinsicError<Mem, ExtMeta>;

/// An error: its content, its text, words the text should not do without, texts it must contain.
struct Said {
    debug: String,
    text: String,
    words: &'static [&'static str],
    inner: Vec<String>,
}
fn said(e: &(impl std::fmt::Debug + std::fmt::Display), words: &'static [&'static str], inner: Vec<String>) -> Said {
    Said { debug: format!("{e:?}"), text: e.to_string(), words, inner }
}
macro_rules! put {
    ($out:ident, $e:expr, [$($w:literal),*]) => { $out.push(said(&$e, &[$($w),*], vec![])) };
    ($out:ident, $e:expr, [$($w:literal),*], $($inner:expr),+) => { $out.push(said(&$e, &[$($w),*], vec![$($inner.to_string()),+])) };
}

fn place(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.idx(300),
        1 => u32::MAX as usize - r.idx(3),
        2 => usize::MAX - r.idx(3),
        _ => r.uint(64) as usize,
    }
}
fn id(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => r.below(1000) as u32,
        1 => u32::MAX - r.below(3) as u32,
        _ => r.uint(32) as u32,
    }
}

fn internal(r: &mut Rng) -> RegistryInternalError {
    use RegistryInternalError as I;
    let id = id(r);
    match r.below(7) {
        0 => I::CyclicMetadata { id },
        1 => I::ExtrinsicNoCallParam,
        2 => I::NotBitOrderType { id },
        3 => I::NotBitStoreType { id },
        4 => I::TypeNotResolved { id },
        5 => I::UnexpectedCompactInsides { id },
        _ => I::UnexpectedExtrinsicType { extrinsic_ty_id: id },
    }
}
fn parser(r: &mut Rng) -> PE {
    let (a, b) = (place(r), place(r));
    match r.below(9) {
        0 => PE::Buffer(BE::DataTooShort { position: a, minimal_length: b }),
        1 => PE::Buffer(BE::OutOfRange { position: a, total_length: b }),
        2 => PE::Buffer(BE::External(MemErr(b as u64))),
        3 => PE::Registry(RegistryError::External(MemErr(b as u64))),
        4 => PE::Registry(RegistryError::Internal(internal(r))),
        5 => PE::NoCompact { position: a },
        6 => PE::SomeDataNotUsedBlob { from: a },
        7 => PE::TypeFailure { position: a, ty: r.pick(&["str", "u8", "Era", "H256", "BitVec<u64, Lsb0>", "a b", "x"]) },
        _ => PE::UnexpectedEnumVariant { position: a },
    }
}

fn all(r: &mut Rng) -> Vec<Said> {
    let mut out = vec![];
    // parts
    let k = id(r);
    use RegistryInternalError as I;
    put!(out, I::CyclicMetadata { id: k }, ["type"]);
    put!(out, I::ExtrinsicNoCallParam, ["call"]);
    put!(out, I::NotBitOrderType { id: k }, ["order"]);
    put!(out, I::NotBitStoreType { id: k }, ["store"]);
    put!(out, I::TypeNotResolved { id: k }, ["type"]);
    put!(out, I::UnexpectedCompactInsides { id: k }, ["compact"]);
    put!(out, I::UnexpectedExtrinsicType { extrinsic_ty_id: k }, ["extrinsic"]);
    let (a, b) = (place(r), place(r));
    let (i, e) = (internal(r), MemErr(b as u64));
    put!(out, PE::Buffer(BE::DataTooShort { position: a, minimal_length: b }), ["short"]);
    put!(out, PE::Buffer(BE::OutOfRange { position: a, total_length: b }), ["range"]);
    put!(out, PE::Buffer(BE::External(MemErr(b as u64))), ["external"], e);
    put!(out, PE::Registry(RegistryError::External(MemErr(b as u64))), ["external"], e);
    put!(out, PE::NoCompact { position: a }, ["compact"]);
    put!(out, PE::SomeDataNotUsedBlob { from: a }, ["unused"]);
    put!(out, PE::UnexpectedEnumVariant { position: a }, ["variant"]);
    let ty = r.pick(&["str", "u8", "Era", "H256", "BitVec<u64, Lsb0>", "a b", "x"]);
    put!(out, PE::TypeFailure { position: a, ty }, ["decode"], ty);
    let text = i.to_string();
    put!(out, PE::Registry(RegistryError::Internal(i)), [], text);
    // storage
    type S = StorageError<Mem>;
    put!(out, S::KeyPartHashMismatch, ["hash", "key"]);
    put!(out, S::KeyPartsUnused, ["key", "unused"]);
    put!(out, S::KeyShorterThanPrefix, ["short", "prefix"]);
    put!(out, S::MultipleHashesNotATuple, ["hashers", "tuple"]);
    put!(out, S::MultipleHashesNumberMismatch, ["hashers", "number"]);
    put!(out, S::PlainKeyExceedsPrefix, ["plain", "prefix"]);
    let p = parser(r);
    let t = p.to_string();
    put!(out, S::ParsingKey(p), ["key"], t);
    let p = parser(r);
    let t = p.to_string();
    put!(out, S::ParsingValue(p), ["value"], t);
    // extensions
    use ExtensionsError as X;
    for (x, w) in [
        (X::BlockHashTwice, &["block hash", "more than one"][..]),
        (X::EraTwice, &["era", "more than one"]),
        (X::GenesisHashTwice, &["genesis hash", "more than one"]),
        (X::NoGenesisHash, &["genesis hash", "not"]),
        (X::NoSpecVersion, &["spec version", "not"]),
        (X::SpecVersionTwice, &["spec version", "more than one"]),
    ] {
        out.push(said(&x, w, vec![]));
        let t = x.to_string();
        out.push(said(&SE::ExtensionsList(x), w, vec![t]));
    }
    // metadata
    use MetaVersionErrorPallets as V;
    for (v, w) in [
        (V::NoSpecNameIdentifier, &["no", "spec name"][..]),
        (V::NoSpecVersionIdentifier, &["no", "spec version"]),
        (V::NoSystemPallet, &["no", "system", "pallet"]),
        (V::NoVersionInConstants, &["no", "version", "constant"]),
        (V::RuntimeVersionNotDecodeable, &["version", "decoded"]),
        (V::SpecNameIdentifierTwice, &["spec name", "twice"]),
        (V::SpecVersionIdentifierTwice, &["spec version", "twice"]),
        (V::UnexpectedRuntimeVersionFormat, &["version", "composite"]),
    ] {
        let t = v.to_string();
        out.push(said(&v, w, vec![]));
        out.push(said(&MetaStructureErrorV14::Version(v), w, vec![t]));
    }
    use MetaStructureErrorV14 as M;
    put!(out, M::NoAddressParam, ["no", "address"]);
    put!(out, M::NoCallParam, ["no", "call"]);
    put!(out, M::NoExtraParam, ["no", "extra"]);
    put!(out, M::NoSignatureParam, ["no", "signature"]);
    put!(out, M::UnexpectedExtrinsicType { extrinsic_ty_id: k }, ["extrinsic"]);
    let i = internal(r);
    let t = i.to_string();
    put!(out, M::ExtrinsicTypeNotResolved(i), ["extrinsic"], t);
    // transactions
    put!(out, SE::CutSignable, ["call", "extensions"]);
    put!(out, SE::ImmortalHashMismatch, ["block hash", "genesis", "immortal"]);
    let s = r.text();
    put!(out, SE::MetaStructure(s.clone()), ["metadata"], s);
    put!(out, SE::NotACall(k), ["call"]);
    let p = parser(r);
    let t = p.to_string();
    put!(out, SE::Parsing(p), [], t);
    put!(out, SE::SomeDataNotUsedCall { from: a, to: b }, ["call", "unused"]);
    put!(out, SE::SomeDataNotUsedExtensions { from: a }, ["extensions", "unused"]);
    let (g, h) = (H256(std::array::from_fn(|_| r.byte())), H256(std::array::from_fn(|_| r.byte())));
    put!(out, SE::WrongGenesisHash { as_decoded: g, expected: h }, ["genesis"], hex::encode(g.0), hex::encode(h.0));
    let (x, y) = (r.uint(32).to_string(), r.uint(32).to_string());
    put!(out, SE::WrongSpecVersion { as_decoded: x.clone(), in_metadata: y.clone() }, ["spec version"], x, y);
    // extrinsics
    put!(out, UE::FormatNoCompact, ["extrinsic", "compact"]);
    let s = r.text();
    put!(out, UE::MetaStructure(s.clone()), ["metadata"], s);
    let p = parser(r);
    let t = p.to_string();
    put!(out, UE::Parsing(p), ["extrinsic"], t);
    let (v, w) = (r.below(256) as u8, r.below(256) as u8);
    put!(out, UE::VersionMismatch { version_byte: v, version: w }, ["version"]);
    put!(out, UE::UnexpectedCallTy { call_ty_id: k }, ["call"]);
    out
}

/// Conversions keep the whole error.
fn conversions(r: &mut Rng, st: &mut Local) {
    macro_rules! same {
        ($make:expr, $to:ty, $want:expr) => {{
            let x: $to = $make.into();
            let (a, b) = (format!("{x:?}"), format!("{:?}", $want));
            if a != b {
                st.fail(format!("converted into {a}, should be {b}"));
            }
        }};
    }
    let seed = r.u64();
    let i = || internal(&mut Rng::new(seed));
    let p = || parser(&mut Rng::new(seed));
    same!(i(), RegistryError<Mem>, RegistryError::<Mem>::Internal(i()));
    same!(i(), PE, PE::Registry(RegistryError::Internal(i())));
    same!(RegistryError::Internal(i()), PE, PE::Registry(RegistryError::Internal(i())));
    same!(RegistryError::External(MemErr(seed)), PE, PE::Registry(RegistryError::External(MemErr(seed))));
    same!(BE::External(MemErr(seed)), PE, PE::Buffer(BE::External(MemErr(seed))));
    let (a, b) = (place(r), place(r));
    same!(BE::DataTooShort { position: a, minimal_length: b }, PE, PE::Buffer(BE::DataTooShort { position: a, minimal_length: b }));
    same!(BE::OutOfRange { position: a, total_length: b }, PE, PE::Buffer(BE::OutOfRange { position: a, total_length: b }));
    same!(p(), SE, SE::Parsing(p()));
    same!(p(), UE, UE::Parsing(p()));
    same!(i(), MetaStructureErrorV14, MetaStructureErrorV14::ExtrinsicTypeNotResolved(i()));
    same!(RegistryError::<()>::Internal(i()), MetaStructureErrorV14, MetaStructureErrorV14::ExtrinsicTypeNotResolved(i()));
    same!(MetaVersionErrorPallets::NoSystemPallet, MetaStructureErrorV14, MetaStructureErrorV14::Version(MetaVersionErrorPallets::NoSystemPallet));
}

pub fn stage(run: &Runner) {
    run.stage("texts", run.cfg.n(1_500), |r, c, st| {
        let mut seen: std::collections::HashMap<String, String> = Default::default();
        for s in all(r) {
            if let Err(e) = super::tx::told(&s.text, &s.debug) {
                // what is inside is looked at on its own
                if s.inner.is_empty() {
                    st.fail(e);
                }
            }
            let low = s.text.to_lowercase();
            for w in s.words {
                if !low.contains(w) {
                    st.fail(format!("{} is told as {:?}, which says nothing about {w:?}", s.debug, s.text));
                }
            }
            for i in &s.inner {
                if !s.text.contains(i.as_str()) {
                    st.fail(format!("{} is told as {:?}, without {i:?}", s.debug, s.text));
                }
            }
            // errors of one kind of operation are told apart; one that holds another may repeat it
            if s.inner.is_empty() {
                if let Some(other) = seen.get(&s.text) {
                    let name = |d: &str| d.rsplit("::").next().unwrap_or(d).to_string();
                    // the same trouble under two names
                    if name(other) != name(&s.debug) {
                        st.fail(format!("{} and {other} are both told as {:?}", s.debug, s.text));
                    }
                }
                seen.insert(s.text.clone(), s.debug.clone());
            }
            st.class("text");
            st.eval(mix(hash_bytes(s.debug.as_bytes()), c));
            st.sample(|| format!("{} => {}", s.debug, s.text));
        }
        conversions(r, st);
    });
}
