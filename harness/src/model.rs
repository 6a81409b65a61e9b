//! Reference decoder, written independently over plain slices: what the result or error should be.
use bitvec::prelude::{BitVec, Lsb0, Msb0};
use external_memory_tools::BufferError;
use num_bigint::{BigInt, BigUint};
use primitive_types::{H160, H256, H512};
use scale_info::{form::PortableForm, Field, PortableRegistry, Type, TypeDef, TypeDefPrimitive as P, Variant};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_crypto_light::{common::AccountId32, ecdsa, ed25519, sr25519};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::{
    Call, Event, ExtendedData, FieldData, Info, PalletSpecificData, ParsedData, Sequence, SequenceData,
    SequenceRawData, VariantData,
};
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError as RI};
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as U};

#[derive(Debug, PartialEq)]
pub enum ME {
    P(ParserError<()>),
    /// The model gave up: too many steps or too deep.
    Skip,
}
pub type R<T> = Result<T, ME>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tag {
    None,
    /// Number specialty, allowed to survive multi-field containers only for asset tips.
    Num(U),
    SpecName,
    Genesis,
    Block,
}

#[derive(Clone, Debug)]
pub struct St {
    pub compact_at: Option<u32>,
    pub tag: Tag,
    pub seen: Vec<u32>,
}
impl St {
    pub fn new() -> Self {
        St { compact_at: None, tag: Tag::None, seen: vec![] }
    }
    pub fn ext(identifier: &str) -> Self {
        St { compact_at: None, tag: tag_of_ext(identifier), seen: vec![] }
    }
    fn no_compact(&self) -> R<()> {
        match self.compact_at {
            Some(id) => Err(reg(RI::UnexpectedCompactInsides { id })),
            None => Ok(()),
        }
    }
    fn visit(&mut self, id: u32) -> R<()> {
        if self.seen.contains(&id) {
            return Err(reg(RI::CyclicMetadata { id }));
        }
        self.seen.push(id);
        Ok(())
    }
    fn forget(&mut self) {
        if self.tag != Tag::Num(U::TipAsset) {
            self.tag = Tag::None
        }
    }
}

pub fn tag_of_ext(identifier: &str) -> Tag {
    match identifier {
        "CheckSpecVersion" => Tag::Num(U::SpecVersion),
        "CheckTxVersion" => Tag::Num(U::TxVersion),
        "CheckGenesis" => Tag::Genesis,
        "CheckMortality" => Tag::Block,
        "CheckNonce" => Tag::Num(U::Nonce),
        "ChargeAssetTxPayment" => Tag::Num(U::TipAsset),
        "ChargeTransactionPayment" => Tag::Num(U::Tip),
        _ => Tag::None,
    }
}
pub fn tag_of_field(f: &Field<PortableForm>) -> Tag {
    let t = match f.name.as_deref() {
        Some("nonce") => Tag::Num(U::Nonce),
        Some("spec_version") => Tag::Num(U::SpecVersion),
        Some("spec_name") => Tag::SpecName,
        Some("tx_version") | Some("transaction_version") => Tag::Num(U::TxVersion),
        _ => Tag::None,
    };
    if t != Tag::None {
        return t;
    }
    match f.type_name.as_deref() {
        Some("Balance") | Some("BalanceOf<T>") | Some("BalanceOf<T, I>") | Some("DepositBalance")
        | Some("ExtendedBalance") | Some("PalletBalanceOf<T>") | Some("T::Balance") => Tag::Num(U::Balance),
        _ => Tag::None,
    }
}
pub fn tag_of_path(ty: &Type<PortableForm>) -> Tag {
    match ty.path.segments.last().map(|s| s.as_str()) {
        Some("CheckNonce") => Tag::Num(U::Nonce),
        Some("ChargeAssetTxPayment") => Tag::Num(U::TipAsset),
        Some("ChargeTransactionPayment") => Tag::Num(U::Tip),
        _ => Tag::None,
    }
}

fn reg(e: RI) -> ME {
    ME::P(ParserError::Registry(RegistryError::Internal(e)))
}
pub fn short(position: usize, minimal_length: usize) -> ME {
    ME::P(ParserError::Buffer(BufferError::DataTooShort { position, minimal_length }))
}
pub fn fail(position: usize, ty: &'static str) -> ME {
    ME::P(ParserError::TypeFailure { position, ty })
}

/// Special types by path.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sp {
    None,
    Id,
    Call,
    Event,
    Era,
    H160,
    H256,
    H512,
    MultiSig,
    PerU16,
    Percent,
    Permill,
    Perbill,
    Perquintill,
    PubEd,
    PubSr,
    PubEc,
    SigEd,
    SigSr,
    SigEc,
    Unchecked,
}
pub fn special(ty: &Type<PortableForm>) -> Sp {
    let s: Vec<&str> = ty.path.segments.iter().map(|x| x.as_str()).collect();
    let Some((last, ns)) = s.split_last() else { return Sp::None };
    match (*last, ns) {
        ("AccountId32", _) => Sp::Id,
        ("Call", _) | ("RuntimeCall", _) => Sp::Call,
        ("Event", _) | ("RuntimeEvent", _) => Sp::Event,
        ("Era", _) => Sp::Era,
        ("H160", _) | ("AccountId20", _) => Sp::H160,
        ("H256", _) => Sp::H256,
        ("H512", _) => Sp::H512,
        ("MultiSignature", _) => Sp::MultiSig,
        ("PerU16", _) => Sp::PerU16,
        ("Percent", _) => Sp::Percent,
        ("Permill", _) => Sp::Permill,
        ("Perbill", _) => Sp::Perbill,
        ("Perquintill", _) => Sp::Perquintill,
        ("Public", ["sp_core", "ed25519"]) => Sp::PubEd,
        ("Public", ["sp_core", "sr25519"]) => Sp::PubSr,
        ("Public", ["sp_core", "ecdsa"]) => Sp::PubEc,
        ("Signature", ["sp_core", "ed25519"]) => Sp::SigEd,
        ("Signature", ["sp_core", "sr25519"]) => Sp::SigSr,
        ("Signature", ["sp_core", "ecdsa"]) => Sp::SigEc,
        ("UncheckedExtrinsic", ["sp_runtime", "generic", "unchecked_extrinsic"]) => Sp::Unchecked,
        _ => Sp::None,
    }
}

pub fn info_of(ty: &Type<PortableForm>) -> Info {
    Info { docs: ty.docs.join("\n"), path: ty.path.clone() }
}
fn push_info(v: &mut Vec<Info>, i: Info) {
    if !(i.docs.is_empty() && i.path.segments.is_empty()) {
        v.push(i)
    }
}

/// Canonical compact at `pos` limited to `bits`: value and length. Independent of the codec crate.
pub fn compact_at(data: &[u8], pos: usize, bits: u32) -> Option<(u128, usize)> {
    let d = data.get(pos..)?;
    let b0 = *d.first()?;
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let (v, n) = match b0 & 3 {
        0 => ((b0 >> 2) as u128, 1),
        1 => {
            let v = (u16::from_le_bytes(d.get(..2)?.try_into().unwrap()) >> 2) as u128;
            if v < 64 {
                return None;
            }
            (v, 2)
        }
        2 => {
            let v = (u32::from_le_bytes(d.get(..4)?.try_into().unwrap()) >> 2) as u128;
            if v < 1 << 14 {
                return None;
            }
            (v, 4)
        }
        _ => {
            let k = (b0 >> 2) as usize + 4;
            if k > 16 {
                return None;
            }
            let b = d.get(1..1 + k)?;
            if b[k - 1] == 0 {
                return None;
            }
            let mut a = [0u8; 16];
            a[..k].copy_from_slice(b);
            let v = u128::from_le_bytes(a);
            if v < 1 << 30 {
                return None;
            }
            (v, k + 1)
        }
    };
    if v > max {
        None
    } else {
        Some((v, n))
    }
}

thread_local! {
    static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Steps of all models of this thread so far.
pub fn steps_total() -> u64 {
    STEPS.with(|s| s.get())
}

pub struct Model<'a> {
    pub reg: &'a PortableRegistry,
    pub data: &'a [u8],
    pub steps: u64,
    pub max_steps: u64,
    pub max_depth: u32,
    /// Deepest nesting seen.
    pub depth_seen: u32,
}

impl<'a> Model<'a> {
    pub fn new(reg: &'a PortableRegistry, data: &'a [u8]) -> Self {
        Model { reg, data, steps: 0, max_steps: 200_000, max_depth: 1500, depth_seen: 0 }
    }
    fn ty(&self, id: u32) -> R<&'a Type<PortableForm>> {
        self.reg.types.get(id as usize).map(|t| &t.ty).ok_or(reg(RI::TypeNotResolved { id }))
    }
    fn take(&self, pos: &mut usize, n: usize) -> R<&'a [u8]> {
        if *pos > self.data.len() {
            return Err(ME::P(ParserError::Buffer(BufferError::OutOfRange { position: *pos, total_length: self.data.len() })));
        }
        if self.data.len() - *pos < n {
            return Err(short(*pos, n));
        }
        let s = &self.data[*pos..*pos + n];
        *pos += n;
        Ok(s)
    }
    fn compact(&self, pos: &mut usize, bits: u32) -> R<u128> {
        self.take(&mut pos.clone(), 0)?;
        match compact_at(self.data, *pos, bits) {
            Some((v, n)) => {
                *pos += n;
                Ok(v)
            }
            None => Err(ME::P(ParserError::NoCompact { position: *pos })),
        }
    }

    /// The type reached through single-field structs and compacts.
    pub fn husk_of(&self, id: u32) -> R<(&'a Type<PortableForm>, u32)> {
        self.husk(id, vec![]).map(|x| (x.0, x.1))
    }
    pub fn all(&mut self, id: u32) -> R<ExtendedData> {
        let mut pos = 0;
        let r = self.at(id, &mut pos)?;
        if pos != self.data.len() {
            return Err(ME::P(ParserError::SomeDataNotUsedBlob { from: pos }));
        }
        Ok(r)
    }
    pub fn at(&mut self, id: u32, pos: &mut usize) -> R<ExtendedData> {
        self.sym(id, pos, St::new(), vec![], 0)
    }
    pub fn ext(&mut self, id: u32, identifier: &str, pos: &mut usize) -> R<ExtendedData> {
        self.sym(id, pos, St::ext(identifier), vec![], 0)
    }
    pub fn sym(&mut self, id: u32, pos: &mut usize, st: St, info: Vec<Info>, depth: u32) -> R<ExtendedData> {
        let t = self.ty(id)?;
        self.node(t, id, pos, st, info, depth)
    }

    fn uint(&mut self, pos: &mut usize, st: &St, bits: u32) -> R<(u128, U)> {
        let u = if let Tag::Num(u) = st.tag { u } else { U::None };
        let v = if st.compact_at.is_some() {
            self.compact(pos, bits)?
        } else {
            let b = self.take(pos, bits as usize / 8)?;
            let mut a = [0u8; 16];
            a[..b.len()].copy_from_slice(b);
            u128::from_le_bytes(a)
        };
        Ok((v, u))
    }
    fn per(&mut self, pos: &mut usize, st: &St, bits: u32, max: u128, ty: &'static str) -> R<u128> {
        let start = *pos;
        if st.compact_at.is_some() {
            // runtime semantics: compact per-things saturate
            return Ok(self.compact(pos, bits)?.min(max));
        }
        let (v, _) = self.uint(pos, &St::new(), bits)?;
        if v > max {
            *pos = start;
            return Err(fail(start, ty));
        }
        Ok(v)
    }

    pub fn node(&mut self, t: &'a Type<PortableForm>, id: u32, pos: &mut usize, st: St, mut info: Vec<Info>, depth: u32) -> R<ExtendedData> {
        self.steps += 1;
        STEPS.with(|s| s.set(s.get() + 1));
        self.depth_seen = self.depth_seen.max(depth);
        if self.steps > self.max_steps || depth > self.max_depth {
            return Err(ME::Skip);
        }
        push_info(&mut info, info_of(t));
        macro_rules! fixed {
            ($variant:ident, $make:expr, $n:expr) => {{
                st.no_compact()?;
                let b = self.take(pos, $n)?;
                ParsedData::$variant($make(b.try_into().unwrap()))
            }};
        }
        let data = match special(t) {
            Sp::None | Sp::Unchecked => return self.plain(t, id, pos, st, info, depth),
            Sp::Id => fixed!(Id, AccountId32, 32),
            Sp::H160 => fixed!(H160, H160, 20),
            Sp::H512 => fixed!(H512, H512, 64),
            Sp::H256 => {
                st.no_compact()?;
                let h = H256(self.take(pos, 32)?.try_into().unwrap());
                match st.tag {
                    Tag::Genesis => ParsedData::GenesisHash(h),
                    Tag::Block => ParsedData::BlockHash(h),
                    _ => ParsedData::H256(h),
                }
            }
            Sp::PubEd => fixed!(PublicEd25519, ed25519::Public, 32),
            Sp::PubSr => fixed!(PublicSr25519, sr25519::Public, 32),
            Sp::PubEc => fixed!(PublicEcdsa, ecdsa::Public, 33),
            Sp::SigEd => fixed!(SignatureEd25519, ed25519::Signature, 64),
            Sp::SigSr => fixed!(SignatureSr25519, sr25519::Signature, 64),
            Sp::SigEc => fixed!(SignatureEcdsa, ecdsa::Signature, 65),
            Sp::PerU16 => ParsedData::PerU16(PerU16::from_parts(self.per(pos, &st, 16, 65535, "PerU16")? as u16)),
            Sp::Percent => ParsedData::Percent(Percent::from_parts(self.per(pos, &st, 8, 100, "Percent")? as u8)),
            Sp::Permill => ParsedData::Permill(Permill::from_parts(self.per(pos, &st, 32, 1_000_000, "Permill")? as u32)),
            Sp::Perbill => ParsedData::Perbill(Perbill::from_parts(self.per(pos, &st, 32, 1_000_000_000, "Perbill")? as u32)),
            Sp::Perquintill => ParsedData::Perquintill(Perquintill::from_parts(
                self.per(pos, &st, 64, 1_000_000_000_000_000_000, "Perquintill")? as u64,
            )),
            Sp::Era => {
                st.no_compact()?;
                ParsedData::Era(self.era(pos)?)
            }
            Sp::MultiSig => match self.signature_variant(t, *pos) {
                Some(sig) => {
                    *pos += 1;
                    match sig {
                        Sp::SigEd => fixed!(SignatureEd25519, ed25519::Signature, 64),
                        Sp::SigSr => fixed!(SignatureSr25519, sr25519::Signature, 64),
                        _ => fixed!(SignatureEcdsa, ecdsa::Signature, 65),
                    }
                }
                None => return self.plain(t, id, pos, st, info, depth),
            },
            kind @ (Sp::Call | Sp::Event) => match self.pallet_variant(t, kind, *pos) {
                Some((pallet_name, inner)) => {
                    *pos += 1;
                    st.no_compact()?;
                    let TypeDef::Variant(iv) = &inner.type_def else { unreachable!() };
                    let v = self.variant(&iv.variants, pos, depth)?;
                    let d = PalletSpecificData {
                        pallet_info: info_of(inner),
                        variant_docs: v.variant_docs,
                        pallet_name,
                        variant_name: v.variant_name,
                        fields: v.fields,
                    };
                    if kind == Sp::Call {
                        ParsedData::Call(Call(d))
                    } else {
                        ParsedData::Event(Event(d))
                    }
                }
                None => return self.plain(t, id, pos, st, info, depth),
            },
        };
        Ok(ExtendedData { data, info })
    }

    pub fn pick(&self, vs: &'a [Variant<PortableForm>], pos: usize) -> Option<&'a Variant<PortableForm>> {
        let b = *self.data.get(pos)?;
        vs.iter().find(|v| v.index == b)
    }

    pub fn pallet_variant(&self, t: &'a Type<PortableForm>, kind: Sp, pos: usize) -> Option<(String, &'a Type<PortableForm>)> {
        let TypeDef::Variant(x) = &t.type_def else { return None };
        let v = self.pick(&x.variants, pos)?;
        let [f] = &v.fields[..] else { return None };
        let inner = self.ty(f.ty.id).ok()?;
        if special(inner) != kind {
            return None;
        }
        let TypeDef::Variant(_) = &inner.type_def else { return None };
        Some((v.name.clone(), inner))
    }

    pub fn signature_variant(&self, t: &'a Type<PortableForm>, pos: usize) -> Option<Sp> {
        let TypeDef::Variant(x) = &t.type_def else { return None };
        let v = self.pick(&x.variants, pos)?;
        let [f] = &v.fields[..] else { return None };
        let (ty, _, _, _) = self.husk(f.ty.id, vec![]).ok()?;
        let TypeDef::Array(a) = &ty.type_def else { return None };
        let TypeDef::Primitive(P::U8) = &self.ty(a.type_param.id).ok()?.type_def else { return None };
        match (f.type_name.as_deref()?, a.len) {
            ("ecdsa::Signature", 65) => Some(Sp::SigEc),
            ("ed25519::Signature", 64) => Some(Sp::SigEd),
            ("sr25519::Signature", 64) => Some(Sp::SigSr),
            _ => None,
        }
    }

    fn era(&self, pos: &mut usize) -> R<Era> {
        let start = *pos;
        let b0 = self.take(&mut start.clone(), 1)?[0];
        if b0 == 0 {
            *pos += 1;
            return Ok(Era::Immortal);
        }
        let b = self.take(&mut start.clone(), 2)?;
        let code = b[0] as u64 | (b[1] as u64) << 8;
        let period = 1u64 << ((code & 15) + 1);
        let q = if period > 4096 { period / 4096 } else { 1 };
        let phase = (code / 16) * q;
        if period < 4 || phase >= period {
            return Err(fail(start, "Era"));
        }
        *pos += 2;
        Ok(Era::Mortal(period, phase))
    }

    fn fields(&mut self, fs: &'a [Field<PortableForm>], pos: &mut usize, mut st: St, depth: u32) -> R<Vec<FieldData>> {
        if fs.len() > 1 {
            st.no_compact()?;
            st.forget();
        }
        let mut out = vec![];
        for f in fs {
            let mut s = st.clone();
            if s.tag == Tag::None {
                s.tag = tag_of_field(f);
            }
            s.visit(f.ty.id)?;
            let data = self.sym(f.ty.id, pos, s, vec![], depth + 1)?;
            out.push(FieldData {
                field_name: f.name.clone(),
                type_name: f.type_name.clone(),
                field_docs: f.docs.join("\n"),
                data,
            });
        }
        Ok(out)
    }

    fn variant(&mut self, vs: &'a [Variant<PortableForm>], pos: &mut usize, depth: u32) -> R<VariantData> {
        if *pos >= self.data.len() {
            self.take(pos, 1)?;
        }
        let v = self.pick(vs, *pos).ok_or(ME::P(ParserError::UnexpectedEnumVariant { position: *pos }))?;
        *pos += 1;
        Ok(VariantData {
            variant_name: v.name.clone(),
            variant_docs: v.docs.join("\n"),
            fields: self.fields(&v.fields, pos, St::new(), depth)?,
        })
    }

    /// Element type without single-field wrappers.
    pub fn husk(&self, id: u32, seen: Vec<u32>) -> R<(&'a Type<PortableForm>, u32, St, Vec<Info>)> {
        let mut st = St { compact_at: None, tag: Tag::None, seen };
        st.visit(id)?;
        let mut id = id;
        let mut ty = self.ty(id)?;
        let mut info = vec![];
        loop {
            push_info(&mut info, info_of(ty));
            if special(ty) != Sp::None {
                break;
            }
            match &ty.type_def {
                TypeDef::Composite(c) if c.fields.len() == 1 => {
                    let f = &c.fields[0];
                    id = f.ty.id;
                    st.visit(id)?;
                    ty = self.ty(id)?;
                    if st.tag == Tag::None {
                        st.tag = tag_of_field(f);
                    }
                }
                TypeDef::Compact(c) => {
                    st.no_compact()?;
                    st.compact_at = Some(id);
                    id = c.type_param.id;
                    st.visit(id)?;
                    ty = self.ty(id)?;
                }
                _ => break,
            }
        }
        Ok((ty, id, st, info))
    }

    fn elements(&mut self, elem: u32, n: u32, pos: &mut usize, st: St, depth: u32) -> R<ParsedData> {
        st.no_compact()?;
        let (ty, id, est, element_info) = self.husk(elem, st.seen)?;
        let mut out = vec![];
        for _ in 0..n {
            out.push(self.node(ty, id, pos, est.clone(), vec![], depth + 1)?.data);
        }
        Ok(match wrap(&out) {
            Some(data) => ParsedData::Sequence(SequenceData { element_info, data }),
            None => ParsedData::SequenceRaw(SequenceRawData { element_info, data: out }),
        })
    }

    fn plain(&mut self, t: &'a Type<PortableForm>, id: u32, pos: &mut usize, mut st: St, info: Vec<Info>, depth: u32) -> R<ExtendedData> {
        let data = match &t.type_def {
            TypeDef::Composite(c) => ParsedData::Composite(self.fields(&c.fields, pos, st, depth)?),
            TypeDef::Variant(v) => {
                st.no_compact()?;
                if v.variants.is_empty() {
                    ParsedData::EmptyEnum
                } else {
                    ParsedData::Variant(self.variant(&v.variants, pos, depth)?)
                }
            }
            TypeDef::Sequence(s) => {
                let n = self.compact(pos, 32)? as u32;
                st.seen.clear();
                self.elements(s.type_param.id, n, pos, st, depth)?
            }
            TypeDef::Array(a) => self.elements(a.type_param.id, a.len, pos, st, depth)?,
            TypeDef::Tuple(tp) => {
                if tp.fields.len() > 1 {
                    st.no_compact()?;
                    st.forget();
                }
                let mut out = vec![];
                for f in &tp.fields {
                    let ty = self.ty(f.id)?;
                    let mut s = st.clone();
                    s.visit(f.id)?;
                    if s.tag == Tag::None {
                        s.tag = tag_of_path(ty);
                    }
                    out.push(self.node(ty, f.id, pos, s, vec![], depth + 1)?);
                }
                ParsedData::Tuple(out)
            }
            TypeDef::Compact(c) => {
                st.no_compact()?;
                st.compact_at = Some(id);
                st.visit(c.type_param.id)?;
                return self.sym(c.type_param.id, pos, st, info, depth + 1);
            }
            TypeDef::BitSequence(b) => {
                st.no_compact()?;
                self.bits(id, b.bit_order_type.id, b.bit_store_type.id, pos)?
            }
            TypeDef::Primitive(p) => self.prim(p, pos, &st)?,
        };
        Ok(ExtendedData { data, info })
    }

    fn prim(&mut self, p: &P, pos: &mut usize, st: &St) -> R<ParsedData> {
        macro_rules! un {
            ($variant:ident, $t:ty, $bits:expr) => {{
                let (v, specialty) = self.uint(pos, st, $bits)?;
                ParsedData::$variant { value: v as $t, specialty }
            }};
        }
        macro_rules! int {
            ($variant:ident, $t:ty, $n:expr) => {{
                st.no_compact()?;
                let b = self.take(pos, $n)?;
                ParsedData::$variant(<$t>::from_le_bytes(b.try_into().unwrap()))
            }};
        }
        Ok(match p {
            P::Bool => {
                st.no_compact()?;
                let start = *pos;
                match self.take(pos, 1)?[0] {
                    0 => ParsedData::PrimitiveBool(false),
                    1 => ParsedData::PrimitiveBool(true),
                    _ => return Err(fail(start, "bool")),
                }
            }
            P::Char => {
                st.no_compact()?;
                let start = *pos;
                let v = u32::from_le_bytes(self.take(pos, 4)?.try_into().unwrap());
                if v > 0x10ffff || (0xd800..0xe000).contains(&v) {
                    return Err(fail(start, "char"));
                }
                ParsedData::PrimitiveChar(char::from_u32(v).unwrap())
            }
            P::Str => {
                st.no_compact()?;
                let start = *pos;
                let n = self.compact(pos, 32)? as usize;
                let b = self.take(pos, n)?;
                let Ok(text) = std::str::from_utf8(b) else { return Err(fail(start, "str")) };
                let specialty = if st.tag == Tag::SpecName { SpecialtyStr::SpecName } else { SpecialtyStr::None };
                ParsedData::Text { text: text.to_string(), specialty }
            }
            P::U8 => un!(PrimitiveU8, u8, 8),
            P::U16 => un!(PrimitiveU16, u16, 16),
            P::U32 => un!(PrimitiveU32, u32, 32),
            P::U64 => un!(PrimitiveU64, u64, 64),
            P::U128 => un!(PrimitiveU128, u128, 128),
            P::U256 => {
                st.no_compact()?;
                ParsedData::PrimitiveU256(BigUint::from_bytes_le(self.take(pos, 32)?))
            }
            P::I8 => int!(PrimitiveI8, i8, 1),
            P::I16 => int!(PrimitiveI16, i16, 2),
            P::I32 => int!(PrimitiveI32, i32, 4),
            P::I64 => int!(PrimitiveI64, i64, 8),
            P::I128 => int!(PrimitiveI128, i128, 16),
            P::I256 => {
                st.no_compact()?;
                ParsedData::PrimitiveI256(BigInt::from_signed_bytes_le(self.take(pos, 32)?))
            }
        })
    }

    fn bits(&mut self, id: u32, order: u32, store: u32, pos: &mut usize) -> R<ParsedData> {
        let start = *pos;
        let o = self.ty(order)?;
        let lsb = match (&o.type_def, o.path.segments.last().map(|s| s.as_str())) {
            (TypeDef::Composite(_), Some("Lsb0")) => true,
            (TypeDef::Composite(_), Some("Msb0")) => false,
            _ => return Err(reg(RI::NotBitOrderType { id })),
        };
        let (w, name) = match (&self.ty(store)?.type_def, lsb) {
            (TypeDef::Primitive(P::U8), true) => (8usize, "BitVec<u8, Lsb0>"),
            (TypeDef::Primitive(P::U16), true) => (16, "BitVec<u16, Lsb0>"),
            (TypeDef::Primitive(P::U32), true) => (32, "BitVec<u32, Lsb0>"),
            (TypeDef::Primitive(P::U64), true) => (64, "BitVec<u64, Lsb0>"),
            (TypeDef::Primitive(P::U8), false) => (8, "BitVec<u8, Msb0>"),
            (TypeDef::Primitive(P::U16), false) => (16, "BitVec<u16, Msb0>"),
            (TypeDef::Primitive(P::U32), false) => (32, "BitVec<u32, Msb0>"),
            (TypeDef::Primitive(P::U64), false) => (64, "BitVec<u64, Msb0>"),
            _ => return Err(reg(RI::NotBitStoreType { id })),
        };
        let n = self.compact(pos, 32)? as usize;
        let elems = n.div_ceil(w);
        let need = *pos - start + elems * w / 8;
        if self.data.len() - start < need {
            *pos = start;
            return Err(short(start, need));
        }
        let body = self.take(pos, elems * w / 8)?;
        if n > 0x1fff_ffff {
            return Err(fail(start, name));
        }
        let bit = |i: usize| -> bool {
            let e = i / w;
            let k = i % w;
            // element as little-endian number; bit k counted from the low or from the high end
            let k = if lsb { k } else { w - 1 - k };
            body[e * w / 8 + k / 8] >> (k % 8) & 1 == 1
        };
        macro_rules! mk {
            ($variant:ident, $t:ty, $o:ty) => {
                ParsedData::$variant((0..n).map(bit).collect::<BitVec<$t, $o>>())
            };
        }
        Ok(match (w, lsb) {
            (8, true) => mk!(BitVecU8Lsb0, u8, Lsb0),
            (16, true) => mk!(BitVecU16Lsb0, u16, Lsb0),
            (32, true) => mk!(BitVecU32Lsb0, u32, Lsb0),
            #[cfg(target_pointer_width = "64")]
            (_, true) => mk!(BitVecU64Lsb0, u64, Lsb0),
            #[cfg(target_pointer_width = "32")]
            (_, true) => mk!(BitVecU64Lsb0, u32, Lsb0),
            (8, false) => mk!(BitVecU8Msb0, u8, Msb0),
            (16, false) => mk!(BitVecU16Msb0, u16, Msb0),
            (32, false) => mk!(BitVecU32Msb0, u32, Msb0),
            #[cfg(target_pointer_width = "64")]
            (_, false) => mk!(BitVecU64Msb0, u64, Msb0),
            #[cfg(target_pointer_width = "32")]
            (_, false) => mk!(BitVecU64Msb0, u32, Msb0),
        })
    }
}

fn wrap(set: &[ParsedData]) -> Option<Sequence> {
    macro_rules! col {
        ($variant:ident, $out:ident) => {{
            let mut v = vec![];
            for x in set {
                if let ParsedData::$variant { value, specialty: U::None } = x {
                    v.push(*value)
                } else {
                    return None;
                }
            }
            Some(Sequence::$out(v))
        }};
    }
    match set.first()? {
        ParsedData::PrimitiveU8 { .. } => col!(PrimitiveU8, U8),
        ParsedData::PrimitiveU16 { .. } => col!(PrimitiveU16, U16),
        ParsedData::PrimitiveU32 { .. } => col!(PrimitiveU32, U32),
        ParsedData::PrimitiveU64 { .. } => col!(PrimitiveU64, U64),
        ParsedData::PrimitiveU128 { .. } => col!(PrimitiveU128, U128),
        ParsedData::Sequence(SequenceData { data: Sequence::U8(_), element_info }) => {
            let mut out = vec![];
            for x in set {
                match x {
                    ParsedData::Sequence(SequenceData { data: Sequence::U8(b), element_info: e }) if e == element_info => {
                        out.push(b.clone())
                    }
                    ParsedData::SequenceRaw(r) if r.data.is_empty() => out.push(vec![]),
                    _ => return None,
                }
            }
            Some(Sequence::VecU8 { sequence: out, inner_element_info: element_info.clone() })
        }
        _ => None,
    }
}
