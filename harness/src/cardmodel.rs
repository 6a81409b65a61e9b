//! What cards and texts of a parsed item should be, written independently.
use crate::dict;
use crate::gen::{docs, field_name, type_name};
use crate::props::exact::balance_right;
use crate::rng::Rng;
use crate::val::{i256_bytes, u256_bytes};
use num_bigint::{BigInt, BigUint};
use primitive_types::{H160, H256, H512};
use scale_info::{form::PortableForm, Path};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_crypto_light::{common::AccountId32, ecdsa, ed25519, sr25519};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::{
    Call, Event, ExtendedCard, ExtendedData, FieldData, Info, InfoFlat, PalletSpecificData, ParsedData, ParserCard, Sequence,
    SequenceData, SequenceRawData, VariantData,
};
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as U};
use substrate_parser::ShortSpecs;

pub type FI = (Option<String>, Option<String>);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pay {
    Nothing,
    Text(String),
    Money(u128),
    Key(Vec<u8>),
    Bits(Vec<bool>),
    Bytes(Vec<u8>),
    Count(usize),
    Era(Option<(u64, u64)>),
    Chain(String, String),
}

/// One expected card.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MC {
    pub indent: u32,
    pub kind: &'static str,
    pub pay: Pay,
    pub elem: Vec<FI>,
    pub info: Vec<FI>,
}

pub struct Cx<'a> {
    pub spec_name: &'a str,
    pub out: Vec<MC>,
}

fn fi(i: &Info) -> FI {
    let s = &i.path.segments;
    let mut p = String::new();
    for (k, x) in s.iter().enumerate() {
        if k > 0 {
            p.push_str(" >> ");
        }
        p.push_str(x);
    }
    (if i.docs.is_empty() { None } else { Some(i.docs.clone()) }, if s.is_empty() { None } else { Some(p) })
}
fn fis(v: &[Info]) -> Vec<FI> {
    v.iter().map(fi).collect()
}
fn doc(d: &str) -> Vec<FI> {
    if d.is_empty() {
        vec![]
    } else {
        vec![(Some(d.to_string()), None)]
    }
}

/// Decimal text of a little-endian unsigned number, by long division.
pub fn decimal(le: &[u8]) -> String {
    let mut n: Vec<u8> = le.iter().rev().copied().collect();
    let mut digits = vec![];
    while n.iter().any(|b| *b != 0) {
        let mut rem = 0u32;
        for b in n.iter_mut() {
            let x = rem * 256 + *b as u32;
            *b = (x / 10) as u8;
            rem = x % 10;
        }
        digits.push((b'0' + rem as u8) as char);
    }
    if digits.is_empty() {
        digits.push('0')
    }
    digits.iter().rev().collect()
}
fn signed(le: &[u8]) -> String {
    if le[le.len() - 1] & 0x80 == 0 {
        return decimal(le);
    }
    let mut a = le.to_vec();
    for b in a.iter_mut() {
        *b = !*b;
    }
    for b in a.iter_mut() {
        let (x, c) = b.overflowing_add(1);
        *b = x;
        if !c {
            break;
        }
    }
    format!("-{}", decimal(&a))
}
pub fn hex(b: &[u8]) -> String {
    let d = b"0123456789abcdef";
    b.iter().flat_map(|x| [d[(x >> 4) as usize] as char, d[(x & 15) as usize] as char]).collect()
}

/// SS58 text of a key.
pub fn ss58(key: &[u8], prefix: u16) -> String {
    let p = prefix & 0x3fff;
    let mut d = vec![];
    if p < 64 {
        d.push(p as u8)
    } else {
        d.push(((p & 0xfc) >> 2) as u8 | 0x40);
        d.push((p >> 8) as u8 | ((p & 3) << 6) as u8);
    }
    d.extend(key);
    let mut h = b"SS58PRE".to_vec();
    h.extend(&d);
    let h = sp_crypto_hashing::blake2_512(&h);
    d.extend(&h[..2]);
    // base 58
    let abc = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let zeros = d.iter().take_while(|b| **b == 0).count();
    let mut n = d;
    let mut out = vec![];
    while n.iter().any(|b| *b != 0) {
        let mut rem = 0u32;
        for b in n.iter_mut() {
            let x = rem * 256 + *b as u32;
            *b = (x / 58) as u8;
            rem = x % 58;
        }
        out.push(abc[rem as usize] as char);
    }
    out.extend(std::iter::repeat_n('1', zeros));
    out.iter().rev().collect()
}

impl Cx<'_> {
    fn put(&mut self, indent: u32, kind: &'static str, pay: Pay, info: Vec<FI>) {
        self.out.push(MC { indent, kind, pay, elem: vec![], info })
    }
    pub fn ext(&mut self, e: &ExtendedData, indent: u32, money: bool) {
        self.data(&e.data, fis(&e.info), indent, money)
    }
    fn fields(&mut self, f: &[FieldData], indent: u32, money: bool) {
        for (i, x) in f.iter().enumerate() {
            match &x.field_name {
                Some(n) => self.put(indent, "FieldName", Pay::Text(n.clone()), doc(&x.field_docs)),
                None => self.put(indent, "FieldNumber", Pay::Count(i + 1), doc(&x.field_docs)),
            }
            self.ext(&x.data, indent + 1, money)
        }
    }
    /// Content of an enum variant, call or event.
    fn content(&mut self, f: &[FieldData], indent: u32, money: bool) {
        match f {
            [x] if x.field_name.is_none() => {
                let mut info = doc(&x.field_docs);
                info.extend(fis(&x.data.info));
                self.data(&x.data.data, info, indent, money)
            }
            _ => self.fields(f, indent, money),
        }
    }
    pub fn pallet(&mut self, d: &PalletSpecificData, kind: &'static str, indent: u32) {
        self.put(indent, "PalletName", Pay::Text(d.pallet_name.clone()), vec![fi(&d.pallet_info)]);
        self.put(indent + 1, kind, Pay::Text(d.variant_name.clone()), doc(&d.variant_docs));
        let money = d.pallet_name == "Balances" || d.pallet_name == "Staking";
        self.content(&d.fields, indent + 2, money)
    }
    fn num(&mut self, v: u128, plain: &'static str, s: &U, info: Vec<FI>, indent: u32, money: bool) {
        let t = decimal(&v.to_le_bytes());
        let (kind, pay) = match s {
            U::None => (plain, Pay::Text(t)),
            U::Balance if money => ("Balance", Pay::Money(v)),
            U::Balance => ("BalanceRaw", Pay::Text(t)),
            U::Tip => ("Tip", Pay::Money(v)),
            U::TipAsset => ("TipAsset", Pay::Text(t)),
            U::Nonce => ("Nonce", Pay::Text(t)),
            U::SpecVersion => ("NameSpecVersion", Pay::Chain(self.spec_name.to_string(), t)),
            U::TxVersion => ("TxVersion", Pay::Text(t)),
        };
        self.put(indent, kind, pay, info)
    }
    fn bytes(&mut self, b: &[u8], elem: &[Info], info: Vec<FI>, indent: u32) {
        self.out.push(MC { indent, kind: "SequenceU8", pay: Pay::Bytes(b.to_vec()), elem: fis(elem), info })
    }
    fn announce(&mut self, n: usize, elem: &[Info], info: Vec<FI>, indent: u32) {
        self.out.push(MC { indent, kind: "SequenceAnnounced", pay: Pay::Count(n), elem: fis(elem), info })
    }
    pub fn data(&mut self, d: &ParsedData, info: Vec<FI>, indent: u32, money: bool) {
        use ParsedData::*;
        let t = |s: String| Pay::Text(s);
        macro_rules! leaf {
            ($k: expr, $p: expr) => {
                self.put(indent, $k, $p, info)
            };
        }
        macro_rules! ints {
            ($v: expr, $k: expr) => {{
                self.announce($v.len(), &[], info, indent);
                for x in $v.iter() {
                    self.put(indent + 1, $k, Pay::Text(decimal(&x.to_le_bytes())), vec![])
                }
            }};
        }
        match d {
            BitVecU8Lsb0(b) => leaf!("BitVecU8Lsb0", Pay::Bits(b.iter().by_vals().collect())),
            BitVecU16Lsb0(b) => leaf!("BitVecU16Lsb0", Pay::Bits(b.iter().by_vals().collect())),
            BitVecU32Lsb0(b) => leaf!("BitVecU32Lsb0", Pay::Bits(b.iter().by_vals().collect())),
            BitVecU64Lsb0(b) => leaf!("BitVecU64Lsb0", Pay::Bits(b.iter().by_vals().collect())),
            BitVecU8Msb0(b) => leaf!("BitVecU8Msb0", Pay::Bits(b.iter().by_vals().collect())),
            BitVecU16Msb0(b) => leaf!("BitVecU16Msb0", Pay::Bits(b.iter().by_vals().collect())),
            BitVecU32Msb0(b) => leaf!("BitVecU32Msb0", Pay::Bits(b.iter().by_vals().collect())),
            BitVecU64Msb0(b) => leaf!("BitVecU64Msb0", Pay::Bits(b.iter().by_vals().collect())),
            BlockHash(h) => leaf!("BlockHash", t(hex(&h.0))),
            GenesisHash(h) => leaf!("GenesisHash", t(hex(&h.0))),
            H160(h) => leaf!("H160", t(hex(&h.0))),
            H256(h) => leaf!("H256", t(hex(&h.0))),
            H512(h) => leaf!("H512", t(hex(&h.0))),
            Call(c) => self.pallet(&c.0, "CallName", indent),
            Event(c) => self.pallet(&c.0, "EventName", indent),
            Composite(f) => match &f[..] {
                [] => {}
                [x] if x.field_name.is_none() => {
                    let mut all = info;
                    all.extend(doc(&x.field_docs));
                    all.extend(fis(&x.data.info));
                    self.data(&x.data.data, all, indent, money)
                }
                _ => {
                    leaf!("CompositeAnnounced", Pay::Count(f.len()));
                    self.fields(f, indent + 1, money)
                }
            },
            Tuple(f) => {
                if !f.is_empty() {
                    leaf!("TupleAnnounced", Pay::Count(f.len()));
                    for x in f {
                        self.ext(x, indent + 1, money)
                    }
                }
            }
            Variant(v) => {
                leaf!("EnumAnnounced", Pay::Nothing);
                self.put(indent + 1, "EnumVariantName", Pay::Text(v.variant_name.clone()), doc(&v.variant_docs));
                self.content(&v.fields, indent + 2, money)
            }
            EmptyEnum => leaf!("EmptyEnum", Pay::Nothing),
            Era(self::Era::Immortal) => leaf!("Era", Pay::Era(None)),
            Era(self::Era::Mortal(period, phase)) => leaf!("Era", Pay::Era(Some((*period, *phase)))),
            Id(k) => leaf!("Id", Pay::Key(k.0.to_vec())),
            PublicEd25519(k) => leaf!("PublicEd25519", Pay::Key(k.0.to_vec())),
            PublicSr25519(k) => leaf!("PublicSr25519", Pay::Key(k.0.to_vec())),
            PublicEcdsa(k) => leaf!("PublicEcdsa", Pay::Key(k.0.to_vec())),
            SignatureEd25519(s) => leaf!("SignatureEd25519", t(hex(&s.0))),
            SignatureSr25519(s) => leaf!("SignatureSr25519", t(hex(&s.0))),
            SignatureEcdsa(s) => leaf!("SignatureEcdsa", t(hex(&s.0))),
            PerU16(x) => leaf!("PerU16", t(decimal(&x.deconstruct().to_le_bytes()))),
            Percent(x) => leaf!("Percent", t(decimal(&x.deconstruct().to_le_bytes()))),
            Permill(x) => leaf!("Permill", t(decimal(&x.deconstruct().to_le_bytes()))),
            Perbill(x) => leaf!("Perbill", t(decimal(&x.deconstruct().to_le_bytes()))),
            Perquintill(x) => leaf!("Perquintill", t(decimal(&x.deconstruct().to_le_bytes()))),
            PrimitiveBool(x) => leaf!("PrimitiveBool", t(if *x { "true" } else { "false" }.into())),
            PrimitiveChar(x) => leaf!("PrimitiveChar", t([*x].iter().collect())),
            PrimitiveI8(x) => leaf!("PrimitiveI8", t(format!("{x}"))),
            PrimitiveI16(x) => leaf!("PrimitiveI16", t(format!("{x}"))),
            PrimitiveI32(x) => leaf!("PrimitiveI32", t(format!("{x}"))),
            PrimitiveI64(x) => leaf!("PrimitiveI64", t(format!("{x}"))),
            PrimitiveI128(x) => leaf!("PrimitiveI128", t(format!("{x}"))),
            PrimitiveI256(x) => leaf!("PrimitiveI256", t(signed(&i256_bytes(x)))),
            PrimitiveU256(x) => leaf!("PrimitiveU256", t(decimal(&u256_bytes(x)))),
            PrimitiveU8 { value, specialty } => self.num(*value as u128, "PrimitiveU8", specialty, info, indent, money),
            PrimitiveU16 { value, specialty } => self.num(*value as u128, "PrimitiveU16", specialty, info, indent, money),
            PrimitiveU32 { value, specialty } => self.num(*value as u128, "PrimitiveU32", specialty, info, indent, money),
            PrimitiveU64 { value, specialty } => self.num(*value as u128, "PrimitiveU64", specialty, info, indent, money),
            PrimitiveU128 { value, specialty } => self.num(*value, "PrimitiveU128", specialty, info, indent, money),
            Sequence(s) => {
                let k = self.out.len();
                match &s.data {
                    self::Sequence::U8(v) => self.bytes(v, &s.element_info, info, indent),
                    self::Sequence::U16(v) => ints!(v, "PrimitiveU16"),
                    self::Sequence::U32(v) => ints!(v, "PrimitiveU32"),
                    self::Sequence::U64(v) => ints!(v, "PrimitiveU64"),
                    self::Sequence::U128(v) => ints!(v, "PrimitiveU128"),
                    self::Sequence::VecU8 { sequence, inner_element_info } => {
                        self.announce(sequence.len(), &[], info, indent);
                        for x in sequence {
                            self.bytes(x, inner_element_info, vec![], indent + 1)
                        }
                    }
                }
                self.out[k].elem = fis(&s.element_info);
            }
            SequenceRaw(s) => {
                self.announce(s.data.len(), &s.element_info, info, indent);
                for x in &s.data {
                    self.data(x, vec![], indent + 1, money)
                }
            }
            Text { text, specialty } => {
                let k = if *specialty == SpecialtyStr::SpecName { "SpecName" } else { "Text" };
                leaf!(k, t(text.clone()))
            }
        }
    }
}

pub fn of_ext(e: &ExtendedData, indent: u32, money: bool, spec_name: &str) -> Vec<MC> {
    let mut c = Cx { spec_name, out: vec![] };
    c.ext(e, indent, money);
    c.out
}
pub fn of_call(x: &Call, indent: u32, spec_name: &str) -> Vec<MC> {
    let mut c = Cx { spec_name, out: vec![] };
    c.pallet(&x.0, "CallName", indent);
    c.out
}

pub fn flat(v: &[InfoFlat]) -> Vec<FI> {
    v.iter().map(|x| (x.docs.clone(), x.path_flat.clone())).collect()
}

/// Kind of a real card, its payload as canonical text and its element information.
pub fn kind_of(c: &ParserCard) -> &'static str {
    macro_rules! names {
        ($($n: ident),*) => { match c { $(ParserCard::$n { .. } => stringify!($n),)* } };
    }
    names!(
        Balance, BalanceRaw, BitVecU8Lsb0, BitVecU16Lsb0, BitVecU32Lsb0, BitVecU64Lsb0, BitVecU8Msb0, BitVecU16Msb0, BitVecU32Msb0,
        BitVecU64Msb0, BlockHash, CallName, CompositeAnnounced, EmptyEnum, EnumAnnounced, EnumVariantName, Era, EventName, FieldName,
        FieldNumber, GenesisHash, H160, H256, H512, Id, NameSpecVersion, Nonce, PalletName, PerU16, Percent, Permill, Perbill,
        Perquintill, PrimitiveBool, PrimitiveChar, PrimitiveI8, PrimitiveI16, PrimitiveI32, PrimitiveI64, PrimitiveI128,
        PrimitiveI256, PrimitiveU8, PrimitiveU16, PrimitiveU32, PrimitiveU64, PrimitiveU128, PrimitiveU256, PublicEd25519,
        PublicSr25519, PublicEcdsa, SequenceAnnounced, SequenceU8, SignatureEd25519, SignatureSr25519, SignatureEcdsa, SpecName, Text,
        Tip, TipAsset, TupleAnnounced, TxVersion
    )
}
pub fn elem_of(c: &ParserCard) -> Vec<FI> {
    match c {
        ParserCard::SequenceAnnounced { element_info_flat, .. } | ParserCard::SequenceU8 { element_info_flat, .. } => flat(element_info_flat),
        _ => vec![],
    }
}

/// Does the card hold this payload?
pub fn pay_agrees(p: &Pay, c: &ParserCard, s: &ShortSpecs) -> Result<(), String> {
    use ParserCard as C;
    let same = |w: String, g: String| if w == g { Ok(()) } else { Err(format!("holds {g:?} instead of {w:?}")) };
    let bits = |w: &Vec<bool>, g: Vec<bool>| if *w == g { Ok(()) } else { Err("holds other bits".to_string()) };
    match (p, c) {
        (Pay::Nothing, C::EmptyEnum | C::EnumAnnounced) => Ok(()),
        (Pay::Money(v), C::Balance(m) | C::Tip(m)) => balance_right(&v.to_string(), s.decimals, &s.unit, &m.number, &m.units).map(|_| ()),
        (Pay::Count(n), C::CompositeAnnounced(k) | C::TupleAnnounced(k) | C::FieldNumber(k) | C::SequenceAnnounced { len: k, .. }) => same(n.to_string(), k.to_string()),
        (Pay::Key(k), C::Id(d) | C::PublicEd25519(d) | C::PublicSr25519(d) | C::PublicEcdsa(d)) => same(ss58(k, s.base58prefix), d.base58.clone()),
        (Pay::Era(e), C::Era(x)) => same(
            format!("{e:?}"),
            format!("{:?}", match x {
                Era::Immortal => None,
                Era::Mortal(period, phase) => Some((*period, *phase)),
            }),
        ),
        (Pay::Chain(n, v), C::NameSpecVersion { name, version }) => same(format!("{n:?} {v:?}"), format!("{name:?} {version:?}")),
        (Pay::Bytes(b), C::SequenceU8 { hex: h, text, .. }) => {
            same(hex(b), h.clone())?;
            same(format!("{:?}", std::str::from_utf8(b).ok()), format!("{:?}", text.as_deref()))
        }
        (Pay::Bits(b), C::BitVecU8Lsb0(x)) => bits(b, x.iter().by_vals().collect()),
        (Pay::Bits(b), C::BitVecU16Lsb0(x)) => bits(b, x.iter().by_vals().collect()),
        (Pay::Bits(b), C::BitVecU32Lsb0(x)) => bits(b, x.iter().by_vals().collect()),
        (Pay::Bits(b), C::BitVecU64Lsb0(x)) => bits(b, x.iter().by_vals().collect()),
        (Pay::Bits(b), C::BitVecU8Msb0(x)) => bits(b, x.iter().by_vals().collect()),
        (Pay::Bits(b), C::BitVecU16Msb0(x)) => bits(b, x.iter().by_vals().collect()),
        (Pay::Bits(b), C::BitVecU32Msb0(x)) => bits(b, x.iter().by_vals().collect()),
        (Pay::Bits(b), C::BitVecU64Msb0(x)) => bits(b, x.iter().by_vals().collect()),
        (Pay::Text(t), c) => {
            let g = match c {
                C::BalanceRaw(x) | C::CallName(x) | C::EnumVariantName(x) | C::EventName(x) | C::FieldName(x) | C::Nonce(x) | C::PalletName(x)
                | C::SpecName(x) | C::Text(x) | C::TipAsset(x) | C::TxVersion(x) => x.clone(),
                C::BlockHash(h) | C::GenesisHash(h) | C::H256(h) => hex(&h.0),
                C::H160(h) => hex(&h.0),
                C::H512(h) => hex(&h.0),
                C::SignatureEd25519(s) => hex(&s.0),
                C::SignatureSr25519(s) => hex(&s.0),
                C::SignatureEcdsa(s) => hex(&s.0),
                C::PerU16(x) => format!("{}", x.deconstruct()),
                C::Percent(x) => format!("{}", x.deconstruct()),
                C::Permill(x) => format!("{}", x.deconstruct()),
                C::Perbill(x) => format!("{}", x.deconstruct()),
                C::Perquintill(x) => format!("{}", x.deconstruct()),
                C::PrimitiveBool(x) => format!("{x}"),
                C::PrimitiveChar(x) => format!("{x}"),
                C::PrimitiveI8(x) => format!("{x}"),
                C::PrimitiveI16(x) => format!("{x}"),
                C::PrimitiveI32(x) => format!("{x}"),
                C::PrimitiveI64(x) => format!("{x}"),
                C::PrimitiveI128(x) => format!("{x}"),
                C::PrimitiveI256(x) => signed(&i256_bytes(x)),
                C::PrimitiveU8(x) => format!("{x}"),
                C::PrimitiveU16(x) => format!("{x}"),
                C::PrimitiveU32(x) => format!("{x}"),
                C::PrimitiveU64(x) => format!("{x}"),
                C::PrimitiveU128(x) => format!("{x}"),
                C::PrimitiveU256(x) => decimal(&u256_bytes(x)),
                _ => return Err("is of another kind".into()),
            };
            same(t.clone(), g)
        }
        _ => Err("is of another kind".into()),
    }
}

/// Cards as they should be: nesting, kinds, values, names, counts, order. Not the information.
pub fn cards_agree(want: &[MC], got: &[ExtendedCard], s: &ShortSpecs) -> Result<(), String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        let k = kind_of(&g.parser_card);
        if w.kind != k {
            return Err(format!("card {i} is {k} instead of {} {:?}", w.kind, w.pay));
        }
        if w.indent != g.indent {
            return Err(format!("card {i} ({k}) has indent {} instead of {}", g.indent, w.indent));
        }
        pay_agrees(&w.pay, &g.parser_card, s).map_err(|e| format!("card {i} ({k}) {e}"))?;
    }
    if want.len() != got.len() {
        return Err(format!("{} cards instead of {}", got.len(), want.len()));
    }
    Ok(())
}

fn label(kind: &str) -> &str {
    match kind {
        "BalanceRaw" => "Balance Raw",
        "BitVecU8Lsb0" => "BitVec<u8, Lsb0>",
        "BitVecU16Lsb0" => "BitVec<u16, Lsb0>",
        "BitVecU32Lsb0" => "BitVec<u32, Lsb0>",
        "BitVecU64Lsb0" => "BitVec<u64, Lsb0>",
        "BitVecU8Msb0" => "BitVec<u8, Msb0>",
        "BitVecU16Msb0" => "BitVec<u16, Msb0>",
        "BitVecU32Msb0" => "BitVec<u32, Msb0>",
        "BitVecU64Msb0" => "BitVec<u64, Msb0>",
        "BlockHash" => "Block Hash",
        "CallName" => "Call",
        "CompositeAnnounced" => "Struct",
        "EnumVariantName" => "Enum Variant Name",
        "EventName" => "Event",
        "FieldName" => "Field Name",
        "FieldNumber" => "Field Number",
        "GenesisHash" => "Genesis Hash",
        "NameSpecVersion" => "Chain",
        "PalletName" => "Pallet",
        "PrimitiveBool" => "Bool",
        "PrimitiveChar" => "Char",
        "PrimitiveI8" => "i8",
        "PrimitiveI16" => "i16",
        "PrimitiveI32" => "i32",
        "PrimitiveI64" => "i64",
        "PrimitiveI128" => "i128",
        "PrimitiveI256" => "BigInt",
        "PrimitiveU8" => "u8",
        "PrimitiveU16" => "u16",
        "PrimitiveU32" => "u32",
        "PrimitiveU64" => "u64",
        "PrimitiveU128" => "u128",
        "PrimitiveU256" => "BigUint",
        "PublicEd25519" => "PublicKey Ed25519",
        "PublicSr25519" => "PublicKey Sr25519",
        "PublicEcdsa" => "PublicKey Ecdsa",
        "SequenceAnnounced" => "Sequence",
        "SignatureEd25519" => "Signature Ed25519",
        "SignatureSr25519" => "Signature Sr25519",
        "SignatureEcdsa" => "Signature Ecdsa",
        "SpecName" => "Spec Name",
        "TipAsset" => "Tip Asset",
        "TupleAnnounced" => "Tuple",
        "TxVersion" => "Tx Version",
        k => k,
    }
}

/// Is this the text of the card (after it, `tail`)?
pub fn text_agrees(w: &MC, text: &str, tail: &str, s: &ShortSpecs) -> Result<(), String> {
    let bad = |want: &str| Err(format!("text {text:?} instead of {want:?}"));
    let mut pre = String::new();
    for _ in 0..w.indent {
        pre.push_str("  ");
    }
    let is = |t: String| {
        let t = format!("{pre}{t}{tail}");
        if t == text {
            Ok(())
        } else {
            bad(&t)
        }
    };
    let l = label(w.kind);
    match &w.pay {
        Pay::Nothing => is(if w.kind == "EmptyEnum" { "Enum With No Variants".into() } else { "Enum".into() }),
        Pay::Text(t) => is(format!("{l}: {t}")),
        Pay::Key(k) => is(format!("{l}: {}", ss58(k, s.base58prefix))),
        Pay::Count(n) => is(match w.kind {
            "FieldNumber" => format!("{l}: {n}"),
            "CompositeAnnounced" => format!("{l}: {n} field(s)"),
            _ => format!("{l}: {n} element(s)"),
        }),
        Pay::Bytes(b) => is(match std::str::from_utf8(b) {
            Ok(t) => format!("Text: {t}"),
            Err(_) => format!("Sequence u8: {}", hex(b)),
        }),
        Pay::Era(None) => is("Era: Immortal".into()),
        Pay::Era(Some((period, phase))) => is(format!("Era: Mortal, phase: {phase}, period: {period}")),
        Pay::Chain(n, v) => is(format!("Chain: {n}{v}")),
        Pay::Bits(b) => {
            let Some(t) = text.strip_prefix(&format!("{pre}{l}: ")).and_then(|t| t.strip_suffix(tail)) else {
                return bad(&format!("{pre}{l}: (bits){tail}"));
            };
            match crate::props::exact::shown_bits(t) {
                Some(x) if x == *b && t.chars().all(|c| "[]01, ".contains(c)) => Ok(()),
                _ => bad(&format!("{l}: {}", b.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>())),
            }
        }
        Pay::Money(v) => {
            let Some(t) = text.strip_prefix(&format!("{pre}{l}: ")).and_then(|t| t.strip_suffix(tail)) else {
                return bad(&format!("{pre}{l}: (money){tail}"));
            };
            let Some((n, u)) = t.split_once(' ') else { return bad(&format!("{pre}{l}: number unit")) };
            balance_right(&v.to_string(), s.decimals, &s.unit, n, u).map(|_| ())
        }
    }
}

fn fi_text(v: &FI) -> String {
    let t = |x: &Option<String>| x.clone().unwrap_or("None".into());
    format!("(docs: {}, path: {})", t(&v.0), t(&v.1))
}
/// What text with documentation adds: in the line of the card, and after it.
pub fn docs_tail(w: &MC) -> String {
    let mut o = String::new();
    if !w.elem.is_empty() {
        o.push_str(&format!(", element info: [{}]", w.elem.iter().map(fi_text).collect::<Vec<_>>().join(",")));
    }
    for i in &w.info {
        o.push('\n');
        for _ in 0..w.indent {
            o.push_str("  ");
        }
        o.push_str(&fi_text(i));
    }
    o
}

// ------------------------------------------------------------ arbitrary parsed data

pub fn text(r: &mut Rng) -> String {
    let mut t = plain_text(r);
    if r.chance(1, 4) {
        t.push(r.odd_char());
    }
    if r.chance(1, 8) {
        t.insert(0, r.odd_char());
    }
    t
}
fn plain_text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "plain ascii".into(),
        2 => "two\nlines".into(),
        3 => "тест 测试 🦀".into(),
        4 => ": None, path: ".into(),
        5 => "\u{0}\u{202e}\u{fffd}".into(),
        _ => {
            let n = r.idx(30);
            (0..n).filter_map(|_| { let bits = r.pick(&[7u32, 11, 16, 21]); char::from_u32(r.uint(bits) as u32) }).collect()
        }
    }
}
/// A text of a length about some limit, with characters across it.
pub fn long_text(r: &mut Rng) -> String {
    let n = r.pick(&[64usize, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 65536]) + r.idx(4);
    let wide = r.pick(&[0u64, 1, 5, 10]);
    let mut t = String::new();
    while t.len() < n {
        match r.below(10) {
            k if k < wide => {
                let bits = r.pick(&[11u32, 16, 21]);
                t.extend(char::from_u32(r.uint(bits) as u32))
            }
            _ => t.push((b'a' + r.below(26) as u8) as char),
        }
    }
    // and all that follows
    for _ in 0..r.idx(40) {
        t.push(r.pick(&['x', 'é', '測', '🦀']));
    }
    t
}
/// An item with something long in it.
pub fn long_item(r: &mut Rng) -> ExtendedData {
    use ParsedData as P;
    let mut infos = infos(r);
    let t = long_text(r);
    let one = |r: &mut Rng, name: Option<String>, docs: String| FieldData { field_name: name, type_name: None, field_docs: docs, data: extended(r, 9) };
    let data = match r.below(12) {
        0 => P::Text { text: t, specialty: SpecialtyStr::None },
        1 => P::Text { text: t, specialty: SpecialtyStr::SpecName },
        2..=4 => P::Sequence(SequenceData { element_info: infos.clone(), data: Sequence::U8(t.into_bytes()) }),
        5 => {
            // broken somewhere
            let mut b = t.into_bytes();
            let k = r.idx(b.len());
            b[k] |= 0x80;
            P::Sequence(SequenceData { element_info: vec![], data: Sequence::U8(b) })
        }
        6 => P::Sequence(SequenceData { element_info: vec![], data: Sequence::VecU8 { sequence: vec![vec![], t.into_bytes(), vec![1]], inner_element_info: vec![] } }),
        7 => P::Composite(vec![one(r, Some(t), String::new()), one(r, None, String::new())]),
        8 => P::Composite(vec![one(r, None, t.clone()), one(r, Some("a".into()), t)]),
        9 => P::Variant(VariantData { variant_name: t.clone(), variant_docs: t, fields: vec![one(r, None, String::new())] }),
        10 => {
            let mut p = pallet(r, 9);
            p.pallet_name = t.clone();
            p.variant_name = t.clone();
            p.variant_docs = t;
            P::Call(Call(p))
        }
        _ => {
            infos.push(Info { docs: t.clone(), path: Path { segments: vec![t, "x".into()] } });
            parsed(r, 9)
        }
    };
    ExtendedData { data, info: infos }
}
pub fn some_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => text(r).into_bytes(),
        1 => {
            let mut b = text(r).into_bytes();
            if !b.is_empty() {
                let k = r.idx(b.len());
                b[k] ^= 0x80;
            }
            b
        }
        2 => {
            let mut b = text(r).into_bytes();
            b.pop();
            b
        }
        3 => r.pick(&[vec![], vec![0xff], vec![0xc0, 0x80], vec![0xed, 0xa0, 0x80], vec![0xf4, 0x90, 0x80, 0x80], vec![0], b"0x00".to_vec(), vec![0xef, 0xbb, 0xbf]]),
        _ => {
            let n = r.idx(40);
            r.bytes(n)
        }
    }
}
pub fn info(r: &mut Rng) -> Info {
    let n = r.below(4);
    let segments = (0..n).map(|_| r.pick(&["a", "b c", ">>", "Ünï", "pallet_balances", ""]).to_string()).collect();
    let path: Path<PortableForm> = Path { segments };
    Info { docs: docs(r).join("\n"), path }
}
pub fn infos(r: &mut Rng) -> Vec<Info> {
    let n = r.pick(&[0u64, 0, 1, 1, 2, 3]);
    (0..n).map(|_| info(r)).filter(|i| !(i.docs.is_empty() && i.path.segments.is_empty())).collect()
}
fn arr<const N: usize>(r: &mut Rng) -> [u8; N] {
    match r.below(6) {
        0 => [0; N],
        1 => [0xff; N],
        2 => {
            let mut a = [0; N];
            a[r.idx(N)] = r.byte();
            a
        }
        _ => r.bytes(N).try_into().unwrap(),
    }
}
fn num_tag(r: &mut Rng) -> U {
    r.pick(&[U::None, U::Balance, U::Balance, U::Tip, U::TipAsset, U::Nonce, U::SpecVersion, U::TxVersion])
}
fn pick_len(r: &mut Rng) -> usize {
    let n = r.pick(&[0u64, 1, 2, 7, 8, 9, 31, 32, 33, 64, 65, 200]);
    n as usize
}
pub fn extended(r: &mut Rng, d: u32) -> ExtendedData {
    ExtendedData { data: parsed(r, d), info: infos(r) }
}
fn field_set(r: &mut Rng, d: u32) -> Vec<FieldData> {
    let n = r.pick(&[0u64, 1, 1, 1, 2, 3, 11]);
    let n = if d > 3 { n.min(2) } else { n };
    let (n, d) = if d < 3 && r.chance(1, 300) { (r.range(200, 700), 8) } else { (n, d) };
    let one = r.chance(1, 2);
    let named = r.chance(1, 2);
    (0..n)
        .map(|_| {
            let name = if one { named } else { r.chance(1, 2) };
            let field_name = if name { Some(field_name(r).unwrap_or("f").to_string()) } else { None };
            let type_name = type_name(r).map(|x| x.to_string());
            let field_docs = docs(r).join("\n");
            FieldData { field_name, type_name, field_docs, data: extended(r, d + 1) }
        })
        .collect()
}
pub fn pallet(r: &mut Rng, d: u32) -> PalletSpecificData {
    PalletSpecificData {
        pallet_info: info(r),
        variant_docs: docs(r).join("\n"),
        pallet_name: match r.below(10) {
            0 | 1 => {
                let like = r.pick(&["Balances", "Staking"]);
                crate::gen::near_name(r, like)
            }
            _ => r.pick(&["Balances", "Staking", "System", "balances", "NominationPools", "Balances ", ""]).to_string(),
        },
        variant_name: r.pick(&["transfer", "bond", "", "Balances", "ünï"]).to_string(),
        fields: field_set(r, d + 1),
    }
}
/// Any parsed data, including shapes decoding does not make.
pub fn parsed(r: &mut Rng, d: u32) -> ParsedData {
    use ParsedData as P;
    let k = if d > 5 { r.below(44) } else { r.below(68) };
    match k {
        0..=7 => {
            let n = pick_len(r);
            let b: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
            match k {
                0 => P::BitVecU8Lsb0(b.iter().collect()),
                1 => P::BitVecU16Lsb0(b.iter().collect()),
                2 => P::BitVecU32Lsb0(b.iter().collect()),
                3 => P::BitVecU64Lsb0(b.iter().collect()),
                4 => P::BitVecU8Msb0(b.iter().collect()),
                5 => P::BitVecU16Msb0(b.iter().collect()),
                6 => P::BitVecU32Msb0(b.iter().collect()),
                _ => P::BitVecU64Msb0(b.iter().collect()),
            }
        }
        8 => P::BlockHash(H256(arr(r))),
        9 => P::GenesisHash(H256(arr(r))),
        10 => P::H160(H160(arr(r))),
        11 => P::H256(H256(arr(r))),
        12 => P::H512(H512(arr(r))),
        13 => P::EmptyEnum,
        14 => P::Era(if r.chance(1, 3) { Era::Immortal } else { Era::Mortal(r.uint(64) as u64, r.uint(64) as u64) }),
        15 => P::Id(AccountId32(arr(r))),
        16 => P::PublicEd25519(ed25519::Public(arr(r))),
        17 => P::PublicSr25519(sr25519::Public(arr(r))),
        18 => P::PublicEcdsa(ecdsa::Public(arr(r))),
        19 => P::SignatureEd25519(ed25519::Signature(arr(r))),
        20 => P::SignatureSr25519(sr25519::Signature(arr(r))),
        21 => P::SignatureEcdsa(ecdsa::Signature(arr(r))),
        22 => P::PerU16(PerU16::from_parts(r.uint(16) as u16)),
        23 => P::Percent(Percent::from_parts(r.below(101) as u8)),
        24 => P::Permill(Permill::from_parts(r.below(1_000_001) as u32)),
        25 => P::Perbill(Perbill::from_parts(r.below(1_000_000_001) as u32)),
        26 => P::Perquintill(Perquintill::from_parts(r.below(1_000_000_000_000_000_001))),
        27 => P::PrimitiveBool(r.chance(1, 2)),
        28 => P::PrimitiveChar(loop {
            let bits = r.pick(&[7u32, 11, 16, 21]);
            if let Some(c) = char::from_u32(r.uint(bits) as u32) {
                break c;
            }
        }),
        29 => P::PrimitiveI8(r.uint(8) as i8),
        30 => P::PrimitiveI16(r.uint(16) as i16),
        31 => P::PrimitiveI32(r.uint(32) as i32),
        32 => P::PrimitiveI64(r.uint(64) as i64),
        33 => P::PrimitiveI128(r.uint(128) as i128),
        34 => P::PrimitiveI256(BigInt::from_signed_bytes_le(&arr::<32>(r))),
        35 => P::PrimitiveU256(BigUint::from_bytes_le(&arr::<32>(r))),
        36 => P::PrimitiveU8 { value: r.uint(8) as u8, specialty: num_tag(r) },
        37 => P::PrimitiveU16 { value: r.uint(16) as u16, specialty: num_tag(r) },
        38 => P::PrimitiveU32 { value: r.uint(32) as u32, specialty: num_tag(r) },
        39 => P::PrimitiveU64 { value: r.uint(64) as u64, specialty: num_tag(r) },
        40 | 41 => P::PrimitiveU128 { value: r.uint(128), specialty: num_tag(r) },
        42 => P::Text { text: text(r), specialty: if r.chance(1, 2) { SpecialtyStr::None } else { SpecialtyStr::SpecName } },
        43 | 44 => {
            let n = if r.chance(1, 100) { r.range(200, 700) as usize } else { r.pick(&[0usize, 1, 2, 5]) };
            let data = match r.below(6) {
                0 => Sequence::U8(some_bytes(r)),
                1 => Sequence::U16((0..n).map(|_| r.uint(16) as u16).collect()),
                2 => Sequence::U32((0..n).map(|_| r.uint(32) as u32).collect()),
                3 => Sequence::U64((0..n).map(|_| r.uint(64) as u64).collect()),
                4 => Sequence::U128((0..n).map(|_| r.uint(128)).collect()),
                _ => Sequence::VecU8 { sequence: (0..n).map(|_| some_bytes(r)).collect(), inner_element_info: infos(r) },
            };
            P::Sequence(SequenceData { element_info: infos(r), data })
        }
        45..=48 => {
            let (n, d) = if d < 3 && r.chance(1, 300) { (r.range(200, 700), 8) } else { (r.pick(&[0u64, 1, 2, 4]), d) };
            P::SequenceRaw(SequenceRawData { element_info: infos(r), data: (0..n).map(|_| parsed(r, d + 1)).collect() })
        }
        49..=52 => {
            let (n, d) = if d < 3 && r.chance(1, 300) { (r.range(200, 700), 8) } else { (r.pick(&[0u64, 1, 2, 3]), d) };
            P::Tuple((0..n).map(|_| extended(r, d + 1)).collect())
        }
        53..=58 => P::Composite(field_set(r, d)),
        59..=63 => P::Variant(VariantData {
            variant_name: r.pick(&["A", "Some", "", "ünï", "Call"]).to_string(),
            variant_docs: docs(r).join("\n"),
            fields: field_set(r, d),
        }),
        64 | 65 => P::Call(Call(pallet(r, d))),
        _ => P::Event(Event(pallet(r, d))),
    }
}
pub fn short_specs(r: &mut Rng) -> ShortSpecs {
    ShortSpecs {
        base58prefix: match dict::num(r, 0, 65535).map_or(r.below(5), |n| 5 + n) {
            n @ 5.. => (n - 5) as u16,
            0 => r.pick(&[0, 1, 2, 42, 63, 64, 65, 127, 128, 255, 256, 16383, 16384, 65535]),
            1 => r.below(64) as u16,
            2 => r.below(16384) as u16,
            _ => 42,
        },
        decimals: if let Some(n) = dict::num(r, 0, 255) { n as u8 } else if r.chance(1, 3) { r.byte() } else { r.pick(&[0, 1, 6, 10, 12, 18, 255]) },
        unit: dict::word(r).unwrap_or(r.pick(&["DOT", "WND", "", "m", "k UNIT", "µX"])).to_string(),
    }
}
