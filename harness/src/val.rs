//! Canonical values: what a parsed result states about the data, without decoration.
use num_bigint::{BigInt, BigUint, Sign};

use substrate_parser::additional_types::Era;
use substrate_parser::cards::{Call, Event, ExtendedData, FieldData, ParsedData, Sequence};

#[derive(Clone, PartialEq, Eq)]
pub enum V {
    Leaf(String),
    Struct(Vec<(Option<String>, V)>),
    Enum(String, Vec<(Option<String>, V)>),
    EmptyEnum,
    Seq(Vec<V>),
    Tuple(Vec<V>),
    /// kind, pallet, variant, fields
    Pallet(&'static str, String, String, Vec<(Option<String>, V)>),
}

/// Text is escaped the same way whatever Unicode version the toolchain knows.
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        struct Quoted<'a>(&'a str);
        impl std::fmt::Debug for Quoted<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "\"{}\"", self.0.escape_default())
            }
        }
        struct Fields<'a>(&'a [(Option<String>, V)]);
        impl std::fmt::Debug for Fields<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.debug_list().entries(self.0.iter().map(|(n, v)| (n.as_deref().map(Quoted), v))).finish()
            }
        }
        match self {
            V::Leaf(s) => f.debug_tuple("Leaf").field(&Quoted(s)).finish(),
            V::Struct(x) => f.debug_tuple("Struct").field(&Fields(x)).finish(),
            V::Enum(n, x) => f.debug_tuple("Enum").field(&Quoted(n)).field(&Fields(x)).finish(),
            V::EmptyEnum => f.write_str("EmptyEnum"),
            V::Seq(x) => f.debug_tuple("Seq").field(x).finish(),
            V::Tuple(x) => f.debug_tuple("Tuple").field(x).finish(),
            V::Pallet(k, p, n, x) => f.debug_tuple("Pallet").field(k).field(&Quoted(p)).field(&Quoted(n)).field(&Fields(x)).finish(),
        }
    }
}

/// Elements of sequences and arrays lose single-field wrappers.
pub fn strip(v: V) -> V {
    match v {
        V::Struct(mut f) if f.len() == 1 => strip(f.pop().unwrap().1),
        o => o,
    }
}

/// At least 32 bytes; more for numbers that do not fit.
pub fn i256_bytes(b: &BigInt) -> Vec<u8> {
    let mut s = b.to_signed_bytes_le();
    if s.len() < 32 {
        s.resize(32, if b.sign() == Sign::Minus { 0xff } else { 0 });
    }
    s
}
pub fn u256_bytes(b: &BigUint) -> Vec<u8> {
    let mut s = b.to_bytes_le();
    if s.len() < 32 {
        s.resize(32, 0);
    }
    s
}
pub fn leaf_bytes(kind: &str, b: &[u8]) -> V {
    V::Leaf(format!("{kind}:{}", hex::encode(b)))
}
pub fn bits_leaf(bits: impl Iterator<Item = bool>) -> V {
    let mut s = String::from("bits:");
    for b in bits {
        s.push(if b { '1' } else { '0' });
    }
    V::Leaf(s)
}
pub fn era_leaf(e: &Era) -> V {
    V::Leaf(match e {
        Era::Immortal => "era:immortal".into(),
        Era::Mortal(period, phase) => format!("era:{period}/{phase}"),
    })
}
fn fields(f: &[FieldData]) -> Vec<(Option<String>, V)> {
    f.iter().map(|x| (x.field_name.clone(), of(&x.data.data))).collect()
}
pub fn of_ext(e: &ExtendedData) -> V {
    of(&e.data)
}
pub fn of_call(c: &Call) -> V {
    V::Pallet("Call", c.0.pallet_name.clone(), c.0.variant_name.clone(), fields(&c.0.fields))
}
pub fn of(p: &ParsedData) -> V {
    use ParsedData::*;
    let n = |k: &str, x: &dyn std::fmt::Display| V::Leaf(format!("{k}:{x}"));
    match p {
        BitVecU8Lsb0(b) => bits_leaf(b.iter().by_vals()),
        BitVecU16Lsb0(b) => bits_leaf(b.iter().by_vals()),
        BitVecU32Lsb0(b) => bits_leaf(b.iter().by_vals()),
        BitVecU64Lsb0(b) => bits_leaf(b.iter().by_vals()),
        BitVecU8Msb0(b) => bits_leaf(b.iter().by_vals()),
        BitVecU16Msb0(b) => bits_leaf(b.iter().by_vals()),
        BitVecU32Msb0(b) => bits_leaf(b.iter().by_vals()),
        BitVecU64Msb0(b) => bits_leaf(b.iter().by_vals()),
        BlockHash(h) | GenesisHash(h) | H256(h) => leaf_bytes("h256", &h.0),
        Call(c) => of_call(c),
        Event(self::Event(d)) => V::Pallet("Event", d.pallet_name.clone(), d.variant_name.clone(), fields(&d.fields)),
        Composite(f) => V::Struct(fields(f)),
        EmptyEnum => V::EmptyEnum,
        Era(e) => era_leaf(e),
        H160(h) => leaf_bytes("h160", &h.0),
        H512(h) => leaf_bytes("h512", &h.0),
        Id(a) => leaf_bytes("id", &a.0),
        PerU16(x) => n("peru16", &x.deconstruct()),
        Percent(x) => n("percent", &x.deconstruct()),
        Permill(x) => n("permill", &x.deconstruct()),
        Perbill(x) => n("perbill", &x.deconstruct()),
        Perquintill(x) => n("perquintill", &x.deconstruct()),
        PrimitiveBool(x) => n("bool", x),
        PrimitiveChar(x) => n("char", &(*x as u32)),
        PrimitiveI8(x) => n("i8", x),
        PrimitiveI16(x) => n("i16", x),
        PrimitiveI32(x) => n("i32", x),
        PrimitiveI64(x) => n("i64", x),
        PrimitiveI128(x) => n("i128", x),
        PrimitiveI256(x) => leaf_bytes("i256", &i256_bytes(x)),
        PrimitiveU8 { value, .. } => n("u8", value),
        PrimitiveU16 { value, .. } => n("u16", value),
        PrimitiveU32 { value, .. } => n("u32", value),
        PrimitiveU64 { value, .. } => n("u64", value),
        PrimitiveU128 { value, .. } => n("u128", value),
        PrimitiveU256(x) => leaf_bytes("u256", &u256_bytes(x)),
        PublicEd25519(x) => leaf_bytes("pub-ed25519", &x.0),
        PublicSr25519(x) => leaf_bytes("pub-sr25519", &x.0),
        PublicEcdsa(x) => leaf_bytes("pub-ecdsa", &x.0),
        Sequence(s) => V::Seq(match &s.data {
            self::Sequence::U8(v) => v.iter().map(|x| n("u8", x)).collect(),
            self::Sequence::U16(v) => v.iter().map(|x| n("u16", x)).collect(),
            self::Sequence::U32(v) => v.iter().map(|x| n("u32", x)).collect(),
            self::Sequence::U64(v) => v.iter().map(|x| n("u64", x)).collect(),
            self::Sequence::U128(v) => v.iter().map(|x| n("u128", x)).collect(),
            self::Sequence::VecU8 { sequence, .. } => {
                sequence.iter().map(|s| V::Seq(s.iter().map(|x| n("u8", x)).collect())).collect()
            }
        }),
        SequenceRaw(s) => V::Seq(s.data.iter().map(|x| strip(of(x))).collect()),
        SignatureEd25519(x) => leaf_bytes("sig-ed25519", &x.0),
        SignatureSr25519(x) => leaf_bytes("sig-sr25519", &x.0),
        SignatureEcdsa(x) => leaf_bytes("sig-ecdsa", &x.0),
        Text { text, .. } => V::Leaf(format!("str:{text}")),
        Tuple(t) => V::Tuple(t.iter().map(|x| of(&x.data)).collect()),
        Variant(v) => V::Enum(v.variant_name.clone(), fields(&v.fields)),
    }
}

impl V {
    pub fn leaves(&self) -> usize {
        match self {
            V::Leaf(_) | V::EmptyEnum => 1,
            V::Struct(f) => f.iter().map(|x| x.1.leaves()).sum(),
            V::Enum(_, f) | V::Pallet(_, _, _, f) => 1 + f.iter().map(|x| x.1.leaves()).sum::<usize>(),
            V::Seq(s) | V::Tuple(s) => 1 + s.iter().map(|x| x.leaves()).sum::<usize>(),
        }
    }
}

/// First difference of two values, for reports.
pub fn diff(a: &V, b: &V, path: String) -> Option<String> {
    if a == b {
        return None;
    }
    let sub = |fa: &Vec<(Option<String>, V)>, fb: &Vec<(Option<String>, V)>| -> Option<String> {
        if fa.len() != fb.len() {
            return Some(format!("{path}: {} fields instead of {}", fb.len(), fa.len()));
        }
        for (i, (x, y)) in fa.iter().zip(fb).enumerate() {
            if x.0 != y.0 {
                return Some(format!("{path}.{i}: field name {:?} instead of {:?}", y.0, x.0));
            }
            if let Some(d) = diff(&x.1, &y.1, format!("{path}.{i}")) {
                return Some(d);
            }
        }
        None
    };
    match (a, b) {
        (V::Struct(x), V::Struct(y)) => sub(x, y),
        (V::Enum(n, x), V::Enum(m, y)) if n == m => sub(x, y),
        (V::Pallet(k, p, n, x), V::Pallet(l, q, m, y)) if (k, p, n) == (l, q, m) => sub(x, y),
        (V::Seq(x), V::Seq(y)) | (V::Tuple(x), V::Tuple(y)) => {
            if x.len() != y.len() {
                return Some(format!("{path}: {} elements instead of {}", y.len(), x.len()));
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if let Some(d) = diff(p, q, format!("{path}[{i}]")) {
                    return Some(d);
                }
            }
            None
        }
        _ => {
            let cut = |v: &V| format!("{v:?}").chars().take(300).collect::<String>();
            Some(format!("at {path}: got {} instead of {}", cut(b), cut(a)))
        }
    }
}
