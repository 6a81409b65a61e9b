//! Generation of type registries and of values with their encodings.
use crate::dict;
use crate::model::{special, Sp};
use crate::rng::Rng;
use crate::val::{leaf_bytes, strip, V};
use scale_info::{
    form::PortableForm, Field, Path, PortableRegistry, PortableType, Type, TypeDef, TypeDefArray, TypeDefBitSequence,
    TypeDefCompact, TypeDefComposite, TypeDefPrimitive as P, TypeDefSequence, TypeDefTuple, TypeDefVariant, Variant,
};

pub type T = Type<PortableForm>;
pub type F = Field<PortableForm>;
pub type Var = Variant<PortableForm>;

pub fn mk(path: &[&str], def: impl Into<TypeDef<PortableForm>>, docs: &[&str]) -> T {
    Type {
        path: Path { segments: path.iter().map(|s| s.to_string()).collect() },
        type_params: vec![],
        type_def: def.into(),
        docs: docs.iter().map(|s| s.to_string()).collect(),
    }
}
pub fn fld(name: Option<&str>, ty: u32, type_name: Option<&str>, docs: &[&str]) -> F {
    Field {
        name: name.map(|s| s.to_string()),
        ty: ty.into(),
        type_name: type_name.map(|s| s.to_string()),
        docs: docs.iter().map(|s| s.to_string()).collect(),
    }
}
pub fn var(name: &str, index: u8, fields: Vec<F>, docs: &[&str]) -> Var {
    Variant { name: name.into(), fields, index, docs: docs.iter().map(|s| s.to_string()).collect() }
}
pub fn comp(fields: Vec<F>) -> TypeDefComposite<PortableForm> {
    TypeDefComposite { fields }
}
pub fn enm(variants: Vec<Var>) -> TypeDefVariant<PortableForm> {
    TypeDefVariant { variants }
}
pub fn seq(id: u32) -> TypeDefSequence<PortableForm> {
    TypeDefSequence { type_param: id.into() }
}
pub fn arr(id: u32, len: u32) -> TypeDefArray<PortableForm> {
    TypeDefArray { len, type_param: id.into() }
}
pub fn tup(ids: &[u32]) -> TypeDefTuple<PortableForm> {
    TypeDefTuple { fields: ids.iter().map(|i| (*i).into()).collect() }
}
pub fn cpt(id: u32) -> TypeDefCompact<PortableForm> {
    TypeDefCompact { type_param: id.into() }
}
pub fn bitseq(store: u32, order: u32) -> TypeDefBitSequence<PortableForm> {
    TypeDefBitSequence { bit_store_type: store.into(), bit_order_type: order.into() }
}

pub const PRIMS: [P; 15] = [
    P::Bool, P::Char, P::Str, P::U8, P::U16, P::U32, P::U64, P::U128, P::U256, P::I8, P::I16, P::I32, P::I64, P::I128, P::I256,
];
pub const BOOL: u32 = 0;
pub const STR: u32 = 2;
pub const U8: u32 = 3;
pub const U16: u32 = 4;
pub const U32: u32 = 5;
pub const U64: u32 = 6;
pub const U128: u32 = 7;
pub const LSB: u32 = 15;
pub const MSB: u32 = 16;
pub const UNIT: u32 = 17;

/// Largest minimal encoding allowed for a type.
const MAX_MIN: usize = 6000;

#[derive(Clone, Debug)]
pub struct Builder {
    pub types: Vec<T>,
    /// Smallest encoding of the type in bytes (a lower estimate for recursive ones).
    pub minsz: Vec<usize>,
    /// Types that may stand under a compact.
    pub compactable: Vec<u32>,
    pub bitseqs: Vec<u32>,
    pub recursive: Vec<u32>,
    /// Number of enum nodes and the like is bounded through this.
    pub docs_on: bool,
}

/// Longer than any line.
pub const LONG_NAME: &str = "a_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_";
pub fn field_name(r: &mut Rng) -> Option<&'static str> {
    if let Some(w) = dict::word(r) {
        return Some(w);
    }
    match r.below(10) {
        0..=1 => None,
        2..=4 => Some(r.pick(&[
            LONG_NAME, "a", "value", "who", "amount", "dest", "index", "Ünï", "r#type", "", "inner field", "signature", "key", "id", "hash", "data",
            "remark", "call", "message", "0", "x-y",
        ])),
        5..=7 => Some(r.pick(&["nonce", "spec_version", "spec_name", "tx_version", "transaction_version"])),
        _ => Some(r.pick(&[
            "Nonce", "nonces", "nonce ", "_nonce", "spec_versions", "specVersion", "version", "transactions_version",
            "tx_versions", "specname", "spec_nam", "transaction", "tip", "Balance", "T::Balance", "genesis_hash", "era",
        ])),
    }
}
pub fn type_name(r: &mut Rng) -> Option<&'static str> {
    if let Some(w) = dict::word(r) {
        return Some(w);
    }
    match r.below(10) {
        0..=1 => None,
        2..=3 => Some(r.pick(&[
            "u32", "T::AccountId", "Vec<u8>", "Foo<T>", "Option<Balance>", "Compact<Balance>", "", "Box<T>", "Box<<T as Config>::RuntimeCall>", "Self",
            "Vec<Self>", "Option<Self>", "H256", "[u8; 32]", "[u8; 20]", "[u8; 64]", "[u8; 65]", "&'static str", "String", "bool", "T::Hash", "Perbill", "Call",
            "BoundedVec<u8, S>", "PhantomData<T>", "Cow<'static, str>", "WrapperKeepOpaque<T>", "BTreeMap<K, V>", "Range<u32>", "()", "Era", LONG_NAME,
        ])),
        4..=7 => Some(r.pick(&[
            "Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance", "PalletBalanceOf<T>", "T::Balance",
        ])),
        _ => Some(r.pick(&[
            "balance", "Balance ", "BalanceOf<T,I>", "BalanceOf", "BalanceOf<T, J>", "T::Balances", "PalletBalanceOf<T, I>",
            "DepositBalanceOf<T>", "nonce", "spec_version", "Balances", "T::CurrencyBalance", "BalanceOf<I>", "&Balance",
        ])),
    }
}
pub fn docs(r: &mut Rng) -> Vec<&'static str> {
    if let Some(w) = dict::word(r) {
        return vec![w];
    }
    match r.below(9) {
        0..=3 => vec![],
        8 => {
            // lines that repeat, are many, or look like nothing
            let n = r.pick(&[1, 2, 3, 4, 5, 9, 20, 70]);
            let l = r.pick(&["Same.", "x", " ", "", "\t tab", "# Title", "- item", "last\n"]);
            let k = r.idx(n);
            (0..n).map(|i| if i == k { r.pick(&["Same.", "one", "", " ", "same."]) } else { l }).collect()
        }
        4 => vec![r.pick(&["One line.", "päth", "[`Link`] text", " leading", "trailing ", "a\nb"])],
        5 => vec!["First.", "", "Third."],
        6 => vec![r.pick(&["", "x"])],
        _ => vec![r.pick(&["Alpha", "Beta", "Gamma"]), r.pick(&["delta", "", "zeta"])],
    }
}
fn variant_name(r: &mut Rng, i: usize) -> String {
    if let Some(w) = dict::about(r) {
        return w;
    }
    let base = r.pick(&["A", "Some", "None", "transfer", "set_code", "Ok", "Err", "Variant", "X1", "Call", LONG_NAME]);
    if r.chance(1, 10) {
        base.to_string()
    } else {
        format!("{base}{i}")
    }
}
fn path(r: &mut Rng, i: usize) -> Vec<String> {
    if r.chance(2, 5) {
        return vec![];
    }
    let mut v: Vec<String> = vec![];
    for _ in 0..r.below(3) {
        v.push(r.pick(&["pallet_x", "sp_core", "frame", "types", "a b", ">>", LONG_NAME]).to_string());
        if let Some(w) = dict::about(r) {
            v.push(w)
        }
    }
    v.push(if let Some(w) = dict::ident(r) {
        w
    } else if r.chance(1, 6) {
        // identifiers with a meaning for tuples only, and near misses of special names
        r.pick(&[
            "CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment", "CheckSpecVersion", "CheckGenesis", "CheckMortality",
            "AccountId", "AccountId33", "Calls", "call", "Eras", "H255", "H161", "Hash", "Perbills", "PerU32", "MultiSignatures",
            "Public", "Signature", "UncheckedExtrinsics", "RuntimeCalls", "Evenť", "RuntimeOrigin", "AccountId21", "BoundedVec",
            "Box", "Vec", "Option", "Result", "String", "BTreeMap", "BTreeSet", "Cow", "PhantomData", "WrapperOpaque", "Range", "NonZeroU32", "Duration", "BitVec",
            "Compact", "MultiAddress", "Data", "Digest", "Header", "Weight", "U256", "BigUint", "FixedU128", "Identity",
        ])
        .to_string()
    } else {
        format!("Ty{i}")
    });
    v
}

impl Builder {
    pub fn new() -> Self {
        let mut b = Builder { types: vec![], minsz: vec![], compactable: vec![U8, U16, U32, U64, U128], bitseqs: vec![], recursive: vec![], docs_on: true };
        for p in PRIMS.iter() {
            b.add(mk(&[], p.clone(), &[]));
        }
        b.add(mk(&["bitvec", "order", "Lsb0"], comp(vec![]), &[]));
        b.add(mk(&["bitvec", "order", "Msb0"], comp(vec![]), &[]));
        b.add(mk(&[], tup(&[]), &[]));
        b
    }
    pub fn add(&mut self, t: T) -> u32 {
        let m = self.min_of(&t);
        self.types.push(t);
        self.minsz.push(m);
        self.types.len() as u32 - 1
    }
    fn msz(&self, id: u32) -> usize {
        self.minsz.get(id as usize).copied().unwrap_or(1)
    }
    fn min_of(&self, t: &T) -> usize {
        let fs = |f: &Vec<F>| f.iter().map(|x| self.msz(x.ty.id)).fold(0usize, |a, b| a.saturating_add(b));
        match special(t) {
            Sp::None | Sp::Unchecked | Sp::Call | Sp::Event | Sp::MultiSig => {}
            Sp::Id | Sp::H256 | Sp::PubEd | Sp::PubSr | Sp::PubEc => return 33,
            Sp::H160 => return 20,
            Sp::H512 | Sp::SigEd | Sp::SigSr | Sp::SigEc => return 65,
            _ => return 8,
        }
        match &t.type_def {
            TypeDef::Composite(c) => fs(&c.fields),
            TypeDef::Variant(v) => 1 + v.variants.iter().map(|v| fs(&v.fields)).min().unwrap_or(0),
            TypeDef::Sequence(_) | TypeDef::Compact(_) | TypeDef::BitSequence(_) => 1,
            TypeDef::Array(a) => (a.len as usize).saturating_mul(self.msz(a.type_param.id)),
            TypeDef::Tuple(t) => t.fields.iter().map(|x| self.msz(x.id)).fold(0, |a, b| a.saturating_add(b)),
            TypeDef::Primitive(p) => match p {
                P::Bool | P::U8 | P::I8 | P::Str => 1,
                P::U16 | P::I16 => 2,
                P::Char | P::U32 | P::I32 => 4,
                P::U64 | P::I64 => 8,
                P::U128 | P::I128 => 16,
                _ => 32,
            },
        }
    }
    pub fn finish(self) -> PortableRegistry {
        registry(self.types)
    }

    /// An existing type, biased to the recent ones.
    pub fn any(&self, r: &mut Rng) -> u32 {
        let n = self.types.len() as u64;
        match r.below(10) {
            0..=2 => r.below(18) as u32,
            3..=6 => (n - 1 - r.below(n.min(8))) as u32,
            7 if !self.recursive.is_empty() => r.pick(&self.recursive),
            _ => r.below(n) as u32,
        }
    }
    fn any_small(&self, r: &mut Rng, limit: usize) -> u32 {
        for _ in 0..6 {
            let id = self.any(r);
            if self.msz(id) <= limit {
                return id;
            }
        }
        r.below(18) as u32
    }
    /// Not usable before it is defined.
    fn defined(&self, r: &mut Rng, limit: usize) -> u32 {
        for _ in 0..8 {
            let id = self.any_small(r, limit);
            if !self.recursive.contains(&id) {
                return id;
            }
        }
        r.below(18) as u32
    }
    pub fn field(&mut self, r: &mut Rng, ty: u32) -> F {
        let (n, t) = (field_name(r), type_name(r));
        let d = if self.docs_on { docs(r) } else { vec![] };
        fld(n, ty, t, &d)
    }
    pub fn fields(&mut self, r: &mut Rng, n: usize, limit: usize) -> Vec<F> {
        let named = r.chance(2, 3);
        (0..n)
            .map(|_| {
                // numbers are what hints act on
                let ty = if r.chance(1, 3) { r.pick(&[U8, U16, U32, U64, U128, STR]) } else { self.any_small(r, limit / (n + 1)) };
                let mut f = self.field(r, ty);
                if !named {
                    f.name = None
                }
                f
            })
            .collect()
    }
    fn nfields(r: &mut Rng) -> usize {
        if let Some(n) = dict::num(r, 0, 60) {
            return n as usize;
        }
        match r.below(10) {
            0 => 0,
            1..=4 => 1,
            5..=7 => 2,
            8 => 3,
            _ => r.range(4, 9) as usize,
        }
    }
    pub fn variants(&mut self, r: &mut Rng, n: usize, with_empty: bool) -> Vec<Var> {
        let mut idx: Vec<u8> = vec![];
        let mut out = vec![];
        for i in 0..n {
            let mut ix = match r.below(5) {
                0 => dict::num(r, 0, 255).map_or(r.byte(), |n| n as u8),
                1 => r.pick(&[127, 128, 255, 254, 64, 200]),
                _ => i as u8,
            };
            while idx.contains(&ix) {
                ix = ix.wrapping_add(1)
            }
            idx.push(ix);
            let nf = if with_empty && i == 0 { 0 } else { Self::nfields(r) };
            let fields = self.fields(r, nf, 400);
            let name = variant_name(r, i);
            let d = if self.docs_on { docs(r) } else { vec![] };
            out.push(var(&name, ix, fields, &d));
        }
        out
    }
    fn finish_ty(&mut self, r: &mut Rng, def: impl Into<TypeDef<PortableForm>>) -> u32 {
        let p = path(r, self.types.len());
        let ps: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
        let d = if self.docs_on { docs(r) } else { vec![] };
        let t = mk(&ps, def, &d);
        self.add(t)
    }
    fn special_path(r: &mut Rng, ident: &str) -> Vec<String> {
        let mut v = vec![];
        for _ in 0..r.below(3) {
            v.push(r.pick(&["sp_core", "crypto", "sp_runtime", "generic", "era", "primitive_types", "account"]).to_string())
        }
        v.push(ident.into());
        v
    }
    /// A type recognised by its path.
    pub fn add_special(&mut self, r: &mut Rng, which: usize) -> u32 {
        let d = docs(r);
        let (p, def): (Vec<String>, TypeDef<PortableForm>) = match which {
            0 => {
                let a = self.add(mk(&[], arr(U8, 32), &[]));
                (Self::special_path(r, "AccountId32"), comp(vec![fld(None, a, Some("[u8; 32]"), &[])]).into())
            }
            1 => {
                let mut vs = vec![var("Immortal", 0, vec![], &[])];
                for i in 1..=255u8 {
                    vs.push(var(&format!("Mortal{i}"), i, vec![fld(None, U8, None, &[])], &[]));
                }
                (Self::special_path(r, "Era"), enm(vs).into())
            }
            2 => {
                let a = self.add(mk(&[], arr(U8, 20), &[]));
                let id = r.pick(&["H160", "AccountId20"]);
                (Self::special_path(r, id), comp(vec![fld(None, a, Some("[u8; 20]"), &[])]).into())
            }
            3 => {
                let a = self.add(mk(&[], arr(U8, 32), &[]));
                (Self::special_path(r, "H256"), comp(vec![fld(None, a, Some("[u8; 32]"), &[])]).into())
            }
            4 => {
                let a = self.add(mk(&[], arr(U8, 64), &[]));
                (Self::special_path(r, "H512"), comp(vec![fld(None, a, Some("[u8; 64]"), &[])]).into())
            }
            5 => (Self::special_path(r, "PerU16"), comp(vec![fld(None, U16, Some("u16"), &[])]).into()),
            6 => (Self::special_path(r, "Percent"), comp(vec![fld(None, U8, Some("u8"), &[])]).into()),
            7 => (Self::special_path(r, "Permill"), comp(vec![fld(None, U32, Some("u32"), &[])]).into()),
            8 => (Self::special_path(r, "Perbill"), comp(vec![fld(None, U32, Some("u32"), &[])]).into()),
            9 => (Self::special_path(r, "Perquintill"), comp(vec![fld(None, U64, Some("u64"), &[])]).into()),
            10..=15 => {
                let (curve, what, len) = [
                    ("ed25519", "Public", 32),
                    ("sr25519", "Public", 32),
                    ("ecdsa", "Public", 33),
                    ("ed25519", "Signature", 64),
                    ("sr25519", "Signature", 64),
                    ("ecdsa", "Signature", 65),
                ][which - 10];
                let a = self.add(mk(&[], arr(U8, len), &[]));
                let mut p = vec!["sp_core".to_string(), curve.to_string(), what.to_string()];
                // near misses decode by structure
                match r.below(6) {
                    0 => p.insert(r.below(3) as usize, "app".into()),
                    1 => p[0] = "sp_application_crypto".into(),
                    2 => {
                        p.remove(0);
                    }
                    _ => {}
                }
                let name = format!("[u8; {len}]");
                (p, comp(vec![fld(None, a, Some(&name), &[])]).into())
            }
            16 => {
                let mut vs = vec![];
                for (i, (tn, len)) in [("ed25519::Signature", 64u32), ("sr25519::Signature", 64), ("ecdsa::Signature", 65)].iter().enumerate() {
                    if r.chance(1, 8) {
                        continue;
                    }
                    let len = if r.chance(1, 8) { len ^ 1 } else { *len };
                    let elem = if r.chance(1, 12) { U16 } else { U8 };
                    let mut ty = self.add(mk(&[], arr(elem, len), &[]));
                    for _ in 0..r.below(3) {
                        ty = self.add(mk(&["sp_core", &tn[..tn.find(':').unwrap()], "Signature_"], comp(vec![fld(None, ty, Some("[u8; 64]"), &[])]), &docs(r)));
                    }
                    if r.chance(1, 3) {
                        ty = self.add(mk(&["sp_core", &tn[..tn.find(':').unwrap()], "Signature"], comp(vec![fld(None, ty, Some("[u8; 64]"), &[])]), &docs(r)));
                    }
                    let tn = match r.below(10) {
                        0 => None,
                        1 => Some(r.pick(&["Signature", "sp_core::ed25519::Signature", "ed25519::Signatures", "[u8; 64]"])),
                        _ => Some(*tn),
                    };
                    let mut fs = vec![fld(if r.chance(1, 5) { Some("sig") } else { None }, ty, tn, &[])];
                    if r.chance(1, 10) {
                        fs.push(fld(None, U8, None, &[]));
                    }
                    let ix = if r.chance(1, 4) { 100 + i as u8 } else { i as u8 };
                    vs.push(var(["Ed25519", "Sr25519", "Ecdsa"][i], ix, fs, &docs(r)));
                }
                if r.chance(1, 3) || vs.is_empty() {
                    let f = self.fields(r, 1, 100);
                    vs.push(var("Other", 77, f, &[]));
                }
                (Self::special_path(r, "MultiSignature"), enm(vs).into())
            }
            17 => {
                let e = self.any_small(r, 100);
                let s = if r.chance(1, 2) { self.add(mk(&[], seq(U8), &[])) } else { e };
                (
                    vec!["sp_runtime".into(), "generic".into(), "unchecked_extrinsic".into(), "UncheckedExtrinsic".into()],
                    comp(vec![self.field(r, s)]).into(),
                )
            }
            18 => {
                // special names on types without the structure they need
                let id = r.pick(&["Call", "Event", "RuntimeCall", "RuntimeEvent", "MultiSignature"]);
                let n = Self::nfields(r);
                let f = self.fields(r, n, 200);
                (Self::special_path(r, id), comp(f).into())
            }
            _ => return self.add_pallets(r),
        };
        let ps: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
        let id = self.add(mk(&ps, def, &d));
        if (5..=9).contains(&which) {
            self.compactable.push(id);
        }
        id
    }
    /// Outer enum over pallets with an enum of calls or events each, with deviations.
    pub fn add_pallets(&mut self, r: &mut Rng) -> u32 {
        let is_call = r.chance(2, 3);
        let names: &[&str] = if is_call { &["Call", "RuntimeCall"] } else { &["Event", "RuntimeEvent"] };
        let other: &[&str] = if is_call { &["Event", "RuntimeEvent", "Calls", "Error"] } else { &["Call", "RuntimeCall", "Events"] };
        let mut vs = vec![];
        for i in 0..r.range(1, 5) as usize {
            let nv = r.range(1, 5) as usize;
            let inner_name = if r.chance(1, 7) { r.pick(other) } else { r.pick(names) };
            let inner_def: TypeDef<PortableForm> = match r.below(12) {
                0 => {
                    let f = self.fields(r, 1, 100);
                    comp(f).into()
                }
                _ => {
                    let v = self.variants(r, nv, false);
                    enm(v).into()
                }
            };
            let d = docs(r);
            let inner = self.add(mk(&["pallet", "pallet", inner_name], inner_def, &d));
            let mut fs = vec![fld(if r.chance(1, 8) { Some("inner") } else { None }, inner, Some("self::sp_api_hidden_includes::CallableCallFor"), &docs(r))];
            match r.below(12) {
                0 => fs.push(fld(None, U8, None, &[])),
                1 => fs.clear(),
                _ => {}
            }
            let name = dict::word(r).unwrap_or(r.pick(&["Balances", "Staking", "System", "Utility", "balances", "NominationPools", "Balances2"]));
            let ix = if r.chance(1, 3) { r.pick(&[200u8, 255, 128]).wrapping_add(i as u8) } else { i as u8 };
            if !vs.iter().any(|v: &Var| v.index == ix) {
                vs.push(var(name, ix, fs, &docs(r)));
            }
        }
        let d = docs(r);
        let nm = r.pick(names);
        self.add(mk(&["runtime", nm], enm(vs), &d))
    }
    pub fn add_random(&mut self, r: &mut Rng) -> u32 {
        match r.below(100) {
            0..=24 => {
                let n = Self::nfields(r);
                let f = self.fields(r, n, MAX_MIN);
                let single_numeric = f.len() == 1 && self.compactable.contains(&f[0].ty.id);
                let id = self.finish_ty(r, comp(f));
                if single_numeric && special(&self.types[id as usize]) == Sp::None {
                    self.compactable.push(id);
                }
                id
            }
            25..=39 => {
                let n = dict::num(r, 0, 60).unwrap_or(r.range(0, 6)) as usize;
                let v = self.variants(r, n, false);
                self.finish_ty(r, enm(v))
            }
            40..=53 => {
                let e = self.any(r);
                self.finish_ty(r, seq(e))
            }
            54..=62 => {
                let e = self.defined(r, MAX_MIN);
                let m = self.msz(e).max(1);
                let cap = (MAX_MIN / m).max(1) as u64;
                let n = r.pick(&[0, 1, 2, 3, 4, 5, 8, 20, 32, 33, 64, 65, 300]).min(cap);
                let n = dict::num(r, 0, cap.into()).map_or(n, |n| n as _);
                let n = if self.minsz[e as usize] == 0 { n.min(5) } else { n };
                self.finish_ty(r, arr(e, n as u32))
            }
            63..=72 => {
                let n = r.pick(&[0usize, 1, 1, 2, 2, 3, 5]);
                let ids: Vec<u32> = (0..n)
                    .map(|_| if r.chance(1, 3) { r.pick(&[U8, U32, U64, U128]) } else { self.defined(r, MAX_MIN / (n + 1)) })
                    .collect();
                let single = n == 1 && self.compactable.contains(&ids[0]);
                let id = self.finish_ty(r, tup(&ids));
                if single && special(&self.types[id as usize]) == Sp::None {
                    self.compactable.push(id);
                }
                id
            }
            73..=80 => {
                let c = if r.chance(1, 15) { UNIT } else { r.pick(&self.compactable) };
                self.finish_ty(r, cpt(c))
            }
            81..=86 => {
                let s = r.pick(&[U8, U16, U32, U64]);
                let o = r.pick(&[LSB, MSB]);
                let id = self.finish_ty(r, bitseq(s, o));
                self.bitseqs.push(id);
                id
            }
            _ => {
                let w = r.below(21) as usize;
                self.add_special(r, w)
            }
        }
    }
    /// Reserve ids for recursive enums; definitions are put in place by `close_recursion`.
    pub fn open_recursion(&mut self, r: &mut Rng, n: usize) {
        for _ in 0..n {
            let id = self.add(mk(&[], enm(vec![var("Leaf", 0, vec![], &[])]), &[]));
            let _ = r;
            self.recursive.push(id);
        }
    }
    pub fn close_recursion(&mut self, r: &mut Rng) {
        for id in self.recursive.clone() {
            let n = r.range(2, 4) as usize;
            let v = self.variants(r, n, true);
            // any reference is fine here: every cycle passes through the variant byte
            let p = path(r, id as usize);
            let ps: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
            self.types[id as usize] = mk(&ps, enm(v), &docs(r));
        }
    }
    /// A whole random description.
    pub fn random(r: &mut Rng, n: usize) -> Builder {
        let mut b = Builder::new();
        let k = r.below(3) as usize;
        b.open_recursion(r, k);
        for _ in 0..n {
            b.add_random(r);
        }
        b.close_recursion(r);
        b
    }
}

/// A name that differs a little from the given one.
pub fn near_name(r: &mut Rng, s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    let n = chars.len();
    if let Some(w) = dict::about(r) {
        return w;
    }
    match r.below(14) {
        0 => format!("{}{s}", r.pick(&["x", "X", "_", " ", "r#", "Runtime", "My", "pallet_", "::", "&"])),
        1 => format!("{s}{}", r.pick(&["s", "S", "_", " ", "2", "Of", "<T>", "\0", "::"])),
        2 => format!("{}{s}", r.pick(&["sp_core::", "bridge_", "bridge::", "T::", "super::super::", "Vec<", "some_crate_"])),
        3 => format!("{s}{}", r.pick(&["::Inner", ">", "32", "V3", "_v2", "Info", "<T, I>"])),
        4 => chars.iter().skip(1).collect(),
        5 => chars.iter().take(n.saturating_sub(1)).collect(),
        6 => s.to_lowercase(),
        7 => s.to_uppercase(),
        8 => {
            let mut c = chars;
            if n > 1 {
                let k = r.idx(n - 1);
                c.swap(k, k + 1);
            }
            c.into_iter().collect()
        }
        9 => {
            let mut c = chars;
            if n > 0 {
                let k = r.idx(n);
                c[k] = r.pick(&['x', '0', 'é', 'A', ' ']);
            }
            c.into_iter().collect()
        }
        10 => format!("{s}{s}"),
        11 => s.replace('_', ""),
        12 => s.replace(' ', ""),
        _ => s.split("::").last().unwrap().to_string(),
    }
}

/// Misspells names of types and fields here and there.
pub fn misname(r: &mut Rng, reg: &mut PortableRegistry, one_in: u64) {
    fn some(r: &mut Rng, s: &mut Option<String>, one_in: u64) {
        if let Some(s) = s {
            if r.chance(1, one_in) {
                *s = near_name(r, s);
            }
        }
    }
    for t in reg.types.iter_mut().map(|t| &mut t.ty) {
        for s in t.path.segments.iter_mut() {
            if r.chance(1, one_in) {
                *s = near_name(r, s);
            }
        }
        if t.path.segments.len() > 1 && r.chance(1, one_in) {
            match r.below(3) {
                0 => t.path.segments.reverse(),
                1 => t.path.segments.insert(0, "outer".into()),
                _ => t.path.segments.push("inner".into()),
            }
        }
        let fields: Vec<&mut F> = match &mut t.type_def {
            TypeDef::Composite(c) => c.fields.iter_mut().collect(),
            TypeDef::Variant(v) => v.variants.iter_mut().flat_map(|v| v.fields.iter_mut()).collect(),
            _ => vec![],
        };
        for f in fields {
            some(r, &mut f.name, one_in);
            some(r, &mut f.type_name, one_in);
        }
    }
}

/// References of a type description, to be redirected.
pub fn refs(t: &mut T) -> Vec<&mut u32> {
    fn id(s: &mut scale_info::interner::UntrackedSymbol<std::any::TypeId>) -> &mut u32 {
        &mut s.id
    }
    match &mut t.type_def {
        TypeDef::Composite(c) => c.fields.iter_mut().map(|f| id(&mut f.ty)).collect(),
        TypeDef::Variant(v) => v.variants.iter_mut().flat_map(|v| v.fields.iter_mut().map(|f| id(&mut f.ty))).collect(),
        TypeDef::Sequence(s) => vec![id(&mut s.type_param)],
        TypeDef::Array(a) => vec![id(&mut a.type_param)],
        TypeDef::Tuple(t) => t.fields.iter_mut().map(id).collect(),
        TypeDef::Compact(c) => vec![id(&mut c.type_param)],
        TypeDef::BitSequence(b) => vec![id(&mut b.bit_store_type), id(&mut b.bit_order_type)],
        TypeDef::Primitive(_) => vec![],
    }
}

pub fn registry(types: Vec<T>) -> PortableRegistry {
    PortableRegistry { types: types.into_iter().enumerate().map(|(i, ty)| PortableType { id: i as u32, ty }).collect() }
}

/// Number of levels in the smallest value of each type; `u32::MAX` when there is none.
pub fn heights(reg: &PortableRegistry) -> Vec<u32> {
    let n = reg.types.len();
    let mut h = vec![u32::MAX; n];
    loop {
        let mut changed = false;
        for i in 0..n {
            let g = |id: u32| h.get(id as usize).copied().unwrap_or(u32::MAX);
            let t = &reg.types[i].ty;
            let fs = |f: &Vec<F>| f.iter().map(|x| g(x.ty.id)).max().unwrap_or(0);
            let up = |x: u32| if x == u32::MAX { x } else { x + 1 };
            let new = match special(t) {
                Sp::None | Sp::Unchecked | Sp::Call | Sp::Event | Sp::MultiSig => match &t.type_def {
                    TypeDef::Composite(c) => up(fs(&c.fields)),
                    TypeDef::Variant(v) => {
                        if v.variants.is_empty() {
                            0
                        } else {
                            up(v.variants.iter().map(|v| fs(&v.fields)).min().unwrap())
                        }
                    }
                    TypeDef::Array(a) => {
                        if a.len == 0 {
                            0
                        } else {
                            up(g(a.type_param.id))
                        }
                    }
                    TypeDef::Tuple(t) => up(t.fields.iter().map(|x| g(x.id)).max().unwrap_or(0)),
                    TypeDef::Compact(c) => up(g(c.type_param.id)),
                    _ => 0,
                },
                _ => 0,
            };
            if new < h[i] {
                h[i] = new;
                changed = true;
            }
        }
        if !changed {
            return h;
        }
    }
}

pub fn put_compact(out: &mut Vec<u8>, v: u128) {
    if v < 1 << 6 {
        out.push((v as u8) << 2)
    } else if v < 1 << 14 {
        out.extend(((v as u16) << 2 | 1).to_le_bytes())
    } else if v < 1 << 30 {
        out.extend(((v as u32) << 2 | 2).to_le_bytes())
    } else {
        let n = 16 - (v.leading_zeros() as usize / 8);
        out.push(((n as u8 - 4) << 2) | 3);
        out.extend(&v.to_le_bytes()[..n]);
    }
}
/// A compact in a mode that is not the shortest, if there is one.
pub fn put_compact_wrong(r: &mut Rng, out: &mut Vec<u8>, v: u128) {
    let mode = if v < 1 << 6 { r.range(1, 3) } else if v < 1 << 14 { r.range(2, 3) } else { 3 };
    match mode {
        1 => out.extend(((v as u16) << 2 | 1).to_le_bytes()),
        2 => out.extend(((v as u32) << 2 | 2).to_le_bytes()),
        _ => {
            // one byte more than needed, at least 4
            let need = (16 - (v.leading_zeros() as usize / 8)).max(if v < 1 << 30 { 3 } else { 4 });
            let n = (need + 1).clamp(4, 67);
            out.push(((n as u8 - 4) << 2) | 3);
            for i in 0..n {
                out.push(if i < 16 { v.to_le_bytes()[i] } else { 0 });
            }
        }
    }
}

pub struct Gv<'a> {
    pub r: &'a mut Rng,
    pub reg: &'a PortableRegistry,
    pub h: &'a [u32],
    pub out: Vec<u8>,
    /// Remaining nodes; when used up the smallest values are taken.
    pub nodes: i64,
    /// Leaf number at which an invalid encoding is written.
    pub poison: Option<u64>,
    pub leaf_no: u64,
    pub poisoned: Option<&'static str>,
    pub max_depth: u32,
    pub big: bool,
    /// Compact per-things may be above their maximum; they then stand for the maximum.
    pub excess: bool,
    pub exceeded: bool,
    /// What long parts may still use.
    left: u64,
}

impl<'a> Gv<'a> {
    pub fn new(r: &'a mut Rng, reg: &'a PortableRegistry, h: &'a [u32]) -> Self {
        let nodes = r.pick(&[5, 30, 100, 300]);
        Gv { r, reg, h, out: vec![], nodes, poison: None, leaf_no: 0, poisoned: None, max_depth: 30, big: false, excess: false, exceeded: false, left: 100_000 }
    }
    fn hit(&mut self) -> bool {
        self.leaf_no += 1;
        self.poison == Some(self.leaf_no - 1) && self.poisoned.is_none()
    }
    fn raw(&mut self, kind: &str, n: usize) -> V {
        let mut b = self.r.bytes(n);
        match self.r.below(14) {
            0 => b.fill(0),
            1 => b.fill(0xff),
            2 => b[0] = 0,
            3 => b[n - 1] = 0,
            4 | 5 => {
                // something alone, first, last or in between
                b.fill(self.r.pick(&[0, 0, 0xff]));
                let k = self.r.pick(&[0, n - 1, n / 2, n - n.min(2), self.r.clone().idx(n)]);
                b[k] = self.r.pick(&[1, 0x7f, 0x80, 0x81, 0xfe, 0xff, self.r.clone().byte()]);
            }
            6 => b[n - 1] = self.r.pick(&[1, 0x7f, 0x80, 0x81, 0xfe, 0xff]),
            _ => {}
        }
        self.out.extend(&b);
        leaf_bytes(kind, &b)
    }
    fn per(&mut self, kind: &'static str, bytes: usize, max: u128, compact: bool) -> V {
        let limit = if bytes == 16 { u128::MAX } else { (1u128 << (8 * bytes)) - 1 };
        if self.hit() {
            if compact {
                let v = self.r.uint(bytes as u32 * 8).min(max);
                put_compact_wrong(self.r, &mut self.out, v);
                self.poisoned = Some("compact");
                return V::EmptyEnum;
            }
            if max < limit {
                let v = if self.r.chance(1, 2) { max + 1 } else { self.r.uint(bytes as u32 * 8).max(max + 1) };
                self.out.extend(&v.to_le_bytes()[..bytes]);
                self.poisoned = Some("per-thing");
                return V::EmptyEnum;
            }
        }
        if compact && self.excess && max < limit && self.r.chance(1, 2) {
            let v = match self.r.below(4) {
                0 => max + 1,
                1 => limit,
                _ => self.r.uint(bytes as u32 * 8).max(max + 1),
            };
            put_compact(&mut self.out, v);
            self.exceeded = true;
            return V::Leaf(format!("{kind}:{max}"));
        }
        let v = match self.r.below(6) {
            0 => 0,
            1 => max,
            2 => max - 1,
            _ => self.r.uint(bytes as u32 * 8) % (max + 1),
        };
        if compact {
            put_compact(&mut self.out, v)
        } else {
            self.out.extend(&v.to_le_bytes()[..bytes])
        }
        V::Leaf(format!("{kind}:{v}"))
    }
    fn count(&mut self, elem_min: u32) -> u64 {
        let _ = elem_min;
        if self.nodes <= 0 {
            return 0;
        }
        match self.r.below(20) {
            0..=3 => 0,
            4..=7 => 1,
            8..=10 => 2,
            11..=13 => 3,
            14..=16 => self.r.range(4, 12),
            17 => 63,
            18 => self.r.range(60, 70),
            _ => self.r.range(12, 40),
        }
    }
    pub fn uint_leaf(&mut self, bits: u32, compact: bool) -> V {
        let v = self.r.uint(bits);
        if compact {
            if self.hit() {
                // not canonical, or canonical but too large for the width
                if bits < 128 && self.r.chance(1, 2) {
                    let big = (1u128 << bits) + self.r.uint(bits) % (1 << bits.min(100));
                    put_compact(&mut self.out, big);
                } else {
                    put_compact_wrong(self.r, &mut self.out, v);
                }
                self.poisoned = Some("compact");
                return V::EmptyEnum;
            }
            put_compact(&mut self.out, v)
        } else {
            self.out.extend(&v.to_le_bytes()[..bits as usize / 8])
        }
        V::Leaf(format!("u{bits}:{v}"))
    }
    fn signed(&mut self, bits: u32) -> V {
        let v = self.r.uint(bits);
        let s = 128 - bits;
        let i = ((v << s) as i128) >> s;
        self.out.extend(&v.to_le_bytes()[..bits as usize / 8]);
        V::Leaf(format!("i{bits}:{i}"))
    }
    fn fields(&mut self, f: &[F], d: u32, compact: bool) -> Vec<(Option<String>, V)> {
        f.iter().map(|x| (x.name.clone(), self.val(x.ty.id, d + 1, compact))).collect()
    }
    fn choose<'b>(&mut self, vs: &'b [Var], d: u32) -> &'b Var {
        let tall = |v: &Var, h: &[u32]| v.fields.iter().map(|f| h[f.ty.id as usize]).max().unwrap_or(0);
        if self.nodes <= 0 || d >= self.max_depth {
            return vs.iter().min_by_key(|v| tall(v, self.h)).unwrap();
        }
        for _ in 0..10 {
            let v = &vs[self.r.below(vs.len() as u64) as usize];
            if tall(v, self.h) != u32::MAX {
                return v;
            }
        }
        vs.iter().min_by_key(|v| tall(v, self.h)).unwrap()
    }
    fn bad_variant(&mut self, vs: &[Var]) -> bool {
        let free: Vec<u8> = (0..=255u8).filter(|b| !vs.iter().any(|v| v.index == *b)).collect();
        if free.is_empty() {
            return false;
        }
        let b = self.r.pick(&free);
        self.out.push(b);
        self.poisoned = Some("variant");
        true
    }

    pub fn val(&mut self, id: u32, d: u32, compact: bool) -> V {
        self.nodes -= 1;
        let reg = self.reg;
        let t = &reg.types[id as usize].ty;
        match special(t) {
            Sp::None | Sp::Unchecked => {}
            Sp::Id => return self.raw("id", 32),
            Sp::H160 => return self.raw("h160", 20),
            Sp::H256 => return self.raw("h256", 32),
            Sp::H512 => return self.raw("h512", 64),
            Sp::PubEd => return self.raw("pub-ed25519", 32),
            Sp::PubSr => return self.raw("pub-sr25519", 32),
            Sp::PubEc => return self.raw("pub-ecdsa", 33),
            Sp::SigEd => return self.raw("sig-ed25519", 64),
            Sp::SigSr => return self.raw("sig-sr25519", 64),
            Sp::SigEc => return self.raw("sig-ecdsa", 65),
            Sp::PerU16 => return self.per("peru16", 2, 65535, compact),
            Sp::Percent => return self.per("percent", 1, 100, compact),
            Sp::Permill => return self.per("permill", 4, 1_000_000, compact),
            Sp::Perbill => return self.per("perbill", 4, 1_000_000_000, compact),
            Sp::Perquintill => return self.per("perquintill", 8, 1_000_000_000_000_000_000, compact),
            Sp::Era => {
                if self.hit() {
                    // period 2, or phase outside the period
                    let mut b = [self.r.byte(), self.r.byte()];
                    if self.r.chance(1, 2) {
                        b[0] &= 0xf0;
                    } else {
                        b = [(self.r.range(1, 9) as u8) | 0xf0, 0xff];
                    }
                    if b[0] == 0 {
                        b[0] = 0x10
                    }
                    self.out.extend(b);
                    self.poisoned = Some("era");
                    return V::EmptyEnum;
                }
                return self.era();
            }
            Sp::MultiSig => {
                if let TypeDef::Variant(x) = &t.type_def {
                    if self.hit() && self.bad_variant(&x.variants) {
                        return V::EmptyEnum;
                    }
                    let v = self.choose(&x.variants, d);
                    self.out.push(v.index);
                    if let [f] = &v.fields[..] {
                        if let (Some(tn), Some(("u8", len))) = (f.type_name.as_deref(), self.array_below(f.ty.id)) {
                            match (tn, len) {
                                ("ed25519::Signature", 64) => return self.raw("sig-ed25519", 64),
                                ("sr25519::Signature", 64) => return self.raw("sig-sr25519", 64),
                                ("ecdsa::Signature", 65) => return self.raw("sig-ecdsa", 65),
                                _ => {}
                            }
                        }
                    }
                    let f = self.fields(&v.fields, d, false);
                    return V::Enum(v.name.clone(), f);
                }
            }
            kind @ (Sp::Call | Sp::Event) => {
                if let TypeDef::Variant(x) = &t.type_def {
                    if x.variants.is_empty() {
                        return V::EmptyEnum;
                    }
                    if self.hit() && self.bad_variant(&x.variants) {
                        return V::EmptyEnum;
                    }
                    let v = self.choose(&x.variants, d);
                    self.out.push(v.index);
                    if let [f] = &v.fields[..] {
                        let it = &reg.types[f.ty.id as usize].ty;
                        if let (TypeDef::Variant(iv), true) = (&it.type_def, special(it) == kind) {
                            if (self.hit() || iv.variants.is_empty()) && self.bad_variant(&iv.variants) {
                                return V::EmptyEnum;
                            }
                            let w = self.choose(&iv.variants, d + 1);
                            self.out.push(w.index);
                            let f = self.fields(&w.fields, d + 1, false);
                            let k = if kind == Sp::Call { "Call" } else { "Event" };
                            return V::Pallet(k, v.name.clone(), w.name.clone(), f);
                        }
                    }
                    let f = self.fields(&v.fields, d, false);
                    return V::Enum(v.name.clone(), f);
                }
            }
        }
        match &t.type_def {
            TypeDef::Composite(c) => V::Struct(self.fields(&c.fields, d, compact)),
            TypeDef::Variant(x) => {
                if x.variants.is_empty() {
                    return V::EmptyEnum;
                }
                if self.hit() && self.bad_variant(&x.variants) {
                    return V::EmptyEnum;
                }
                let v = self.choose(&x.variants, d);
                self.out.push(v.index);
                let f = self.fields(&v.fields, d, false);
                V::Enum(v.name.clone(), f)
            }
            TypeDef::Sequence(s) => {
                let e = s.type_param.id;
                let eh = self.h[e as usize];
                let mut n = if eh == u32::MAX || d >= self.max_depth { 0 } else { self.count(eh) };
                let et = &reg.types[e as usize].ty;
                if let (true, TypeDef::Primitive(P::U8 | P::Bool | P::U16 | P::U32)) = (self.big && self.r.chance(1, 2), &et.type_def) {
                    n = self.r.pick(&[16383, 16384, 16385, 65535, 65536, 65537, 70000, 131073]);
                    self.big = false;
                }
                if self.hit() {
                    put_compact_wrong(self.r, &mut self.out, n as u128);
                    self.poisoned = Some("compact");
                    return V::EmptyEnum;
                }
                if matches!(et.type_def, TypeDef::Primitive(P::U8)) && n < 100 && self.r.chance(1, 4) {
                    // bytes that are text
                    let mut t: String = (0..n).map(|_| self.chr()).collect();
                    t.push(self.r.odd_char());
                    if self.r.chance(1, 3) {
                        t.insert(0, self.r.odd_char());
                    }
                    put_compact(&mut self.out, t.len() as u128);
                    self.out.extend(t.as_bytes());
                    return V::Seq(t.bytes().map(|b| V::Leaf(format!("u8:{b}"))).collect());
                }
                if let (true, Some(k)) = (matches!(et.type_def, TypeDef::Primitive(_)), self.long()) {
                    n = k;
                }
                put_compact(&mut self.out, n as u128);
                self.elements(e, n, d)
            }
            TypeDef::Array(a) => self.elements(a.type_param.id, a.len as u64, d),
            TypeDef::Tuple(tp) => V::Tuple(tp.fields.iter().map(|x| self.val(x.id, d + 1, compact)).collect()),
            TypeDef::Compact(c) => self.val(c.type_param.id, d + 1, true),
            TypeDef::BitSequence(b) => {
                let n = match self.r.below(8) {
                    0 => 0,
                    1 => self.r.range(1, 8),
                    2 => self.r.range(1, 70),
                    3 => self.r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
                    _ => self.r.below(150),
                } as usize;
                let n = if self.big && self.r.chance(1, 3) { self.r.pick(&[16383, 16384, 20001, 65535, 65536, 70000, 131074]) } else { n };
                let n = self.long().map_or(n, |n| n as usize);
                self.bits(b.bit_store_type.id, b.bit_order_type.id, n)
            }
            TypeDef::Primitive(p) => self.prim(p, compact),
        }
    }
    /// Sometimes a length that the code mentions.
    fn long(&mut self) -> Option<u64> {
        let most = if self.r.chance(1, 20) { 70_000 } else { 600 };
        let n = dict::num(self.r, 0, most.min(self.left))?;
        self.left -= n;
        Some(n)
    }
    /// Kind of element and length if the type is an array under single-field wrappers.
    fn array_below(&self, mut id: u32) -> Option<(&'static str, u32)> {
        loop {
            let t = &self.reg.types[id as usize].ty;
            if special(t) != Sp::None {
                return None;
            }
            match &t.type_def {
                TypeDef::Composite(c) if c.fields.len() == 1 => id = c.fields[0].ty.id,
                TypeDef::Array(a) => {
                    let u8s = matches!(self.reg.types[a.type_param.id as usize].ty.type_def, TypeDef::Primitive(P::U8));
                    return Some((if u8s { "u8" } else { "other" }, a.len));
                }
                _ => return None,
            }
        }
    }
    fn elements(&mut self, e: u32, n: u64, d: u32) -> V {
        let mut v = vec![];
        for _ in 0..n {
            let x = self.val(e, d + 1, false);
            v.push(strip(x));
            if self.poisoned.is_some() {
                break;
            }
        }
        V::Seq(v)
    }
    fn era(&mut self) -> V {
        if self.r.chance(1, 4) {
            self.out.push(0);
            return V::Leaf("era:immortal".into());
        }
        let k = self.r.range(1, 15) as u32; // period = 2^(k+1)
        let period = 2u64 << k;
        let q = (period >> 12).max(1);
        let slots = period / q;
        let s = match self.r.below(4) {
            0 => 0,
            1 => slots - 1,
            _ => self.r.below(slots),
        };
        let code = k as u64 | s << 4;
        self.out.extend(&(code as u16).to_le_bytes());
        // a first byte of zero would be the immortal era
        V::Leaf(format!("era:{period}/{}", s * q))
    }
    pub fn bits(&mut self, store: u32, order: u32, n: usize) -> V {
        let w = match store {
            U8 => 8,
            U16 => 16,
            U32 => 32,
            U64 => 64,
            o => match &self.reg.types[o as usize].ty.type_def {
                TypeDef::Primitive(P::U8) => 8,
                TypeDef::Primitive(P::U16) => 16,
                TypeDef::Primitive(P::U32) => 32,
                _ => 64,
            },
        };
        let lsb = self.reg.types[order as usize].ty.path.segments.last().map(|s| s == "Lsb0").unwrap_or(true);
        let style = self.r.below(5);
        let bits: Vec<bool> = (0..n)
            .map(|i| match style {
                0 => false,
                1 => true,
                2 => i == n - 1 || i == 0,
                _ => self.r.chance(1, 2),
            })
            .collect();
        put_compact(&mut self.out, n as u128);
        // elements as numbers, little-endian
        for ch in bits.chunks(w) {
            let mut e: u64 = 0;
            for (i, b) in ch.iter().enumerate() {
                if *b {
                    e |= 1u64 << if lsb { i } else { w - 1 - i };
                }
            }
            self.out.extend(&e.to_le_bytes()[..w / 8]);
        }
        crate::val::bits_leaf(bits.into_iter())
    }
    fn prim(&mut self, p: &P, compact: bool) -> V {
        match p {
            P::Bool => {
                if self.hit() {
                    let b = self.r.range(2, 255) as u8;
                    self.out.push(b);
                    self.poisoned = Some("bool");
                    return V::EmptyEnum;
                }
                let b = self.r.chance(1, 2);
                self.out.push(b as u8);
                V::Leaf(format!("bool:{b}"))
            }
            P::Char => {
                if self.hit() {
                    let c = match self.r.below(4) {
                        0 => self.r.range(0xd800, 0xdfff) as u32,
                        1 => 0x110000,
                        _ => self.r.range(0x110000, 0xffff_ffff) as u32,
                    };
                    self.out.extend(c.to_le_bytes());
                    self.poisoned = Some("char");
                    return V::EmptyEnum;
                }
                let c = self.chr();
                self.out.extend((c as u32).to_le_bytes());
                V::Leaf(format!("char:{}", c as u32))
            }
            P::Str => {
                let mut s = String::new();
                let n = match self.r.below(8) {
                    0 => 0,
                    1 => 63,
                    2 => 64,
                    _ => self.r.below(20),
                };
                let n = if self.big && self.r.chance(1, 4) { self.r.pick(&[16383, 16384, 16400, 65535, 65536, 70000]) } else { n };
                let n = self.long().unwrap_or(n);
                if let Some(w) = dict::about(self.r) {
                    s += &w;
                }
                for _ in 0..n {
                    s.push(self.chr());
                }
                if n > 0 && self.r.chance(1, 4) {
                    s.insert(0, self.r.odd_char());
                }
                if self.r.chance(1, 3) {
                    s.push(self.r.odd_char());
                }
                if self.hit() {
                    let at = match self.r.below(3) {
                        0 => 0,
                        1 => s.len(),
                        _ => {
                            let mut k = self.r.idx(s.len() + 1);
                            while !s.is_char_boundary(k) {
                                k -= 1;
                            }
                            k
                        }
                    };
                    let mut b = s.into_bytes();
                    let bad: &[u8] = self.r.pick(&[&[0xff][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0x80]]);
                    for (i, x) in bad.iter().enumerate() {
                        b.insert(at + i, *x);
                    }
                    // a cut multibyte character in front of a valid one stays invalid
                    put_compact(&mut self.out, b.len() as u128);
                    self.out.extend(b);
                    self.poisoned = Some("text");
                    return V::EmptyEnum;
                }
                put_compact(&mut self.out, s.len() as u128);
                self.out.extend(s.as_bytes());
                V::Leaf(format!("str:{s}"))
            }
            P::U8 => self.uint_leaf(8, compact),
            P::U16 => self.uint_leaf(16, compact),
            P::U32 => self.uint_leaf(32, compact),
            P::U64 => self.uint_leaf(64, compact),
            P::U128 => self.uint_leaf(128, compact),
            P::U256 => self.raw("u256", 32),
            P::I8 => self.signed(8),
            P::I16 => self.signed(16),
            P::I32 => self.signed(32),
            P::I64 => self.signed(64),
            P::I128 => self.signed(128),
            P::I256 => self.raw("i256", 32),
        }
    }
    fn chr(&mut self) -> char {
        match self.r.below(10) {
            0 => self.r.odd_char(),
            1 => char::from_u32(self.r.range(0x20, 0xd7ff) as u32).unwrap(),
            _ => (self.r.range(0x20, 0x7e) as u8) as char,
        }
    }
}
