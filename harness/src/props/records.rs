//! C27: records of settings and metadata survive encoding.
use crate::cardmodel::short_specs;
use crate::common::*;
use crate::gen::put_compact;
use crate::mem::sym;
use crate::op;
use crate::rng::Rng;
use crate::run::{guarded, hash_bytes, mix, Local, Pan, Runner, Spec};
use parity_scale_codec::{Decode, DecodeAll, Encode};
use scale_info::form::PortableForm;
use substrate_parser::traits::{ExtrinsicTypeParams, SignedExtensionMetadata, SpecNameVersion};
use substrate_parser::ShortSpecs;

fn run<T>(st: &mut Local, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match guarded(f) {
        Ok(x) => Some(x),
        Err(Pan::Code(e)) => {
            st.fail(format!("{what}: {e}"));
            None
        }
        Err(Pan::Budget(n)) => {
            st.fail(format!("{what}: more than {n} steps"));
            None
        }
        Err(Pan::Harness(e)) => panic!("{e}"),
    }
}

fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "x".repeat(r.pick(&[62, 63, 64, 65, 255, 256, 16383, 16384, 16385])),
        2 => crate::dict::word(r).unwrap_or("unit").to_string(),
        3 => (0..r.idx(80)).map(|_| r.odd_char()).collect(),
        4 => r.pick(&[" a", "a ", "A", "\0", "\n", "0", "DOT", "1000", "polkadot"]).to_string(),
        5 => r.uint(128).to_string(),
        _ => r.text(),
    }
}
fn put_text(o: &mut Vec<u8>, s: &str) {
    put_compact(o, s.len() as u128);
    o.extend(s.as_bytes());
}
fn id(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => r.below(1000) as u32,
        1 => r.pick(&[0u32, 63, 64, 255, 256, 16383, 16384, 65535, 65536, (1 << 30) - 1, 1 << 30, u32::MAX]),
        _ => r.uint(32) as u32,
    }
}

/// One record: what is in it (told), how it is encoded.
trait Record: Encode + Decode + Clone + std::fmt::Debug {
    fn make(r: &mut Rng) -> Self;
    fn bytes(&self) -> Vec<u8>;
    fn told(&self) -> Vec<String>;
    /// Another one that differs in one place.
    fn other(&self, r: &mut Rng) -> Self;
    fn same(&self, o: &Self) -> Option<bool>;
}
impl Record for ShortSpecs {
    fn make(r: &mut Rng) -> Self {
        let mut s = short_specs(r);
        if r.chance(1, 2) {
            s = ShortSpecs { base58prefix: r.uint(16) as u16, decimals: r.byte(), unit: text(r) };
        }
        s
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = self.base58prefix.to_le_bytes().to_vec();
        o.push(self.decimals);
        put_text(&mut o, &self.unit);
        o
    }
    fn told(&self) -> Vec<String> {
        vec![self.base58prefix.to_string(), self.decimals.to_string(), self.unit.clone()]
    }
    fn other(&self, r: &mut Rng) -> Self {
        let mut s = self.clone();
        match r.below(3) {
            0 => s.base58prefix ^= 1 << r.below(16),
            1 => s.decimals ^= 1 << r.below(8),
            _ => s.unit.push(' '),
        }
        s
    }
    fn same(&self, _: &Self) -> Option<bool> {
        None
    }
}
impl Record for SpecNameVersion {
    fn make(r: &mut Rng) -> Self {
        SpecNameVersion { printed_spec_version: text(r), spec_name: text(r) }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put_text(&mut o, &self.printed_spec_version);
        put_text(&mut o, &self.spec_name);
        o
    }
    fn told(&self) -> Vec<String> {
        vec![self.printed_spec_version.clone(), self.spec_name.clone()]
    }
    fn other(&self, r: &mut Rng) -> Self {
        let mut s = self.clone();
        let t = if r.chance(1, 2) { &mut s.spec_name } else { &mut s.printed_spec_version };
        match t.pop() {
            Some(c) if r.chance(1, 2) => t.extend(c.to_uppercase().next().filter(|u| *u != c)),
            Some(_) => {}
            None => t.push('0'),
        }
        s
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
}
impl Record for SignedExtensionMetadata {
    fn make(r: &mut Rng) -> Self {
        SignedExtensionMetadata { identifier: text(r), ty: sym(id(r)), additional_signed: sym(id(r)) }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put_text(&mut o, &self.identifier);
        put_compact(&mut o, self.ty.id as u128);
        put_compact(&mut o, self.additional_signed.id as u128);
        o
    }
    fn told(&self) -> Vec<String> {
        vec![self.identifier.clone(), self.ty.id.to_string(), self.additional_signed.id.to_string()]
    }
    fn other(&self, r: &mut Rng) -> Self {
        let mut s = self.clone();
        match r.below(3) {
            0 => s.identifier.push('1'),
            1 => s.ty = sym(s.ty.id ^ 1 << r.below(32)),
            _ => s.additional_signed = sym(s.additional_signed.id ^ 1 << r.below(32)),
        }
        s
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
}
impl Record for ExtrinsicTypeParams {
    fn make(r: &mut Rng) -> Self {
        ExtrinsicTypeParams { address_ty: sym(id(r)), call_ty: sym(id(r)), signature_ty: sym(id(r)), extra_ty: sym(id(r)) }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for s in [self.address_ty, self.call_ty, self.signature_ty, self.extra_ty] {
            put_compact(&mut o, s.id as u128);
        }
        o
    }
    fn told(&self) -> Vec<String> {
        [self.address_ty, self.call_ty, self.signature_ty, self.extra_ty].iter().map(|s| s.id.to_string()).collect()
    }
    fn other(&self, r: &mut Rng) -> Self {
        let mut s = self.clone();
        let k = r.below(4);
        let t = match k {
            0 => &mut s.address_ty,
            1 => &mut s.call_ty,
            2 => &mut s.signature_ty,
            _ => &mut s.extra_ty,
        };
        *t = sym(t.id ^ 1 << r.below(32));
        s
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
}

fn record<T: Record>(r: &mut Rng, st: &mut Local, what: &str, case: u64) {
    let x = T::make(r);
    let due = x.bytes();
    let Some(got) = run(st, what, || x.encode()) else { return };
    if got != due {
        st.fail(format!("{what} {:?} is encoded as {}, should be {}", x.told(), hexs(&got), hexs(&due)));
        return;
    }
    // alone, and with something behind it
    let Some(y) = run(st, what, || T::decode_all(&mut &due[..])) else { return };
    match y {
        Ok(y) if y.told() == x.told() => {}
        y => st.fail(format!("{what} {:?} comes back as {:?}", x.told(), y.map(|y| y.told()))),
    }
    let z = T::make(r);
    let mut two = due.clone();
    two.extend(z.bytes());
    let Some(ab) = run(st, what, || {
        let d = &mut &two[..];
        let a = T::decode(d).map(|a| a.told());
        let left = d.len();
        (a, left, T::decode(d).map(|a| a.told()), d.len())
    }) else { return };
    if ab.0.as_ref() != Ok(&x.told()) || ab.1 != two.len() - due.len() || ab.2.as_ref() != Ok(&z.told()) || ab.3 != 0 {
        st.fail(format!("{what} {:?} and {:?} one after the other come back as {ab:?}", x.told(), z.told()));
    }
    let list = vec![x.clone(), z.clone(), x.clone()];
    let mut all = vec![12u8];
    [&x, &z, &x].iter().for_each(|e| all.extend(e.bytes()));
    if list.encode() != all || <Vec<T>>::decode_all(&mut &all[..]).map(|l| l.iter().map(|x| x.told()).collect::<Vec<_>>()) != Ok(list.iter().map(|x| x.told()).collect::<Vec<_>>()) {
        st.fail(format!("a list of {what} {:?}, {:?} does not come back", x.told(), z.told()));
    }
    // incomplete
    for cut in [due.len() - 1, r.idx(due.len())] {
        let Some(y) = run(st, what, || T::decode(&mut &due[..cut])) else { return };
        if let Ok(y) = y {
            st.fail(format!("{what} {:?} from {cut} of {} bytes gives {:?}", x.told(), due.len(), y.told()));
        }
    }
    // a size told beforehand is not beyond what there is room for
    if x.size_hint() > 0 && x.encoded_size() != due.len() {
        st.fail(format!("{what} {:?}: encoded size {} is not {}", x.told(), x.encoded_size(), due.len()));
    }
    // copies and comparison
    let o = x.other(r);
    if x.clone().told() != x.told() || x.same(&x.clone()) == Some(false) || x.same(&o) == Some(true) || o.same(&x) == Some(true) {
        st.fail(format!("{what} {:?}: a copy, or one that differs, {:?}, is not told to be", x.told(), o.told()));
    }
    st.class(what);
    st.eval(mix(hash_bytes(&due), case));
    st.sample(|| format!("{what} {} => {}", cut(format!("{:?}", x.told()), 120), cut(hexs(&due), 120)));
}

/// Taken from metadata of both versions.
fn taken(r: &mut Rng, st: &mut Local, case: u64) {
    let x = SignedExtensionMetadata::make(r);
    let a = frame_metadata::v14::SignedExtensionMetadata::<PortableForm> { identifier: x.identifier.clone(), ty: x.ty, additional_signed: x.additional_signed };
    let b = frame_metadata::v15::SignedExtensionMetadata::<PortableForm> { identifier: x.identifier.clone(), ty: x.ty, additional_signed: x.additional_signed };
    for y in [SignedExtensionMetadata::from(a), SignedExtensionMetadata::from(b)] {
        if y.told() != x.told() {
            st.fail(format!("extension {:?} is taken as {:?}", x.told(), y.told()));
        }
    }
    st.eval(mix(hash_bytes(&x.bytes()), case | 1 << 50));
}

fn again<T: Record>(x: &T, st: &mut Local) -> Option<T> {
    match run(st, "a record", || T::decode_all(&mut &x.encode()[..]))? {
        Ok(y) => Some(y),
        Err(_) => {
            st.fail(format!("{:?} does not come back", x.told()));
            None
        }
    }
}

/// Whole operations with records that went through encoding.
fn operation(r: &mut Rng, st: &mut Local, case: u64) {
    let real = if real_worlds().is_empty() { 0 } else { 3 };
    let Some(c) = op::gen(r, real, 70) else { return };
    if op::model_ok(&c).is_none() {
        st.skip();
        return;
    }
    let mut meta = c.meta.clone();
    if let Ok(s) = &meta.spec {
        let Some(s) = again(s, st) else { return };
        meta.spec = Ok(s);
    }
    let Some(p) = again(&meta.params, st) else { return };
    meta.params = p;
    let exts: Option<Vec<_>> = meta.exts.iter().map(|e| again(e, st)).collect();
    let Some(exts) = exts else { return };
    meta.exts = exts;
    let sent = op::Case { meta, op: c.op.clone(), data: c.data.clone(), how: c.how.clone() };
    let (Some(a), Some(b)) = (run(st, "an operation", || op::run_plain(&c)), run(st, "an operation", || op::run_plain(&sent))) else { return };
    if a != b {
        st.fail(format!("differs with records that were encoded; {}", op::say(&c)));
        return;
    }
    let specs = ShortSpecs::make(r);
    let Some(specs2) = again(&specs, st) else { return };
    if let (Ok(a), Ok(b)) = (a, b) {
        let name = r.pick(&["polkadot", "kusama", "x"]);
        let (Some(x), Some(y)) = (run(st, "cards", || op::cards(a, 0, &specs, name)), run(st, "cards", || op::cards(b, 0, &specs2, name))) else { return };
        if x != y {
            let k = x.iter().zip(y.iter()).position(|(a, b)| a != b).unwrap_or(0);
            st.fail(format!("shown as {:?} instead of {:?} with settings that were encoded; {}", y.get(k), x.get(k), op::say(&c)));
        }
        st.class("shown");
    }
    st.class("operation");
    st.eval(mix(hash_bytes(&c.data), case));
}

fn c27(run: &Runner) {
    run.stage("records", run.cfg.n(150_000), |r, c, st| {
        record::<ShortSpecs>(r, st, "display settings", c);
        record::<SpecNameVersion>(r, st, "name and version", c);
        record::<SignedExtensionMetadata>(r, st, "extension", c);
        record::<ExtrinsicTypeParams>(r, st, "extrinsic types", c);
        taken(r, st, c);
    });
    run.stage("operations", run.cfg.n(40_000), |r, c, st| operation(r, st, c));
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C27",
        rule: "Display settings, spec names and versions, extension entries and extrinsic types with any content: encoding against an independent encoder, decoding alone, in sequence, in lists and cut short, copies and comparison, conversion from both metadata versions; whole operations and their display with records that went through encoding. Non-trivial: every case; distinct by content.",
        level: "exploration",
        assumptions: &["parity-scale-codec and scale-info encode texts, integers and type ids as SCALE says"],
        min_distinct: 50_000,
        run: c27,
    }]
}
