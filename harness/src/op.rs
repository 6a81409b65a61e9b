//! Whole operations of the crate as values: generated, run over any storage, compared.
use crate::common::*;
use crate::mem::{Mem, Meta};
use crate::model::{Model, ME};
use crate::model2::{self as m2, O};
use crate::proj::{project, project_call, Aspect};
use crate::props::storage::{make, real_entries, spoil, storage_world, Entry};
use crate::props::tx::gen_extrinsic;
use crate::rng::Rng;
use crate::txgen::{any_tx_world, gen_tx, spoil_call, spoil_ext};
use crate::val::{of_call, of_ext};
use external_memory_tools::{AddressableBuffer, ExternalMemory};
use primitive_types::H256;
use substrate_parser::cards::{Call, ExtendedCard, ExtendedData};
use substrate_parser::storage_data::{KeyData, KeyPart, Storage};
use substrate_parser::traits::AsCompleteMetadata;
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic as UX;
use substrate_parser::{MarkedData, ShortSpecs};

#[derive(Clone, Debug)]
pub enum Op {
    All(u32),
    At(u32, usize),
    Marked(Option<H256>),
    Unmarked(Option<H256>),
    CallOnly,
    ExtsOnly(Option<H256>),
    Xt,
    /// The data is the key.
    Store(Box<Entry>, Vec<u8>),
}
impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::All(_) => "value",
            Op::At(..) => "value at a position",
            Op::Marked(_) => "marked transaction",
            Op::Unmarked(_) => "unmarked transaction",
            Op::CallOnly => "call of a marked transaction",
            Op::ExtsOnly(_) => "extensions of a marked transaction",
            Op::Xt => "unchecked extrinsic",
            Op::Store(..) => "storage entry",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub meta: Meta,
    pub op: Op,
    pub data: Vec<u8>,
    pub how: String,
}

#[derive(Debug, PartialEq)]
pub enum Val {
    Ext(ExtendedData, usize),
    Tx(Result<Call, String>, Vec<ExtendedData>),
    Call(Call),
    Exts(Vec<ExtendedData>),
    Xt(UX),
    Store(Storage),
}
/// Result of an operation; the error as debug text and as printed.
pub type Out = Result<Val, (String, String)>;

fn err<T: std::fmt::Debug + std::fmt::Display>(e: T) -> (String, String) {
    (format!("{e:?}"), format!("{e}"))
}

/// Run the operation. `mk` makes the buffers: 0 for the data, 1 for the value of storage.
pub fn run<B, E, M>(c: &Case, mk: &dyn Fn(&[u8], u32) -> B, e: &mut E, meta: &M) -> Out
where
    E: ExternalMemory + std::fmt::Debug,
    B: AddressableBuffer<E>,
    M: AsCompleteMetadata<E>,
{
    let b = mk(&c.data, 0);
    match &c.op {
        Op::All(id) => substrate_parser::decode_all_as_type::<B, E, M>(&crate::mem::sym(*id), &b, e, &meta.types()).map(|x| Val::Ext(x, c.data.len())).map_err(err),
        Op::At(id, at) => {
            let mut pos = *at;
            substrate_parser::decode_as_type_at_position::<B, E, M>(&crate::mem::sym(*id), &b, e, &meta.types(), &mut pos).map(|x| Val::Ext(x, pos)).map_err(err)
        }
        Op::Marked(g) => substrate_parser::parse_transaction::<B, E, M>(&b, e, meta, *g)
            .map(|t| Val::Tx(t.call_result.map_err(|x| format!("{x:?} / {x}")), t.extensions))
            .map_err(err),
        Op::Unmarked(g) => substrate_parser::parse_transaction_unmarked::<B, E, M>(&b, e, meta, *g).map(|t| Val::Tx(Ok(t.call), t.extensions)).map_err(err),
        Op::CallOnly => {
            let m = MarkedData::<B, E, M>::mark(&b, e).map_err(err)?;
            substrate_parser::decode_as_call::<B, E, M>(&m, e, meta).map(Val::Call).map_err(err)
        }
        Op::ExtsOnly(g) => {
            let m = MarkedData::<B, E, M>::mark(&b, e).map_err(err)?;
            substrate_parser::decode_extensions::<B, E, M>(&m, e, meta, *g).map(Val::Exts).map_err(err)
        }
        Op::Xt => substrate_parser::decode_as_unchecked_extrinsic::<B, E, M>(&b, e, meta).map(Val::Xt).map_err(err),
        Op::Store(entry, value) => {
            let v = mk(value, 1);
            substrate_parser::decode_as_storage_entry::<B, E, M>(&b, &v, e, entry, &meta.types()).map(Val::Store).map_err(err)
        }
    }
}

/// The simplest storage: slices.
pub fn run_plain(c: &Case) -> Out {
    // slices of the case itself
    struct S<'a>(&'a [u8], &'a [u8]);
    let value: &[u8] = if let Op::Store(_, v) = &c.op { v } else { &[] };
    let s = S(&c.data, value);
    run::<&[u8], (), Meta>(c, &|_, k| if k == 0 { s.0 } else { s.1 }, &mut (), &c.meta)
}

/// Does the reference accept it? None: the reference gives up.
pub fn model_ok(c: &Case) -> Option<bool> {
    macro_rules! o {
        ($e:expr) => {
            match $e {
                O::Ok(_) => Some(true),
                O::Err(_) => Some(false),
                O::Skip => None,
            }
        };
    }
    let m = |r| match r {
        Ok(_) => Some(true),
        Err(ME::P(_)) => Some(false),
        Err(ME::Skip) => None,
    };
    match &c.op {
        Op::All(id) => m(Model::new(&c.meta.reg, &c.data).all(*id)),
        Op::At(id, at) => m(Model::new(&c.meta.reg, &c.data).at(*id, &mut at.clone())),
        Op::Marked(g) => o!(m2::marked_tx(&c.meta, &c.data, *g)),
        Op::Unmarked(g) => o!(m2::unmarked_tx(&c.meta, &c.data, *g)),
        Op::CallOnly => match m2::mark(&c.data) {
            Some((a, b)) => o!(m2::marked_call(&c.meta, &c.data, a, b)),
            None => Some(false),
        },
        Op::ExtsOnly(g) => match m2::mark(&c.data) {
            Some((_, b)) => o!(m2::extensions(&c.meta, &c.data, &mut b.clone(), *g)),
            None => Some(false),
        },
        Op::Xt => o!(m2::extrinsic(&c.meta, &c.data)),
        Op::Store(e, v) => o!(m2::storage(&c.meta, &c.data, v, e)),
    }
}

/// Any operation on valid, spoiled or hostile data.
/// `real`: share of real metadata; `sound`: share of data left as it is.
pub fn gen(r: &mut Rng, real: u64, sound: u64) -> Option<Case> {
    let keep = r.chance(sound, 100);
    match r.below(10) {
        0..=3 => {
            let (w, src) = if r.chance(real, 100) && !real_worlds().is_empty() {
                let k = r.idx(real_worlds().len());
                (real_worlds()[k].1.same(), real_worlds()[k].0.clone())
            } else {
                (World::random(r), "generated".into())
            };
            gen_value(&w, r, keep, src)
        }
        4..=7 => {
            let t = any_tx_world(r, real);
            let mut x = gen_tx(&t, r)?;
            let mut how = "sound".to_string();
            if !keep {
                let (y, h) = if r.chance(1, 2) { spoil_ext(&t, &x, r) } else { spoil_call(&t, &x, r) };
                x = y;
                how = h.into();
            }
            let k = r.below(6);
            let mut data = if k == 3 { x.unmarked() } else { x.marked() };
            if !keep && r.chance(1, 4) {
                let (d, h) = mutate(r, &data);
                data = d;
                how = format!("{how}, {h}");
            }
            let op = match k {
                0..=2 => Op::Marked(x.genesis),
                3 => Op::Unmarked(x.genesis),
                4 => Op::CallOnly,
                _ => Op::ExtsOnly(x.genesis),
            };
            Some(Case { meta: x.meta, op, data, how: format!("{} {how}", t.src) })
        }
        8 => {
            let t = any_tx_world(r, real);
            let (data, how) = gen_extrinsic(&t, r, if keep { 100 } else { 0 })?;
            Some(Case { meta: t.meta.clone(), op: Op::Xt, data, how: format!("{} {how}", t.src) })
        }
        _ => {
            let (w, e, src) = if r.chance(real, 100) && !real_entries().is_empty() {
                let k = r.idx(real_entries().len());
                let (wk, e) = &real_entries()[k];
                (real_worlds()[*wk].1.same(), e.clone(), real_worlds()[*wk].0.clone())
            } else {
                let s = storage_world(r);
                (s.w, s.e, "generated".into())
            };
            let m = make(&w, &e, r)?;
            let (e, key, value, how) = if keep { (e, m.key, m.value, "sound") } else { spoil(&e, &m, r, &w) };
            Some(Case { meta: w.meta(), op: Op::Store(Box::new(e), value), data: key, how: format!("{src} {how}") })
        }
    }
}

pub fn gen_value(w: &World, r: &mut Rng, keep: bool, src: String) -> Option<Case> {
    let (id, data, how) = input(w, r, if keep { 100 } else { 0 })?;
    if r.chance(1, 4) {
        // inside other data
        let (n, m) = (r.idx(20), r.idx(20));
        let mut d = r.bytes(n);
        d.extend(&data);
        d.extend(r.bytes(m));
        return Some(Case { meta: w.meta(), op: Op::At(id, n), data: d, how: format!("{src} {how}") });
    }
    Some(Case { meta: w.meta(), op: Op::All(id), data, how: format!("{src} {how}") })
}

pub fn say(c: &Case) -> String {
    let t = match &c.op {
        Op::All(id) | Op::At(id, _) => show_ty(&c.meta.reg, *id),
        Op::Store(e, v) => format!("{:?}, value {}", e.ty, hexs(v)),
        _ => format!("call {}; extensions {}", c.meta.params.call_ty.id, c.meta.exts.iter().map(|e| format!("{}({}, {})", e.identifier, show_ty(&c.meta.reg, e.ty.id), show_ty(&c.meta.reg, e.additional_signed.id))).collect::<Vec<_>>().join(", ")),
    };
    cut(format!("{} ({}); {t}; data {}", c.op.name(), c.how, hexs(&c.data)), 6000)
}

pub fn show_out(o: &Out) -> String {
    match o {
        Ok(v) => format!("value {}", cut(lines(v).join("; "), 1500)),
        Err(e) => format!("error {}", cut(e.0.clone(), 1500)),
    }
}

/// Everything a value says, as text that does not depend on addresses.
pub fn lines(v: &Val) -> Vec<String> {
    lines_of(v, &[Aspect::Tags, Aspect::Kinds, Aspect::Infos, Aspect::Names])
}
/// Values and what they are for only.
pub fn lines_short(v: &Val) -> Vec<String> {
    lines_of(v, &[Aspect::Tags])
}
fn lines_of(v: &Val, aspects: &[Aspect]) -> Vec<String> {
    let mut o = vec![];
    let ext = |x: &ExtendedData, o: &mut Vec<String>| {
        o.push(format!("{:?}", of_ext(x)));
        for a in aspects.iter().copied() {
            o.extend(project(a, x));
        }
    };
    let call = |x: &Call, o: &mut Vec<String>| {
        o.push(format!("{:?}", of_call(x)));
        for a in aspects.iter().copied() {
            o.extend(project_call(a, x));
        }
    };
    match v {
        Val::Ext(x, p) => {
            o.push(format!("to {p}"));
            ext(x, &mut o)
        }
        Val::Tx(c, e) => {
            match c {
                Ok(c) => call(c, &mut o),
                Err(s) => o.push(format!("call error {s}")),
            }
            e.iter().for_each(|x| ext(x, &mut o))
        }
        Val::Call(c) => call(c, &mut o),
        Val::Exts(e) => e.iter().for_each(|x| ext(x, &mut o)),
        Val::Xt(UX::Signed { address, signature, extra, call: c }) => {
            [address, signature, extra].iter().for_each(|x| ext(x, &mut o));
            call(c, &mut o)
        }
        Val::Xt(UX::Unsigned { call: c }) => call(c, &mut o),
        Val::Store(s) => {
            let part = |p: &KeyPart, o: &mut Vec<String>| match p {
                KeyPart::Hash(h) => o.push(format!("{h:?}")),
                KeyPart::Parsed(x) => ext(x, o),
            };
            match &s.key {
                KeyData::Plain => o.push("plain".into()),
                KeyData::SingleHash { content } => part(content, &mut o),
                KeyData::TupleHash { content, info } => {
                    o.push(format!("{info:?}"));
                    content.iter().for_each(|p| part(p, &mut o))
                }
            }
            ext(&s.value, &mut o);
            o.push(s.docs.clone());
        }
    }
    o
}

/// Turn everything into cards and texts, consuming it.
pub fn cards(v: Val, indent: u32, s: &ShortSpecs, name: &str) -> Vec<String> {
    let mut o = vec![];
    let out = |c: Vec<ExtendedCard>, o: &mut Vec<String>| {
        for x in c.iter() {
            o.push(format!("{} {} {:?} {:?}", x.indent, crate::cardmodel::kind_of(&x.parser_card), crate::cardmodel::elem_of(&x.parser_card), crate::cardmodel::flat(&x.info_flat)));
            o.push(x.show());
            o.push(x.show_with_docs());
        }
    };
    let ext = |x: ExtendedData, o: &mut Vec<String>| {
        o.push(x.show(indent, false, s, name));
        o.push(x.show_with_docs(indent, true, s, name));
        out(x.card(indent, true, s, name), o);
    };
    let call = |x: Call, o: &mut Vec<String>| {
        out(x.card(indent, s, name), o);
    };
    match v {
        Val::Ext(x, _) => ext(x, &mut o),
        Val::Tx(c, e) => {
            if let Ok(c) = c {
                call(c, &mut o)
            }
            e.into_iter().for_each(|x| ext(x, &mut o))
        }
        Val::Call(c) => call(c, &mut o),
        Val::Exts(e) => e.into_iter().for_each(|x| ext(x, &mut o)),
        Val::Xt(UX::Signed { address, signature, extra, call: c }) => {
            [address, signature, extra].into_iter().for_each(|x| ext(x, &mut o));
            call(c, &mut o)
        }
        Val::Xt(UX::Unsigned { call: c }) => call(c, &mut o),
        Val::Store(s) => {
            match s.key {
                KeyData::Plain => {}
                KeyData::SingleHash { content: KeyPart::Parsed(x) } => ext(x, &mut o),
                KeyData::SingleHash { .. } => {}
                KeyData::TupleHash { content, .. } => {
                    for p in content {
                        if let KeyPart::Parsed(x) = p {
                            ext(x, &mut o)
                        }
                    }
                }
            }
            ext(s.value, &mut o);
        }
    }
    o
}

/// Logged or faulty memory over the standard in-memory registry or the external one.
pub fn run_mem<B: AddressableBuffer<Mem>, M: AsCompleteMetadata<Mem>>(c: &Case, mk: &dyn Fn(&[u8], u32) -> B, m: &mut Mem, meta: &M) -> Out {
    run::<B, Mem, M>(c, mk, m, meta)
}
