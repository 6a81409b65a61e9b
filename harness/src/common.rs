//! Shared helpers: worlds of types, calls into the code under test.
use crate::dict;
use crate::gen::{heights, Builder, Gv};
use crate::mem::{sym, Meta, Reg};
use crate::rng::Rng;
use crate::val::V;
use scale_info::PortableRegistry;
use std::sync::{Arc, OnceLock};
use substrate_parser::cards::ExtendedData;
use substrate_parser::error::ParserError;

pub struct World {
    pub reg: Arc<PortableRegistry>,
    pub h: Arc<Vec<u32>>,
    /// First generated (not basic) type.
    pub first: u32,
    /// Depth at which generated values stop growing.
    pub depth: u32,
}

pub struct Val {
    pub id: u32,
    pub v: V,
    pub bytes: Vec<u8>,
    pub poisoned: Option<&'static str>,
    pub leaves: u64,
    pub exceeded: bool,
}

impl World {
    pub fn of(reg: PortableRegistry, first: u32) -> World {
        let h = heights(&reg);
        World { reg: Arc::new(reg), h: Arc::new(h), first, depth: 30 }
    }
    pub fn random(r: &mut Rng) -> World {
        let n = r.pick(&[3u64, 6, 10, 16, 25, 40]) as usize;
        World::of(Builder::random(r, n).finish(), 18)
    }
    /// A type of the world that has values.
    pub fn same(&self) -> World {
        World { reg: self.reg.clone(), h: self.h.clone(), first: self.first, depth: self.depth }
    }
    pub fn target(&self, r: &mut Rng) -> u32 {
        let n = self.reg.types.len() as u64;
        for _ in 0..50 {
            let id = if n > self.first as u64 && !r.chance(1, 12) { r.range(self.first as u64, n - 1) } else { r.below(n) } as u32;
            if self.h[id as usize] != u32::MAX {
                return id;
            }
        }
        0
    }
    /// The same types with others between them, so that they are multiples of `gap` apart; and where they are.
    pub fn stretched(&self, gap: usize, rows: usize) -> (World, Vec<u32>) {
        let first = self.first as usize;
        let n = self.reg.types.len().saturating_sub(first);
        let rows = rows.min(n.max(1));
        let at = |j: usize| first + j % rows * gap + j / rows;
        let mut types = vec![crate::gen::mk(&[], crate::gen::tup(&[]), &[]); first + (rows - 1) * gap + n.div_ceil(rows)];
        for (i, t) in self.reg.types.iter().enumerate() {
            let mut t = t.ty.clone();
            for x in crate::gen::refs(&mut t) {
                let k = *x as usize;
                *x = if k < first { k } else if k < first + n { at(k - first) } else { types.len() + k } as u32;
            }
            types[if i < first { i } else { at(i - first) }] = t;
        }
        let mut w = World::of(crate::gen::registry(types), self.first);
        w.depth = self.depth;
        (w, (0..n).map(|j| at(j) as u32).collect())
    }
    /// A valid value of the type.
    pub fn value(&self, r: &mut Rng, id: u32) -> Option<Val> {
        let big = r.chance(1, 150);
        self.gen(r, id, None, big)
    }
    pub fn gen(&self, r: &mut Rng, id: u32, poison: Option<u64>, big: bool) -> Option<Val> {
        self.gen2(r, id, poison, big, false)
    }
    fn gen2(&self, r: &mut Rng, id: u32, poison: Option<u64>, big: bool, excess: bool) -> Option<Val> {
        if self.h[id as usize] == u32::MAX {
            return None;
        }
        let mut g = Gv::new(r, &self.reg, &self.h);
        g.poison = poison;
        g.big = big;
        g.max_depth = self.depth;
        g.excess = excess;
        let v = g.val(id, 0, false);
        if g.poisoned.is_some() && poison.is_none() {
            return None;
        }
        Some(Val { id, v, bytes: g.out, poisoned: g.poisoned, leaves: g.leaf_no, exceeded: g.exceeded })
    }
    /// Accepted data: a value of the type, compact per-things possibly above their maximum.
    pub fn accepted(&self, r: &mut Rng, id: u32) -> Option<Val> {
        let big = r.chance(1, 150);
        self.gen2(r, id, None, big, true)
    }
    /// The encoding of a value with one invalid leaf in it.
    pub fn poisoned(&self, r: &mut Rng, id: u32) -> Option<Val> {
        let snapshot = r.clone();
        let a = self.gen(r, id, None, false)?;
        if a.leaves == 0 {
            return None;
        }
        let k = r.below(a.leaves);
        let mut again = snapshot;
        let b = self.gen(&mut again, id, Some(k), false)?;
        b.poisoned?;
        Some(b)
    }
    pub fn meta(&self) -> Meta {
        Meta::bare(self.reg.clone())
    }
}

pub type PE = ParserError<()>;

pub fn real_all(reg: &Arc<PortableRegistry>, id: u32, data: &[u8]) -> Result<ExtendedData, PE> {
    substrate_parser::decode_all_as_type::<&[u8], (), Meta>(&sym(id), &data, &mut (), &Reg(reg.clone()))
}
pub fn real_at(reg: &Arc<PortableRegistry>, id: u32, data: &[u8], pos: &mut usize) -> Result<ExtendedData, PE> {
    substrate_parser::decode_as_type_at_position::<&[u8], (), Meta>(&sym(id), &data, &mut (), &Reg(reg.clone()), pos)
}

/// Describe a type shortly, with what it refers to.
pub fn show_ty(reg: &PortableRegistry, id: u32) -> String {
    fn go(reg: &PortableRegistry, id: u32, d: u32, out: &mut String) {
        use scale_info::TypeDef::*;
        let Some(t) = reg.types.get(id as usize) else {
            out.push_str(&format!("#{id}?"));
            return;
        };
        let p = t.ty.path.segments.join("::");
        if !p.is_empty() {
            out.push_str(&p)
        }
        if d == 0 || out.len() > 1500 {
            out.push_str(&format!("#{id}"));
            return;
        }
        let fs = |f: &Vec<scale_info::Field<scale_info::form::PortableForm>>, out: &mut String| {
            for x in f {
                out.push_str(&format!("{}", x.name.as_deref().unwrap_or("")));
                out.push(':');
                if let Some(tn) = &x.type_name {
                    out.push_str(&format!("<{tn}>"))
                }
                go(reg, x.ty.id, d - 1, out);
                out.push_str(", ");
            }
        };
        match &t.ty.type_def {
            Composite(c) => {
                out.push('{');
                fs(&c.fields, out);
                out.push('}')
            }
            Variant(v) => {
                out.push_str("enum[");
                for x in v.variants.iter().take(8) {
                    out.push_str(&format!("{}={}", x.name, x.index));
                    if !x.fields.is_empty() {
                        out.push('{');
                        fs(&x.fields, out);
                        out.push('}');
                    }
                    out.push_str(", ");
                }
                out.push(']')
            }
            Sequence(s) => {
                out.push_str("Vec<");
                go(reg, s.type_param.id, d - 1, out);
                out.push('>')
            }
            Array(a) => {
                out.push('[');
                go(reg, a.type_param.id, d - 1, out);
                out.push_str(&format!(";{}]", a.len))
            }
            Tuple(t) => {
                out.push('(');
                for x in &t.fields {
                    go(reg, x.id, d - 1, out);
                    out.push(',')
                }
                out.push(')')
            }
            Primitive(p) => out.push_str(&format!("{p:?}")),
            Compact(c) => {
                out.push_str("Compact<");
                go(reg, c.type_param.id, d - 1, out);
                out.push('>')
            }
            BitSequence(b) => {
                out.push_str("Bits<");
                go(reg, b.bit_store_type.id, d - 1, out);
                out.push(',');
                go(reg, b.bit_order_type.id, d - 1, out);
                out.push('>')
            }
        }
    }
    let mut o = String::new();
    go(reg, id, 4, &mut o);
    o
}
pub fn hexs(b: &[u8]) -> String {
    if b.len() > 3000 {
        format!("{}...({} bytes)", hex::encode(&b[..3000]), b.len())
    } else {
        hex::encode(b)
    }
}

/// Name of the kind of the type, for statistics.
pub fn class_of(reg: &PortableRegistry, id: u32) -> String {
    use crate::model::{special, Sp};
    let t = &reg.types[id as usize].ty;
    let s = special(t);
    if s != Sp::None {
        return format!("{s:?}");
    }
    use scale_info::TypeDef::*;
    match &t.type_def {
        Composite(_) => "struct".into(),
        Variant(_) => "enum".into(),
        Sequence(_) => "sequence".into(),
        Array(_) => "array".into(),
        Tuple(_) => "tuple".into(),
        Primitive(p) => format!("{p:?}"),
        Compact(_) => "compact".into(),
        BitSequence(_) => "bits".into(),
    }
}

pub fn real_worlds() -> &'static Vec<(String, World, crate::real::RealMeta)> {
    static W: OnceLock<Vec<(String, World, crate::real::RealMeta)>> = OnceLock::new();
    W.get_or_init(crate::real::load)
}
/// Truncate for reports.
pub fn cut(s: String, n: usize) -> String {
    if s.chars().count() <= n {
        s
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

/// Change data: truncate, extend, flip, insert, remove, overwrite with hostile patterns.
/// Another length, near to it or the same in most of its bits.
pub fn wrong_len(r: &mut Rng, n: u128) -> u128 {
    match r.below(8) {
        0 => n.saturating_add(1 + r.below(4) as u128),
        1 => n.saturating_sub(1 + r.below(4) as u128),
        2 => n ^ 1 << r.below(33),
        3 => n.wrapping_add(r.range(1, 3) as u128 * (1 << r.below(40))),
        4 => n.wrapping_add(1 << r.pick(&[6u32, 7, 8, 14, 15, 16, 20, 24, 28, 29, 30, 31, 32, 63, 64])),
        5 => n.wrapping_mul(2),
        6 => n / 2,
        _ => n.wrapping_mul(256),
    }
}

pub fn mutate(r: &mut Rng, bytes: &[u8]) -> (Vec<u8>, &'static str) {
    let mut b = bytes.to_vec();
    let n = b.len();
    // early bytes decide structure
    let at = |r: &mut Rng| if n == 0 { 0 } else if r.chance(1, 2) { r.idx(n.min(6)) } else { r.idx(n) };
    match r.below(10) {
        0 => {
            let k = if n == 0 { 0 } else if r.chance(1, 3) { n - 1 } else { r.idx(n) };
            b.truncate(k);
            (b, "truncated")
        }
        1 => {
            let k = r.range(1, 5) as usize;
            let e = r.bytes(k);
            b.extend(e);
            (b, "extended")
        }
        2 | 3 => {
            if n > 0 {
                let i = at(r);
                b[i] ^= 1 << r.below(8);
            }
            (b, "bit flipped")
        }
        4 => {
            if n > 0 {
                let i = at(r);
                b[i] = if let Some(n) = dict::num(r, 0, 255) { n as u8 } else { r.byte() };
            }
            (b, "byte set")
        }
        5 => {
            if n > 0 {
                let i = at(r);
                b[i] = r.pick(&[0u8, 1, 2, 3, 4, 7, 0x0b, 0x13, 0x33, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xfc, 0xfd, 0xfe, 0xff]);
            }
            (b, "byte set")
        }
        6 => {
            let i = if n == 0 { 0 } else { at(r) };
            let x = r.byte();
            b.insert(i, x);
            (b, "byte inserted")
        }
        7 => {
            if n > 0 {
                let i = at(r);
                b.remove(i);
            }
            (b, "byte removed")
        }
        8 => {
            let i = if n == 0 { 0 } else { at(r) };
            let mut c = vec![];
            if let (true, Some((v, k))) = (r.chance(1, 2), crate::model::compact_at(&b, i, 128)) {
                // a length that is there, told wrong
                let wrong = wrong_len(r, v);
                crate::gen::put_compact(&mut c, wrong);
                b.splice(i..i + k, c);
                return (b, "compact altered");
            }
            // a claimed length out of nothing
            let v = r.uint(r.clone().pick(&[16, 32, 64, 128]));
            if r.chance(1, 3) {
                crate::gen::put_compact_wrong(r, &mut c, v & 0x3fff_ffff)
            } else {
                crate::gen::put_compact(&mut c, v)
            }
            let e = (i + c.len()).min(n);
            b.splice(i..e, c);
            (b, "compact written")
        }
        _ => {
            let k = r.idx(40);
            (r.bytes(k), "random bytes")
        }
    }
}

/// Data for a type: valid, with an invalid leaf, mutated or random.
pub fn input(w: &World, r: &mut Rng, valid_share: u64) -> Option<(u32, Vec<u8>, &'static str)> {
    let id = w.target(r);
    if r.chance(valid_share, 100) {
        let x = w.accepted(r, id)?;
        return Some((id, x.bytes, if x.exceeded { "compact above maximum" } else { "valid" }));
    }
    if r.chance(1, 4) {
        let x = w.poisoned(r, id)?;
        return Some((id, x.bytes, "invalid leaf"));
    }
    let x = w.value(r, id)?;
    let (b, how) = mutate(r, &x.bytes);
    if r.chance(1, 4) {
        let (b, _) = mutate(r, &b);
        return Some((id, b, "mutated twice"));
    }
    Some((id, b, how))
}
