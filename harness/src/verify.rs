//! Inverse check: are these bytes an encoding of this value of this type? Independent of the reference decoder.
use crate::gen::{F, Var};
use crate::model::{compact_at, special, Sp};
use crate::val::V;
use scale_info::{PortableRegistry, TypeDef, TypeDefPrimitive as P};

pub struct Ver<'a> {
    pub reg: &'a PortableRegistry,
    pub data: &'a [u8],
    pub pos: usize,
    depth: u32,
}
type R = Result<(), String>;

/// The whole of `data` must be the encoding of `v`.
pub fn verify(reg: &PortableRegistry, id: u32, data: &[u8], v: &V) -> R {
    let mut x = Ver { reg, data, pos: 0, depth: 0 };
    x.val(id, v, false)?;
    if x.pos != data.len() {
        return Err(format!("the result accounts for {} bytes of {}", x.pos, data.len()));
    }
    Ok(())
}

fn leaf(v: &V) -> Result<&str, String> {
    match v {
        V::Leaf(s) => Ok(s),
        o => Err(format!("leaf expected, got {}", crate::common::cut(format!("{o:?}"), 200))),
    }
}

impl<'a> Ver<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        let s = self.data.get(self.pos..self.pos + n).ok_or_else(|| format!("result needs {n} bytes at {} of {}", self.pos, self.data.len()))?;
        self.pos += n;
        Ok(s)
    }
    fn compact(&mut self, bits: u32) -> Result<u128, String> {
        let (v, n) = compact_at(self.data, self.pos, bits).ok_or_else(|| format!("no canonical compact at {}", self.pos))?;
        self.pos += n;
        Ok(v)
    }
    fn expect(&self, want: String, v: &V) -> R {
        if leaf(v)? == want {
            Ok(())
        } else {
            Err(format!("bytes up to {} state {want}, result says {}", self.pos, leaf(v)?))
        }
    }
    fn raw(&mut self, kind: &str, n: usize, v: &V) -> R {
        let b = self.take(n)?;
        self.expect(format!("{kind}:{}", hex::encode(b)), v)
    }
    fn num(&mut self, kind: &str, bits: u32, max: Option<u128>, compact: bool, v: &V) -> R {
        let x = if compact {
            let x = self.compact(bits)?;
            max.map(|m| x.min(m)).unwrap_or(x)
        } else {
            let b = self.take(bits as usize / 8)?;
            let x = b.iter().rev().fold(0u128, |a, c| a << 8 | *c as u128);
            if max.map(|m| x > m).unwrap_or(false) {
                return Err(format!("{kind} {x} is above its maximum"));
            }
            x
        };
        self.expect(format!("{kind}:{x}"), v)
    }
    fn fields(&mut self, fs: &[F], got: &[(Option<String>, V)], compact: bool) -> R {
        if fs.len() != got.len() {
            return Err(format!("{} fields for {}", got.len(), fs.len()));
        }
        for (f, (name, v)) in fs.iter().zip(got) {
            if f.name != *name {
                return Err(format!("field {name:?} for {:?}", f.name));
            }
            self.val(f.ty.id, v, compact)?;
        }
        Ok(())
    }
    fn variant(&mut self, vs: &'a [Var]) -> Result<&'a Var, String> {
        let b = self.take(1)?[0];
        vs.iter().find(|v| v.index == b).ok_or_else(|| format!("no variant {b} at {}", self.pos - 1))
    }
    fn plain_single(&self, id: u32) -> Option<u32> {
        let t = &self.reg.types.get(id as usize)?.ty;
        let plain = matches!(special(t), Sp::None | Sp::Unchecked | Sp::Call | Sp::Event | Sp::MultiSig);
        match &t.type_def {
            TypeDef::Composite(c) if plain && c.fields.len() == 1 => Some(c.fields[0].ty.id),
            _ => None,
        }
    }
    fn elements(&mut self, mut id: u32, n: u128, v: &V) -> R {
        let mut hops = 0;
        while let Some(i) = self.plain_single(id) {
            id = i;
            hops += 1;
            if hops > 1000 {
                return Err("wrappers without end".into());
            }
        }
        // wrappers inside a compact are lost in the canonical form as well
        let mut compact = false;
        if let Some(TypeDef::Compact(c)) = self.reg.types.get(id as usize).map(|t| &t.ty.type_def) {
            id = c.type_param.id;
            compact = true;
            while let Some(i) = self.plain_single(id) {
                id = i;
                hops += 1;
                if hops > 1000 {
                    return Err("wrappers without end".into());
                }
            }
        }
        let V::Seq(s) = v else { return Err("sequence expected".into()) };
        if s.len() as u128 != n {
            return Err(format!("{} elements, data has {n}", s.len()));
        }
        for x in s {
            self.val(id, x, compact)?;
        }
        Ok(())
    }
    fn val(&mut self, id: u32, v: &V, compact: bool) -> R {
        self.depth += 1;
        if self.depth > 4000 {
            return Err("too deep".into());
        }
        let r = self.val2(id, v, compact);
        self.depth -= 1;
        r
    }
    fn val2(&mut self, id: u32, v: &V, compact: bool) -> R {
        let reg = self.reg;
        let t = &reg.types.get(id as usize).ok_or_else(|| format!("value of a missing type {id}"))?.ty;
        match special(t) {
            Sp::None | Sp::Unchecked => {}
            Sp::Id => return self.raw("id", 32, v),
            Sp::H160 => return self.raw("h160", 20, v),
            Sp::H256 => return self.raw("h256", 32, v),
            Sp::H512 => return self.raw("h512", 64, v),
            Sp::PubEd => return self.raw("pub-ed25519", 32, v),
            Sp::PubSr => return self.raw("pub-sr25519", 32, v),
            Sp::PubEc => return self.raw("pub-ecdsa", 33, v),
            Sp::SigEd => return self.raw("sig-ed25519", 64, v),
            Sp::SigSr => return self.raw("sig-sr25519", 64, v),
            Sp::SigEc => return self.raw("sig-ecdsa", 65, v),
            Sp::PerU16 => return self.num("peru16", 16, Some(65535), compact, v),
            Sp::Percent => return self.num("percent", 8, Some(100), compact, v),
            Sp::Permill => return self.num("permill", 32, Some(1_000_000), compact, v),
            Sp::Perbill => return self.num("perbill", 32, Some(1_000_000_000), compact, v),
            Sp::Perquintill => return self.num("perquintill", 64, Some(1_000_000_000_000_000_000), compact, v),
            Sp::Era => {
                let s = leaf(v)?.to_string();
                if s == "era:immortal" {
                    return if self.take(1)?[0] == 0 { Ok(()) } else { Err("immortal era for a mortal one".into()) };
                }
                let (p, q) = s.strip_prefix("era:").and_then(|x| x.split_once('/')).ok_or("not an era")?;
                let (period, phase): (u64, u64) = (p.parse().map_err(|_| "period")?, q.parse().map_err(|_| "phase")?);
                if !period.is_power_of_two() || !(4..=65536).contains(&period) || phase >= period {
                    return Err(format!("no such era {s}"));
                }
                let qf = (period >> 12).max(1);
                if phase % qf != 0 {
                    return Err(format!("no such phase {s}"));
                }
                let code = (period.trailing_zeros() as u64 - 1) | (phase / qf) << 4;
                let b = self.take(2)?;
                return if code as u16 == u16::from_le_bytes([b[0], b[1]]) { Ok(()) } else { Err(format!("era {s} for bytes {}", hex::encode(b))) };
            }
            Sp::MultiSig => {
                if let (TypeDef::Variant(x), V::Leaf(l)) = (&t.type_def, v) {
                    let w = self.variant(&x.variants)?;
                    let want = match w.fields.first().and_then(|f| f.type_name.as_deref()) {
                        Some("ed25519::Signature") => ("sig-ed25519", 64),
                        Some("sr25519::Signature") => ("sig-sr25519", 64),
                        Some("ecdsa::Signature") => ("sig-ecdsa", 65),
                        _ => return Err(format!("variant {} given as a signature {l}", w.name)),
                    };
                    return self.raw(want.0, want.1, v);
                }
            }
            Sp::Call | Sp::Event => {
                if let (TypeDef::Variant(x), V::Pallet(kind, p, n, f)) = (&t.type_def, v) {
                    let w = self.variant(&x.variants)?;
                    let want = if special(t) == Sp::Call { "Call" } else { "Event" };
                    if *kind != want || w.name != *p || w.fields.len() != 1 {
                        return Err(format!("{kind} of pallet {p} for variant {}", w.name));
                    }
                    let it = &reg.types.get(w.fields[0].ty.id as usize).ok_or("missing type")?.ty;
                    let TypeDef::Variant(iv) = &it.type_def else { return Err(format!("{kind} from a type that is no enum")) };
                    let y = self.variant(&iv.variants)?;
                    if y.name != *n {
                        return Err(format!("{n} for variant {}", y.name));
                    }
                    return self.fields(&y.fields, f, false);
                }
            }
        }
        match (&t.type_def, v) {
            (TypeDef::Composite(c), V::Struct(f)) => self.fields(&c.fields, f, compact),
            (TypeDef::Variant(x), V::EmptyEnum) if x.variants.is_empty() => Ok(()),
            (TypeDef::Variant(x), V::Enum(n, f)) => {
                let w = self.variant(&x.variants)?;
                if w.name != *n {
                    return Err(format!("{n} for variant {}", w.name));
                }
                self.fields(&w.fields, f, false)
            }
            (TypeDef::Sequence(s), _) => {
                let n = self.compact(32)?;
                self.elements(s.type_param.id, n, v)
            }
            (TypeDef::Array(a), _) => self.elements(a.type_param.id, a.len as u128, v),
            (TypeDef::Tuple(tp), V::Tuple(x)) => {
                if tp.fields.len() != x.len() {
                    return Err(format!("{} elements for {}", x.len(), tp.fields.len()));
                }
                for (f, y) in tp.fields.iter().zip(x) {
                    self.val(f.id, y, compact)?;
                }
                Ok(())
            }
            (TypeDef::Compact(c), _) => self.val(c.type_param.id, v, true),
            (TypeDef::BitSequence(b), _) => {
                let s = leaf(v)?.strip_prefix("bits:").ok_or("not bits")?;
                let n = self.compact(32)? as usize;
                if n != s.len() {
                    return Err(format!("{} bits, data has {n}", s.len()));
                }
                let w = match &reg.types[b.bit_store_type.id as usize].ty.type_def {
                    TypeDef::Primitive(P::U8) => 8,
                    TypeDef::Primitive(P::U16) => 16,
                    TypeDef::Primitive(P::U32) => 32,
                    TypeDef::Primitive(P::U64) => 64,
                    _ => return Err("bits over a wrong store".into()),
                };
                let lsb = match reg.types[b.bit_order_type.id as usize].ty.path.segments.last().map(|s| s.as_str()) {
                    Some("Lsb0") => true,
                    Some("Msb0") => false,
                    _ => return Err("bits in a wrong order".into()),
                };
                let body = self.take(n.div_ceil(w) * w / 8)?;
                for (i, c) in s.bytes().enumerate() {
                    let e = body[i / w * w / 8..][..w / 8].iter().rev().fold(0u64, |a, c| a << 8 | *c as u64);
                    let k = if lsb { i % w } else { w - 1 - i % w };
                    if (e >> k & 1 == 1) != (c == b'1') {
                        return Err(format!("bit {i} differs"));
                    }
                }
                Ok(())
            }
            (TypeDef::Primitive(p), _) => match p {
                P::Bool => {
                    let b = self.take(1)?[0];
                    self.expect(format!("bool:{}", ["false", "true"].get(b as usize).ok_or("bool byte")?), v)
                }
                P::Char => {
                    let b = self.take(4)?;
                    let c = u32::from_le_bytes(b.try_into().unwrap());
                    if c > 0x10ffff || (0xd800..0xe000).contains(&c) {
                        return Err("not a char".into());
                    }
                    self.expect(format!("char:{c}"), v)
                }
                P::Str => {
                    let n = self.compact(32)? as usize;
                    let b = self.take(n)?;
                    let s = leaf(v)?.strip_prefix("str:").ok_or("not text")?;
                    if s.as_bytes() == b {
                        Ok(())
                    } else {
                        Err(format!("text {s:?} for bytes {}", hex::encode(b)))
                    }
                }
                P::U8 => self.num("u8", 8, None, compact, v),
                P::U16 => self.num("u16", 16, None, compact, v),
                P::U32 => self.num("u32", 32, None, compact, v),
                P::U64 => self.num("u64", 64, None, compact, v),
                P::U128 => self.num("u128", 128, None, compact, v),
                P::U256 => self.raw("u256", 32, v),
                P::I8 => self.int(8, v),
                P::I16 => self.int(16, v),
                P::I32 => self.int(32, v),
                P::I64 => self.int(64, v),
                P::I128 => self.int(128, v),
                P::I256 => self.raw("i256", 32, v),
            },
            (d, v) => Err(format!("{} for {}", crate::common::cut(format!("{v:?}"), 200), crate::common::cut(format!("{d:?}"), 200))),
        }
    }
    fn int(&mut self, bits: u32, v: &V) -> R {
        let b = self.take(bits as usize / 8)?;
        let x = b.iter().rev().fold(0u128, |a, c| a << 8 | *c as u128);
        let i = ((x << (128 - bits)) as i128) >> (128 - bits);
        self.expect(format!("i{bits}:{i}"), v)
    }
}
