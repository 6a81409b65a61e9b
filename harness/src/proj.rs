//! Projections of a parsed result to one aspect, as a list of `path: statement`.
use substrate_parser::cards::{Call, Event, ExtendedData, FieldData, Info, PalletSpecificData, ParsedData, Sequence};
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as U};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Aspect {
    /// Meaning tags.
    Tags,
    /// What kind of item it is presented as.
    Kinds,
    /// Documentation and paths.
    Infos,
    /// Names of fields, their types, variants, pallets.
    Names,
}

pub struct Proj {
    aspect: Aspect,
    path: String,
    pub out: Vec<String>,
}

pub fn project(a: Aspect, e: &ExtendedData) -> Vec<String> {
    let mut p = Proj { aspect: a, path: String::new(), out: vec![] };
    p.ext(e);
    p.out
}
pub fn project_call(a: Aspect, c: &Call) -> Vec<String> {
    let mut p = Proj { aspect: a, path: String::new(), out: vec![] };
    p.pallet("Call", &c.0);
    p.out
}

/// First difference between two lists.
pub fn first_diff(want: &[String], got: &[String]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            return Some(format!("got {:?} instead of {:?}", got.get(i), want.get(i)));
        }
    }
    None
}

fn info(i: &Info) -> String {
    format!("{:?}@{}", i.docs, i.path.segments.join("::"))
}
fn infos(v: &[Info]) -> String {
    v.iter().map(info).collect::<Vec<_>>().join(" | ")
}

impl Proj {
    fn emit(&mut self, s: impl FnOnce() -> String) {
        let t = format!("{}: {}", self.path, s());
        self.out.push(t);
    }
    fn under(&mut self, step: &str, f: impl FnOnce(&mut Self)) {
        let n = self.path.len();
        self.path.push_str(step);
        f(self);
        self.path.truncate(n);
    }
    fn ext(&mut self, e: &ExtendedData) {
        if self.aspect == Aspect::Infos && !e.info.is_empty() {
            self.emit(|| infos(&e.info));
        }
        self.data(&e.data)
    }
    fn fields(&mut self, f: &[FieldData]) {
        for (i, x) in f.iter().enumerate() {
            self.under(&format!(".{i}"), |p| {
                match p.aspect {
                    Aspect::Infos => p.emit(|| format!("field docs {:?}", x.field_docs)),
                    Aspect::Names => p.emit(|| format!("field {:?} of {:?}", x.field_name, x.type_name)),
                    _ => {}
                }
                p.ext(&x.data)
            });
        }
    }
    fn pallet(&mut self, kind: &str, d: &PalletSpecificData) {
        match self.aspect {
            Aspect::Kinds => self.emit(|| kind.to_string()),
            Aspect::Names => self.emit(|| format!("{kind} {}.{}", d.pallet_name, d.variant_name)),
            Aspect::Infos => self.emit(|| format!("pallet {} variant docs {:?}", info(&d.pallet_info), d.variant_docs)),
            _ => {}
        }
        self.fields(&d.fields)
    }
    fn kind(&mut self, k: &str) {
        if self.aspect == Aspect::Kinds {
            self.emit(|| k.to_string())
        }
    }
    fn num(&mut self, k: &str, s: &U) {
        self.kind(k);
        if self.aspect == Aspect::Tags && *s != U::None {
            self.emit(|| format!("{s:?}"))
        }
    }
    fn elem_info(&mut self, v: &[Info]) {
        if self.aspect == Aspect::Infos && !v.is_empty() {
            self.emit(|| format!("elements {}", infos(v)))
        }
    }
    fn data(&mut self, d: &ParsedData) {
        use ParsedData::*;
        match d {
            Composite(f) => {
                self.kind("Composite");
                self.fields(f)
            }
            Variant(v) => {
                self.kind("Variant");
                match self.aspect {
                    Aspect::Names => self.emit(|| format!("variant {}", v.variant_name)),
                    Aspect::Infos => self.emit(|| format!("variant docs {:?}", v.variant_docs)),
                    _ => {}
                }
                self.fields(&v.fields)
            }
            Call(c) => self.pallet("Call", &c.0),
            Event(self::Event(d)) => self.pallet("Event", d),
            Tuple(t) => {
                self.kind("Tuple");
                for (i, x) in t.iter().enumerate() {
                    self.under(&format!("({i})"), |p| p.ext(x))
                }
            }
            SequenceRaw(s) => {
                self.elem_info(&s.element_info);
                self.kind("Sequence");
                for (i, x) in s.data.iter().enumerate() {
                    self.under(&format!("[{i}]"), |p| p.data(x))
                }
            }
            Sequence(s) => {
                self.elem_info(&s.element_info);
                self.kind("Sequence");
                let (k, n) = match &s.data {
                    self::Sequence::U8(v) => ("U8", v.len()),
                    self::Sequence::U16(v) => ("U16", v.len()),
                    self::Sequence::U32(v) => ("U32", v.len()),
                    self::Sequence::U64(v) => ("U64", v.len()),
                    self::Sequence::U128(v) => ("U128", v.len()),
                    self::Sequence::VecU8 { sequence, inner_element_info } => {
                        for (i, x) in sequence.iter().enumerate() {
                            self.under(&format!("[{i}]"), |p| {
                                if !x.is_empty() {
                                    p.elem_info(inner_element_info);
                                }
                                p.kind("Sequence");
                                if p.aspect == Aspect::Kinds {
                                    for j in 0..x.len() {
                                        p.under(&format!("[{j}]"), |p| p.kind("U8"))
                                    }
                                }
                            })
                        }
                        return;
                    }
                };
                if self.aspect == Aspect::Kinds {
                    for i in 0..n {
                        self.under(&format!("[{i}]"), |p| p.kind(k))
                    }
                }
            }
            EmptyEnum => self.kind("EmptyEnum"),
            H256(_) => self.kind("H256"),
            GenesisHash(_) => {
                self.kind("H256");
                if self.aspect == Aspect::Tags {
                    self.emit(|| "genesis".into())
                }
            }
            BlockHash(_) => {
                self.kind("H256");
                if self.aspect == Aspect::Tags {
                    self.emit(|| "block".into())
                }
            }
            Text { specialty, .. } => {
                self.kind("Text");
                if self.aspect == Aspect::Tags && *specialty == SpecialtyStr::SpecName {
                    self.emit(|| "SpecName".into())
                }
            }
            PrimitiveU8 { specialty, .. } => self.num("U8", specialty),
            PrimitiveU16 { specialty, .. } => self.num("U16", specialty),
            PrimitiveU32 { specialty, .. } => self.num("U32", specialty),
            PrimitiveU64 { specialty, .. } => self.num("U64", specialty),
            PrimitiveU128 { specialty, .. } => self.num("U128", specialty),
            other => {
                if self.aspect == Aspect::Kinds {
                    let s = format!("{other:?}");
                    let k: String = s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
                    self.emit(|| k)
                }
            }
        }
    }
}
