//! Real chain metadata kept in the repository for its tests, as additional type descriptions.
use crate::common::World;
use crate::mem::Meta;
use frame_metadata::{v14::RuntimeMetadataV14, v15::RuntimeMetadataV15};
use parity_scale_codec::Decode;
use std::sync::Arc;
use substrate_parser::traits::{AsCompleteMetadata, AsMetadata, ExtrinsicTypeParams};

#[derive(Clone, Debug)]
pub enum RealMeta {
    V14(Arc<RuntimeMetadataV14>),
    V15(Arc<RuntimeMetadataV15>),
}

pub const REPO: &str = "/repo";

fn files() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir(format!("{REPO}/for_tests")) {
        for e in d.flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if let Ok(s) = std::fs::read_to_string(e.path()) {
                if let Ok(b) = hex::decode(s.trim()) {
                    if b.len() > 5 && &b[..4] == b"meta" {
                        v.push((name, b))
                    }
                }
            }
        }
    }
    v.sort();
    v
}

pub fn parse(name: &str, b: &[u8]) -> Option<RealMeta> {
    let _ = name;
    match b[4] {
        14 => RuntimeMetadataV14::decode(&mut &b[5..]).ok().map(|m| RealMeta::V14(Arc::new(m))),
        15 => RuntimeMetadataV15::decode(&mut &b[5..]).ok().map(|m| RealMeta::V15(Arc::new(m))),
        _ => None,
    }
}

impl RealMeta {
    pub fn meta(&self) -> Meta {
        let none = ExtrinsicTypeParams {
            address_ty: 0.into(),
            call_ty: 0.into(),
            signature_ty: 0.into(),
            extra_ty: 0.into(),
        };
        macro_rules! mk {
            ($m:expr) => {{
                let m = $m;
                Meta {
                    reg: Arc::new(m.types.clone()),
                    spec: AsMetadata::<()>::spec_name_version(m).map_err(|e| format!("{e:?}")),
                    params: AsCompleteMetadata::<()>::extrinsic_type_params(m).unwrap_or(none),
                    version: m.extrinsic.version,
                    exts: AsMetadata::<()>::signed_extensions(m).unwrap_or_default(),
                }
            }};
        }
        match self {
            RealMeta::V14(m) => mk!(&**m),
            RealMeta::V15(m) => mk!(&**m),
        }
    }
}

pub fn load() -> Vec<(String, World, RealMeta)> {
    files()
        .into_iter()
        .filter_map(|(n, b)| {
            let m = parse(&n, &b)?;
            let reg = match &m {
                RealMeta::V14(m) => m.types.clone(),
                RealMeta::V15(m) => m.types.clone(),
            };
            Some((n, World::of(reg, 0), m))
        })
        .collect()
}
