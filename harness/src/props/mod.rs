#[cfg(feature = "blocks")]
pub mod blocks;
pub mod broken;
pub mod cards;
pub mod det;
pub mod exact;
pub mod hostile;
pub mod meta;
pub mod records;
pub mod storage;
pub mod stores;
pub mod tx;
pub mod texts;
pub mod types;
pub mod vm;
use crate::run::Spec;
pub fn all() -> Vec<Spec> {
    let mut v = vec![];
    v.extend(types::specs());
    v.extend(tx::specs());
    v.extend(broken::specs());
    #[cfg(feature = "blocks")]
    v.extend(blocks::specs());
    v.extend(exact::specs());
    v.extend(cards::specs());
    v.extend(records::specs());
    v.extend(storage::specs());
    v.extend(meta::specs());
    v.extend(stores::specs());
    v.extend(hostile::specs());
    v.extend(det::specs());
    v
}
