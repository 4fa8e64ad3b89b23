pub mod addr;
pub mod codec;
pub mod json;
pub mod cons;
pub mod derive;
pub mod eq;
pub mod money;
pub mod rhp;
pub mod sign;
pub mod sighash;
pub mod text;
pub mod txid;
use crate::engine::Prop;
pub fn all() -> Vec<Prop> {
    let mut v = codec::props();
    v.extend(json::props());
    v.extend(text::props());
    v.extend(addr::props());
    v.extend(rhp::props());
    v.extend(txid::props());
    v.extend(sighash::props());
    v.extend(money::props());
    v.extend(cons::props());
    v.extend(sign::props());
    v.extend(derive::props());
    v.extend(eq::props());
    v.sort_by_key(|p| p.id);
    v
}
