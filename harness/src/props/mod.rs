//! One module per area; each exports its properties.
use crate::engine::Prop;

pub mod beekem;
pub mod calls;
pub mod causal;
pub mod codec;
pub mod collections;
pub mod concurrent;
pub mod content;
pub mod crypto;
pub mod graph;
pub mod hostile;
pub mod membership;
pub mod peers;
pub mod storage;
pub mod sync;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(beekem::props());
    v.extend(membership::props());
    v.extend(crypto::props());
    v.extend(codec::props());
    v.extend(collections::props());
    v.extend(graph::props());
    v.extend(sync::props());
    v.extend(storage::props());
    v.extend(causal::props());
    v.extend(peers::props());
    v.extend(content::props());
    v.extend(hostile::props());
    v.extend(calls::props());
    v.extend(concurrent::props());
    v
}
