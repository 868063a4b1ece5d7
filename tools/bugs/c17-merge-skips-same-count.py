PROPERTY='C17'
NEEDS='prekey operations in the fork and as many other ones in the original meanwhile'
BREAKS='Committing a transaction drops the prekey operations made inside it if the original identity has meanwhile gained as many.'
EDITS=[('keyhive_core/src/principal/individual.rs','''        self.prekey_state.merge(fork.prekey_state);
        self.rebuild()
''','''        if fork.prekey_state.ops().len() > self.prekey_state.ops().len() {
            self.prekey_state.merge(fork.prekey_state);
        }
        self.rebuild()
''')]
DEMO='''
use keyhive_core::principal::individual::{op::KeyOp, Individual};
use keyhive_core::transact::{fork::Fork, merge::Merge};
use std::sync::Arc;
fn main() {
    let mut w = World::new(5, 1);
    w.expand_prekeys(0);
    w.expand_prekeys(0);
    let evs: Vec<KeyOp> = w.pool.iter().filter_map(|e| match &e.ev {
        StaticEvent::PrekeysExpanded(o) => Some(KeyOp::from(Arc::new((**o).clone()))),
        StaticEvent::PrekeyRotated(o) => Some(KeyOp::from(Arc::new((**o).clone()))),
        _ => None,
    }).collect();
    let n = evs.len();
    let mut t = Individual::new(evs[0].clone());
    let mut f = t.fork();
    t.receive_prekey_op(evs[n - 2].clone()).unwrap();
    f.receive_prekey_op(evs[n - 1].clone()).unwrap();
    t.merge(f);
    assert_eq!(t.prekey_ops().len(), 3);
}
'''
