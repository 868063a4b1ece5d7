PROPERTY='C20'
NEEDS='a rotation that arrives before the operation that published the key it rotates away'
BREAKS='Live prekeys are kept up to date operation by operation, so a prekey whose rotation arrived first is live for this peer for good.'
EDITS=[('keyhive_core/src/principal/individual.rs','''        self.prekey_state.insert_op(op)?;
        self.prekeys = self.prekey_state.build();
        Ok(())
    }

    #[instrument(skip(self), fields(indie_id = %self.id))]
''','''        self.prekey_state.insert_op(op.clone())?;
        match &op {
            op::KeyOp::Add(add) => {
                self.prekeys.insert(add.payload.share_key);
            }
            op::KeyOp::Rotate(rotate) => {
                self.prekeys.remove(&rotate.payload.old);
                self.prekeys.insert(rotate.payload.new);
            }
        }
        Ok(())
    }

    #[instrument(skip(self), fields(indie_id = %self.id))]
''')]
DEMO='''
use keyhive_core::principal::individual::{op::KeyOp, Individual};
use std::sync::Arc;
fn main() {
    let mut w = World::new(5, 1);
    w.expand_prekeys(0);
    let before = live_prekeys(&*block_on(block_on(w.nodes[0].kh.individual()).lock())).into_iter().collect::<Vec<_>>();
    for k in 0..before.len() {
        w.rotate_prekey(0, k);
    }
    let evs: Vec<KeyOp> = w.pool.iter().filter_map(|e| match &e.ev {
        StaticEvent::PrekeysExpanded(o) => Some(KeyOp::from(Arc::new((**o).clone()))),
        StaticEvent::PrekeyRotated(o) => Some(KeyOp::from(Arc::new((**o).clone()))),
        _ => None,
    }).collect();
    let mut it = evs.iter().rev();
    let mut x = Individual::new(it.next().unwrap().clone());
    for op in it {
        x.receive_prekey_op(op.clone()).unwrap();
    }
    let have: BTreeSet<_> = x.prekeys().iter().copied().collect();
    assert_eq!(have, live_prekeys(&x));
}
'''
