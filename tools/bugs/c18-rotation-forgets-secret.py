PROPERTY='C18'
NEEDS='an invitation by somebody who has not heard that the prekey they picked was rotated away'
BREAKS='The secret of a prekey is thrown away when it is rotated, so an invitation made with it by somebody who had not heard of the rotation cannot be taken up and the invited reader reads nothing.'
EDITS=[('keyhive_core/src/principal/active.rs','''        {
            self.prekey_pairs
                .lock()
                .await
                .insert(new_public, new_secret);
        }

        {
            let mut locked_individual = self.individual.lock().await;
            locked_individual
                .prekey_state
                .insert_op(KeyOp::Rotate(rot_op.dupe()))
''','''        {
            let mut locked_pairs = self.prekey_pairs.lock().await;
            locked_pairs.remove(&old_prekey);
            locked_pairs.insert(new_public, new_secret);
        }

        {
            let mut locked_individual = self.individual.lock().await;
            locked_individual
                .prekey_state
                .insert_op(KeyOp::Rotate(rot_op.dupe()))
''')]
DEMO='''
fn main() {
    let mut w = World::new(5, 2);
    w.introduce_all();
    let me = w.nodes[0].ident();
    let d = w.new_doc(1, &[]).unwrap();
    let old = live_prekeys(&*block_on(block_on(w.nodes[0].kh.individual()).lock()));
    for k in old {
        block_on(w.nodes[0].kh.rotate_prekey(k)).unwrap();
    }
    w.collect(0);
    w.add(1, d.into(), me, Access::Read).unwrap();
    let c = w.encrypt(1, d, vec![], b"hello".to_vec()).unwrap();
    w.deliver_all();
    let c = w.contents[c].clone();
    assert_eq!(w.decrypt(0, &c), Ok(b"hello".to_vec()));
}
'''
