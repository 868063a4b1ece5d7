PROPERTY='C21'
NEEDS='an invitation by somebody who has not heard that the prekey they picked was rotated away'
BREAKS='The group key operation that invites this very peer is merged without telling the listener if it names a prekey that is live no more, so whoever stores the announced events cannot rebuild the group key.'
EDITS=[('keyhive_core/src/keyhive.rs','''                    .merge_cgka_invite_op(signed_op.clone(), &sk)?
                {
''','''                    .merge_cgka_invite_op(signed_op.clone(), &sk)?
                    && locked_active.individual.lock().await.prekeys.contains(&pk)
                {
''')]
DEMO='''
fn main() {
    let mut w = World::new(5, 2);
    w.introduce_all();
    let me = w.nodes[1].ident();
    let old = live_prekeys(&*block_on(block_on(w.nodes[1].kh.individual()).lock()));
    for k in old {
        block_on(w.nodes[1].kh.rotate_prekey(k)).unwrap();
    }
    w.collect(1);
    // P0 has not heard of the rotations
    let d = w.new_doc(0, &[]).unwrap();
    w.add(0, d.into(), me, Access::Read).unwrap();
    let before = w.nodes[1].emitted.len();
    w.deliver_all();
    let said: BTreeSet<_> = w.nodes[1].emitted[before..].iter().map(dg).collect();
    for e in w.pool.iter().filter(|e| matches!(e.ev, StaticEvent::CgkaOperation(_))) {
        assert!(said.contains(&e.d), "a group key operation was accepted without an announcement");
    }
}
'''
