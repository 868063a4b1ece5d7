PROPERTY='C27'
NEEDS='an invitation made with a prekey that has been rotated away before the secrets are exported to the second device'
BREAKS='The export holds only the secrets of live prekeys, so a device that imports it can never take up invitations made with an older one.'
EDITS=[('keyhive_core/src/principal/active.rs','''        let pairs = self.prekey_pairs.lock().await;
        bincode::serialize(&*pairs)
''','''        let live = self.individual.lock().await.prekeys.clone();
        let mut pairs = self.prekey_pairs.lock().await.clone();
        pairs.retain(|pk, _| live.contains(pk));
        bincode::serialize(&pairs)
''')]
DEMO='''
fn main() {
    let mut w = World::new(5, 2);
    w.introduce_all();
    let me = w.nodes[0].ident();
    let d = w.new_doc(1, &[]).unwrap();
    // the prekey is rotated away before the invitation arrives
    let old = live_prekeys(&*block_on(block_on(w.nodes[0].kh.individual()).lock()));
    for k in old {
        block_on(w.nodes[0].kh.rotate_prekey(k)).unwrap();
    }
    w.collect(0);
    w.add(1, d.into(), me, Access::Read).unwrap();
    let c = w.encrypt(1, d, vec![], b"hello".to_vec()).unwrap();
    let dev = w.add_device(0);
    w.deliver_all();
    let bytes = block_on(w.nodes[0].kh.export_prekey_secrets()).unwrap();
    let pending = block_on(w.nodes[dev].kh.import_prekey_secrets(&bytes)).unwrap();
    assert!(pending.is_empty(), "{} still pending", pending.len());
    let c = w.contents[c].clone();
    assert_eq!(w.decrypt(dev, &c), Ok(b"hello".to_vec()));
}
'''
