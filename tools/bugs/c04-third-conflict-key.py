PROPERTY='C04'
NEEDS='three members update concurrently, everybody merges all three, then one of them updates again'
BREAKS='An update only retires the first two of the keys in conflict on its path, so where three or more members updated concurrently the others keep a stale key in conflict with the new one: their root stays blank although the updater holds a new group key, and replicas that saw the same operations disagree.'
EDITS=[('beekem/src/tree.rs','''                new_path.removed_keys.append(&mut store.node_key().keys());
''','''                new_path
                    .removed_keys
                    .extend(store.node_key().keys().into_iter().take(2));
''')]
DEMO='''
fn main() {
    let mut w = World::new(7, 4);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..4).map(|i| w.nodes[i].ident()).collect();
    let d = w.new_doc(0, &ids[1..]).unwrap();
    w.deliver_all();
    for i in 0..3 { w.pcs_update(i, d).unwrap(); }
    w.deliver_all();
    w.pcs_update(0, d).unwrap();
    w.deliver_all();
    let c = w.encrypt(0, d, vec![], b"hello".to_vec()).unwrap();
    w.deliver_all();
    let c = w.contents[c].clone();
    for i in 0..4 {
        let v = w.view(i);
        let pcs = v.docs.values().next().unwrap().pcs;
        println!("{i} {:?} {:?}", pcs, w.decrypt(i, &c));
        assert_eq!(w.decrypt(i, &c).as_deref(), Ok(&b"hello"[..]));
        assert_eq!(pcs, w.view(0).docs.values().next().unwrap().pcs);
        assert!(pcs.is_some());
    }
}
'''
