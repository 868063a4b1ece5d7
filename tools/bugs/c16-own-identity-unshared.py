PROPERTY='C16'
NEEDS='a peer that knows itself among the individuals, restored from its archive, that makes new prekeys afterwards'
BREAKS='A restored peer keeps its own identity twice, and only one of them learns of the prekeys it makes from then on, so others are never told of them.'
EDITS=[('keyhive_core/src/keyhive.rs','''        individuals.insert(archive.active.individual.id(), raw_active.individual.dupe());

        let active = Arc::new(Mutex::new(raw_active));
''','''        individuals
            .entry(archive.active.individual.id())
            .or_insert_with(|| raw_active.individual.dupe());

        let active = Arc::new(Mutex::new(raw_active));
''')]
DEMO='''
fn main() {
    let mut w = World::new(5, 2);
    w.introduce_all();
    let other = w.nodes[1].ident();
    let d = w.new_doc(0, &[]).unwrap();
    w.add(0, d.into(), other, Access::Read).unwrap();
    let a = w.archive(0);
    let back = w.reload(0, &a).unwrap();
    w.nodes[0] = back;
    let me = w.nodes[0].id;
    let count = |w: &World| block_on(async { w.nodes[0].kh.get_individual(me).await.unwrap().lock().await.prekey_ops().len() });
    let before = count(&w);
    w.expand_prekeys(0);
    assert_eq!(count(&w), before + 1, "the restored peer does not know its own new prekey");
}
'''
