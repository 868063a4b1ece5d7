PROPERTY='C26'
NEEDS='group key operations made side by side in one document'
BREAKS='The statistics count the rounds of group key operations rather than the operations, so two made side by side count once.'
EDITS=[('keyhive_core/src/keyhive.rs','''                cgka_operations += cgka.ops_count() as u64;
''','''                cgka_operations += cgka.ops().map_or(0, |rounds| rounds.len()) as u64;
''')]
DEMO='''
fn main() {
    let mut w = World::new(5, 3);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..3).map(|i| w.nodes[i].ident()).collect();
    let d = w.new_doc(0, &[]).unwrap();
    w.add(0, d.into(), ids[1], Access::Admin).unwrap();
    w.add(0, d.into(), ids[2], Access::Admin).unwrap();
    w.deliver_all();
    for i in 0..3 {
        w.pcs_update(i, d).unwrap();
    }
    w.deliver_all();
    let n = w.pool.iter().filter(|e| matches!(e.ev, StaticEvent::CgkaOperation(_))).count() as u64;
    for i in 0..3 {
        assert_eq!(block_on(w.nodes[i].kh.stats()).cgka_operations, n, "P{i}");
    }
}
'''
