PROPERTY='C09'
NEEDS='a nested group in which somebody holds two grants of which the first is the lesser'
BREAKS='The access through a nested group is taken from the first grant somebody was given there rather than from their best one.'
EDITS=[('keyhive_core/src/principal/group.rs','''                for mem_id in membered.members().await.keys() {
                    let dlg = membered
                        .get_capability(mem_id)
                        .await
                        .expect("members have capabilities by defintion");

''','''                for dlgs in membered.members().await.values() {
                    let dlg = dlgs.first();

''')]
DEMO='''
fn main() {
    let mut w = World::new(3, 3);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..3).map(|i| w.nodes[i].ident()).collect();
    let inner = w.new_group(0, &[]).unwrap();
    let doc = w.new_doc(0, &[]).unwrap();
    w.add(0, doc.into(), inner.into(), Access::Admin).unwrap();
    w.add(0, inner.into(), ids[1], Access::Read).unwrap();
    w.add(0, inner.into(), ids[1], Access::Edit).unwrap();
    w.deliver_all();
    for i in 0..3 {
        let v = &w.view(i).docs[&doc.into()];
        println!("P{i}: {}", w.describe(v));
        assert_eq!(v.transitive.get(&ids[1]), Some(&Access::Edit));
    }
}
'''
