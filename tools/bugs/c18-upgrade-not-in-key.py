PROPERTY='C18'
NEEDS='a member of a document who may only relay and is later given read access'
BREAKS='Somebody raised from relaying to reading is not added to the group key of the document, so they cannot open what is encrypted from then on.'
EDITS=[('keyhive_core/src/principal/document.rs','''        let mut update = self
            .group
            .add_member_with_manual_content(member_to_add.dupe(), can, signer, after_content)
            .await?;

        if can.is_reader() {
''','''        let was_member = self.group.members().contains_key(&member_to_add.id());
        let mut update = self
            .group
            .add_member_with_manual_content(member_to_add.dupe(), can, signer, after_content)
            .await?;

        if can.is_reader() && !was_member {
''')]
DEMO='''
fn main() {
    let mut w = World::new(5, 3);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..3).map(|i| w.nodes[i].ident()).collect();
    let d = w.new_doc(0, &[]).unwrap();
    w.add(0, d.into(), ids[1], Access::Relay).unwrap();
    w.add(0, d.into(), ids[2], Access::Read).unwrap();
    w.add(0, d.into(), ids[1], Access::Read).unwrap();
    let c = w.encrypt(0, d, vec![], b"for readers".to_vec()).unwrap();
    w.deliver_all();
    for i in 1..3 {
        let c = w.contents[c].clone();
        assert_eq!(w.decrypt(i, &c), Ok(b"for readers".to_vec()), "P{i}");
    }
}
'''
