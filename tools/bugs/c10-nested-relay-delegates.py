PROPERTY='C10'
NEEDS='a group nested as Admin in another, a member of the inner group with less than Admin, and a grant signed by that member citing the nesting as proof'
BREAKS='Authority through a nested group is checked only for membership at the lowest level, so somebody who may only relay in the inner group can make an admin of the outer one by citing the inner group\'s own grant.'
EDITS=[('keyhive_core/src/principal/group/state.rs','''                if !is_transitive_member_of(
                    &proof.payload.delegate,
                    head_id,
                    delegation.payload.can,
                    self.id.into(),
                )
''','''                if !is_transitive_member_of(
                    &proof.payload.delegate,
                    head_id,
                    Access::Relay,
                    self.id.into(),
                )
''')]
DEMO='''
use keyhive_core::principal::group::delegation::StaticDelegation;
use keyhive_crypto::{digest::Digest, signed::Signed};
fn main() {
    let mut w = World::new(7, 4);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..4).map(|i| w.nodes[i].ident()).collect();
    let inner = w.new_group(0, &[]).unwrap();
    let outer = w.new_group(0, &[]).unwrap();
    w.add(0, inner.into(), ids[1], Access::Relay).unwrap();
    let nest = w.add(0, outer.into(), inner.into(), Access::Admin).unwrap();
    w.deliver_all();
    let proof = match &w.pool[nest[0]].ev { StaticEvent::Delegated(s) => Digest::hash(s), _ => panic!() };
    let evil = w.nodes[1].signer.try_sign_sync(StaticDelegation {
        can: Access::Admin, proof: Some(proof), delegate: ids[1], after_revocations: vec![], after_content: BTreeMap::new(),
    }).unwrap();
    let before = w.view(2).groups[&outer.into()].clone();
    w.deliver_raw(2, vec![StaticEvent::Delegated(evil)]);
    let after = w.view(2).groups[&outer.into()].clone();
    println!("{}", w.describe(&after));
    assert_eq!(before, after);
}
'''
