PROPERTY='C11'
NEEDS='a member who holds two or more separate grants, revoked by somebody other than the group key'
BREAKS='Revoking a member stops after the first of their grants that could be revoked, so a member with several grants keeps the rest and stays a member although the revocation succeeded.'
EDITS=[('keyhive_core/src/principal/group.rs','''                if !found {
                    return Err(RevokeMemberError::NoProof);
                }
''','''                if !found {
                    return Err(RevokeMemberError::NoProof);
                }

                if !retain_all_other_members && to_revoke.issuer == vk {
                    break;
                }
''')]
DEMO='''
fn main() {
    let mut w = World::new(7, 3);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..3).map(|i| w.nodes[i].ident()).collect();
    let g = w.new_group(0, &[]).unwrap();
    w.deliver_all();
    w.add(0, g.into(), ids[1], Access::Read).unwrap();
    w.add(0, g.into(), ids[1], Access::Edit).unwrap();
    w.revoke(0, g.into(), ids[1], false).unwrap();
    let v = w.view(0).groups[&g.into()].clone();
    println!("{}", w.describe(&v));
    assert!(!v.members.contains_key(&ids[1]));
}
'''
