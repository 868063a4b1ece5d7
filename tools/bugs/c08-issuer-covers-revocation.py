PROPERTY='C08'
NEEDS='an earlier grant of the same issuer reaches a replica after that issuer\'s revocation'
BREAKS='A replica takes any grant by the issuer of a revocation as coming after it and drops the revocation from its heads; if that grant was made earlier and merely arrived later, the revocation is no longer reachable and the revoked member is back at that replica only.'
EDITS=[('keyhive_core/src/principal/group/state.rs','''            if delegation.payload.after_revocations.contains(head) {
''','''            if delegation.payload.after_revocations.contains(head)
                || (delegation.issuer == head.issuer && delegation.payload.proof == head.payload.proof)
            {
''')]
DEMO='''
fn main() {
    let mut w = World::new(7, 4);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..4).map(|i| w.nodes[i].ident()).collect();
    let g = w.new_group(0, &[]).unwrap();
    w.deliver_all();
    // P0 revokes its own admin grant citing it; before that it had added P2, which arrives late
    w.add(0, g.into(), ids[1], Access::Admin).unwrap();
    let late = w.add(0, g.into(), ids[2], Access::Edit).unwrap();
    let rev = w.revoke(0, g.into(), ids[0], false).unwrap();
    let all: Vec<usize> = (0..w.pool.len()).collect();
    let early: Vec<usize> = all.iter().copied().filter(|x| !late.contains(x)).collect();
    w.deliver(1, &all);
    w.deliver(3, &early);
    w.deliver(3, &late);
    let _ = rev;
    let (a, b) = (w.view(1), w.view(3));
    println!("{}", w.describe(&a.groups[&g.into()]));
    println!("{}", w.describe(&b.groups[&g.into()]));
    assert_eq!(a.groups[&g.into()].members, b.groups[&g.into()].members);
    assert!(!b.groups[&g.into()].members.contains_key(&ids[0]));
}
'''
