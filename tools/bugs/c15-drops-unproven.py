PROPERTY='C15'
NEEDS='a grant by somebody whose authority comes through a nested group, delivered in an earlier call than the grants of that nested group'
BREAKS='Ingestion discards a delegation whose proof chain is invalid according to what is known so far instead of keeping it pending, so a grant that arrives before the nested membership it rests on is lost for good.'
EDITS=[('keyhive_core/src/keyhive.rs','''                    if matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_)) {
''','''                    let is_forgery = matches!(
                        &e,
                        ReceiveStaticEventError::ReceiveStaticMembershipError(
                            ReceiveStaticDelegationError::GroupReceiveError(
                                crate::principal::group::error::AddError::InvalidProofChain
                            )
                        )
                    );
                    if is_forgery || matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_)) {
''')]
DEMO='''
fn main() {
    let mut w = World::new(5, 4);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..4).map(|i| w.nodes[i].ident()).collect();
    let inner = w.new_group(0, &[]).unwrap();
    let outer = w.new_group(0, &[]).unwrap();
    w.deliver_all();
    let nest = w.add(0, outer.into(), inner.into(), Access::Admin).unwrap();
    let in1 = w.add(0, inner.into(), ids[1], Access::Admin).unwrap();
    w.sync_pool(0, 1);
    let by1 = w.add(1, outer.into(), ids[3], Access::Edit).unwrap();
    // P2 hears of the grant by P1 first, of what it rests on afterwards
    w.deliver(2, &nest);
    w.deliver(2, &by1);
    w.deliver(2, &in1);
    let v = w.view(2);
    println!("{}", w.describe(&v.groups[&outer.into()]));
    assert!(v.groups[&outer.into()].members.contains_key(&ids[3]));
}
'''
