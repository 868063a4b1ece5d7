PROPERTY='C13'
NEEDS='a delegation issued by somebody who had seen a revocation signed by somebody else, and a peer who learns of both from the events for its agent alone'
BREAKS='The events handed to an agent leave out the revocations a delegation depends on unless the delegator signed them, so the delegation cannot be applied by the receiver.'
EDITS=[('keyhive_core/src/principal/group/membership_operation.rs','''            for rev in dlg.payload.after_revocations.iter() {
                heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
            }
''','''            for rev in dlg.payload.after_revocations.iter() {
                if rev.issuer == dlg.issuer {
                    heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
                }
            }
''')]
DEMO='''
fn main() {
    let mut w = World::new(5, 4);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..4).map(|i| w.nodes[i].ident()).collect();
    let g = w.new_group(0, &[]).unwrap();
    w.add(0, g.into(), ids[1], Access::Admin).unwrap();
    w.add(0, g.into(), ids[2], Access::Read).unwrap();
    w.revoke(0, g.into(), ids[2], true).unwrap();
    w.sync_pool(0, 1);
    w.add(1, g.into(), ids[3], Access::Read).unwrap();
    // a later grant by its own signer supersedes the revocation as a head of the group
    let pending = w.sync_api(1, 3);
    assert!(pending.is_empty(), "{} events cannot be applied", pending.len());
    let v = w.view(3);
    assert!(v.groups[&g.into()].members.contains_key(&ids[3]));
}
'''
