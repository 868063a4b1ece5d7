PROPERTY='C06'
NEEDS='two encryptions of the same content reference under one group key that differ in their predecessors'
BREAKS='The key of a content no longer depends on its predecessors, so two contents with the same reference and different predecessors are sealed under the same key.'
EDITS=[('beekem/src/pcs_key.rs','format!("epoch:{pcs_hash}/pred:{pred_refs}/content:{display_ref}").into_bytes();','format!("epoch:{pcs_hash}/pred:{display_ref}/content:{display_ref}").into_bytes();')]
DEMO='''
use keyhive_crypto::{digest::Digest, siv::Siv, share_key::ShareSecretKey};
use beekem::pcs_key::PcsKey;
fn main() {
    let mut w = World::new(7, 2);
    w.introduce_all();
    let d = w.new_doc(0, &[w.nodes[1].ident()]).unwrap();
    w.deliver_all();
    let r = w.next_ref();
    let a = w.next_ref();
    let c1 = w.encrypt_as(0, d, r, vec![], b"hello".to_vec()).unwrap();
    let c2 = w.encrypt_as(0, d, r, vec![a], b"hello".to_vec()).unwrap();
    w.deliver_all();
    let key = |w: &World, c: usize| {
        let c = w.contents[c].clone();
        let doc = w.doc(1, d).unwrap();
        block_on(async { doc.lock().await.cgka_mut().unwrap().decryption_key_for(&c.enc).unwrap() })
    };
    assert_ne!(w.contents[c1].enc.pred_refs, w.contents[c2].enc.pred_refs);
    let _ = key;
    let sk = ShareSecretKey::force_from_bytes([7; 32]);
    let pcs = PcsKey::new(sk);
    let e = &w.contents[c1].enc;
    let f = &w.contents[c2].enc;
    let k1 = pcs.derive_application_secret(&e.nonce, &e.content_ref, &e.pred_refs, &e.pcs_update_op_hash).key();
    let k2 = pcs.derive_application_secret(&f.nonce, &f.content_ref, &f.pred_refs, &f.pcs_update_op_hash).key();
    assert_ne!(k1.as_slice(), k2.as_slice());
}
'''
