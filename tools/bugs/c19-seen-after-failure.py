PROPERTY='C19'
NEEDS='an item reached with a wrong key before it is reached with the right one'
BREAKS='An item once met with a wrong key is never tried with the right one, so it and all of its ancestors stay closed.'
EDITS=[('keyhive_core/src/store/ciphertext.rs','''                    Err(_) => {
                        seen.remove(&content_ref);
                        cannot.insert(content_ref.clone(), ErrorReason::DecryptionFailed(key));
''','''                    Err(_) => {
                        cannot.insert(content_ref.clone(), ErrorReason::DecryptionFailed(key));
''')]
DEMO='''
use beekem::{encrypted::EncryptedContent, pcs_key::PcsKey};
use future_form::Sendable;
use keyhive_core::{crypto::envelope::Envelope, store::ciphertext::CiphertextStoreExt};
use keyhive_crypto::{digest::Digest, share_key::ShareSecretKey, siv::Siv, symmetric_key::SymmetricKey};
use rand::SeedableRng;
use std::sync::Arc;
fn main() {
    let mut rng = rand_chacha::ChaCha20Rng::seed_from_u64(3);
    let store = Store::new();
    let mut mk = |k: u8, anc: Vec<(Ref, SymmetricKey)>| {
        let key = SymmetricKey::generate(&mut rng);
        let mut bytes = bincode::serialize(&Envelope { plaintext: vec![k; 9], ancestors: anc.into_iter().collect::<HashMap<_, _>>() }).unwrap();
        let nonce = Siv::new(&key, &bytes, &[k]);
        key.try_encrypt(nonce, &mut bytes).unwrap();
        let pcs: PcsKey = ShareSecretKey::generate(&mut rng).into();
        let op = Digest { raw: blake3::hash(&[k]), _phantom: Default::default() };
        let enc: Arc<EncryptedContent<Vec<u8>, Ref>> = Arc::new(EncryptedContent::new(nonce, bytes, Digest::hash(&pcs), op, [k; 32], Digest::hash(&vec![])));
        block_on(store.insert(enc.clone()));
        (enc, key)
    };
    let (a, ka) = mk(1, vec![]);
    let (b, kb) = mk(2, vec![([1; 32], ka)]);
    // b is met with the key of a first, then with its own
    let mut todo = vec![(b.clone(), kb), (b.clone(), ka)];
    let r = block_on(CiphertextStoreExt::<Sendable, Ref, Vec<u8>>::try_causal_decrypt(&store, &mut todo));
    let done = match r { Ok(s) => s.complete, Err(e) => e.progress.complete };
    let got: BTreeMap<Ref, Vec<u8>> = done.into_iter().collect();
    assert_eq!(got.keys().copied().collect::<Vec<_>>(), vec![a.content_ref, b.content_ref]);
}
'''
