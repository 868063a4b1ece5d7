PROPERTY='C05'
NEEDS='a group of eight, two members of the same quarter removed one after the other with an update between them that only fills half of the first one\'s blanked path, and an update from the other half after the second removal'
BREAKS='Blanking the path of a removed member stops at the first node that is already blank, so keys above that node which the removed member knows stay in the tree and later group keys are still sealed to them.'
EDITS=[('beekem/src/tree.rs','''        while !self.is_root(idx.into()) {
            self.blank_inner_node(idx);
            idx = treemath::parent(idx.into());
        }
        self.blank_inner_node(idx);
''','''        while !self.is_root(idx.into()) && self.inner_nodes[idx.usize()].is_some() {
            self.blank_inner_node(idx);
            idx = treemath::parent(idx.into());
        }
        // The rest of the path has been blanked along with this node, apart from the root
        if let TreeNodeIndex::Inner(root) = treemath::root(self.tree_size) {
            self.blank_inner_node(root);
        }
''')]
DEMO='''
use beekem::{cgka::Cgka, id::{MemberId, TreeId}, keys::ShareKeyMap, operation::CgkaOperation, pcs_key::PcsKey, secret_store::SecretStoreVersion};
use keyhive_crypto::{digest::Digest, share_key::{ShareKey, ShareSecretKey}, signed::Signed, signer::memory::MemorySigner, verifiable::Verifiable};
use future_form::Sendable;
use std::sync::Arc;
use rand::SeedableRng;

struct P { id: MemberId, signer: MemorySigner, sk: ShareSecretKey, cgka: Cgka }

fn closure(known: &mut BTreeMap<ShareKey, ShareSecretKey>, ops: &[Signed<CgkaOperation>]) {
    let vs: Vec<SecretStoreVersion> = ops.iter().flat_map(|op| match op.payload() {
        CgkaOperation::Update { new_path, .. } => new_path.path.iter().flat_map(|(_, store)| {
            bincode::deserialize::<Vec<SecretStoreVersion>>(&bincode::serialize(store).unwrap()).unwrap()
        }).collect::<Vec<_>>(),
        _ => vec![],
    }).collect();
    loop {
        let before = known.len();
        for v in &vs {
            if known.contains_key(&v.pk) { continue; }
            for es in v.sk.values() {
                let mut keys = vec![];
                if let Some(sk) = known.get(&es.paired_pk) { keys.push(sk.derive_symmetric_key(&v.encrypter_pk)); }
                if let Some(sk) = known.get(&v.encrypter_pk) { keys.push(sk.derive_symmetric_key(&es.paired_pk)); }
                for k in keys {
                    let mut buf = es.ciphertext.clone();
                    if k.try_decrypt(es.nonce, &mut buf).is_ok() {
                        if let Ok(b) = <[u8; 32]>::try_from(buf) {
                            let sk = ShareSecretKey::force_from_bytes(b);
                            known.insert(sk.share_key(), sk);
                        }
                    }
                }
            }
        }
        if known.len() == before { break; }
    }
}

fn main() {
    let mut rng = rand_chacha::ChaCha20Rng::seed_from_u64(9);
    let doc = TreeId::from(MemorySigner::generate(&mut rng).verifying_key());
    let who: Vec<(MemorySigner, ShareSecretKey)> = (0..8).map(|_| (MemorySigner::generate(&mut rng), ShareSecretKey::generate(&mut rng))).collect();
    let id0 = MemberId::from(who[0].0.verifying_key());
    let pk0 = who[0].1.share_key();
    let first = block_on(Cgka::new::<Sendable, _>(doc, id0, pk0, &who[0].0)).unwrap();
    let init = first.init_add_op();
    let mut ps: Vec<P> = who.into_iter().map(|(signer, sk)| {
        let id = MemberId::from(signer.verifying_key());
        let mut sks = ShareKeyMap::new();
        sks.insert(sk.share_key(), sk);
        let cgka = Cgka::new_from_init_add(doc, id0, pk0, init.clone()).unwrap().with_new_owner(id, sks).unwrap();
        P { id, signer, sk, cgka }
    }).collect();
    let mut ops = vec![init];
    let mut share = |ps: &mut Vec<P>, by: usize, op: Signed<CgkaOperation>| {
        for i in 0..8 { if i != by { ps[i].cgka.merge_concurrent_operation(Arc::new(op.clone())).unwrap(); } }
        ops.push(op);
    };
    for k in 1..8 {
        let (id, pk, s) = (ps[k].id, ps[k].sk.share_key(), ps[0].signer.clone());
        let op = block_on(ps[0].cgka.add::<Sendable, _>(id, pk, &s)).unwrap().unwrap();
        share(&mut ps, 0, op);
    }
    // where each member is in the tree, in the order they were added
    let mut last = None;
    let mut steps: Vec<(bool, usize, usize)> = (0..8).map(|k| (true, k, 0)).collect();
    steps.extend([(false, 0, 5), (true, 6, 0), (false, 0, 4), (true, 1, 0)]);
    for (update, by, target) in steps {
        let s = ps[by].signer.clone();
        if update {
            let sk = ShareSecretKey::generate(&mut rng);
            let (pcs, op) = block_on(ps[by].cgka.update::<Sendable, _, _>(sk.share_key(), sk, &s, &mut rng)).unwrap();
            last = Some(pcs);
            share(&mut ps, by, op);
        } else {
            let id = ps[target].id;
            let op = block_on(ps[by].cgka.remove::<Sendable, _>(id, &s)).unwrap().unwrap();
            share(&mut ps, by, op);
        }
    }
    let want = Digest::hash(&last.unwrap());
    for m in 4..6 {
        let mut known: BTreeMap<ShareKey, ShareSecretKey> = bincode::deserialize(&bincode::serialize(&ps[m].cgka.owner_sks).unwrap()).unwrap();
        known.insert(ps[m].sk.share_key(), ps[m].sk);
        closure(&mut known, &ops);
        assert!(known.values().all(|k| Digest::hash(&PcsKey::new(*k)) != want), "removed member {m} can compute the new group key");
    }
}
'''
