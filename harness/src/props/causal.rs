//! C19 causal decryption: the closure over the ancestor graph, at the store and through a document.
use crate::engine::{block_on, Case, Check, Failure, Prop, Src};
use crate::world::{Ref, Store, World};
use beekem::{encrypted::EncryptedContent, operation::CgkaOperation, pcs_key::PcsKey};
use future_form::Sendable;
use keyhive_core::{
    access::Access,
    crypto::envelope::Envelope,
    principal::document::DocCausalDecryptionError,
    principal::identifier::Identifier,
    store::ciphertext::{CausalDecryptionState, CiphertextStore, CiphertextStoreExt, ErrorReason},
};
use keyhive_crypto::{
    digest::Digest, share_key::ShareSecretKey, signed::Signed, siv::Siv,
    symmetric_key::SymmetricKey,
};
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        run: c19,
        quick: 40_000,
        thorough: 400_000,
        scripted: &[],
        rule: "the ancestor graph has an item reached over two paths and one out of reach at first, or an older item opened by somebody who could not open it directly",
        assumptions: &[
            "envelopes are honest about their ancestors' keys except where the case injects a wrong one",
            "one ciphertext per content reference",
        ],
    }]
}

type Enc = EncryptedContent<Vec<u8>, Ref>;

/// A ciphertext store whose lookups and deletions can fail.
#[derive(Clone)]
struct Faulty {
    inner: Store,
    no_get: HashSet<Ref>,
    no_mark: HashSet<Ref>,
}

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;

impl CiphertextStore<Sendable, Ref, Vec<u8>> for Faulty {
    type GetCiphertextError = String;
    type MarkDecryptedError = String;
    fn get_ciphertext<'a>(&'a self, id: &'a Ref) -> Fut<'a, Result<Option<Arc<Enc>>, String>> {
        Box::pin(async move {
            if self.no_get.contains(id) {
                return Err("unreadable".into());
            }
            Ok(self.inner.get_by_content_ref(id).await)
        })
    }
    fn get_ciphertext_by_pcs_update<'a>(
        &'a self,
        u: &'a Digest<Signed<CgkaOperation>>,
    ) -> Fut<'a, Result<Vec<Arc<Enc>>, String>> {
        Box::pin(async move { Ok(self.inner.get_by_pcs_update(u).await) })
    }
    fn mark_decrypted<'a>(&'a self, id: &'a Ref) -> Fut<'a, Result<(), String>> {
        Box::pin(async move {
            if self.no_mark.contains(id) {
                return Err("read only".into());
            }
            self.inner.remove_all(id).await;
            Ok(())
        })
    }
}

fn rref(seed: u64, k: usize) -> Ref {
    *blake3::hash(&[seed.to_le_bytes(), (k as u64).to_le_bytes()].concat()).as_bytes()
}

struct Item {
    r: Ref,
    plain: Vec<u8>,
    key: SymmetricKey,
    /// (ancestor, named with its right key)
    anc: Vec<(usize, bool)>,
    enc: Arc<Enc>,
    /// what is inside is an envelope, and the ciphertext is intact
    sound: bool,
}

/// What the closure from `starts` must contain: the items opened, those missing and those broken.
#[derive(Default, Debug, PartialEq, Eq)]
struct Expect {
    complete: BTreeSet<usize>,
    next: BTreeSet<usize>,
    /// reached, but only with wrong keys or damaged
    broken: BTreeSet<usize>,
    unreadable: BTreeSet<usize>,
    /// all that the store failed to hand out (some may have been given to start from)
    refused: BTreeSet<usize>,
    diamond: bool,
}

fn closure(
    items: &[Item],
    starts: &[(usize, bool)],
    have: &BTreeSet<usize>,
    no_get: &BTreeSet<usize>,
) -> Expect {
    let mut e = Expect::default();
    let mut todo: Vec<(usize, bool)> = starts.to_vec();
    let mut reached: BTreeMap<usize, usize> = BTreeMap::new();
    while let Some((k, right)) = todo.pop() {
        *reached.entry(k).or_default() += 1;
        if e.complete.contains(&k) {
            continue;
        }
        if !right || !items[k].sound {
            e.broken.insert(k);
            continue;
        }
        e.broken.remove(&k);
        e.complete.insert(k);
        for (a, right) in &items[k].anc {
            if no_get.contains(a) {
                e.unreadable.insert(*a);
            } else if !have.contains(a) {
                e.next.insert(*a);
            } else {
                todo.push((*a, *right));
            }
        }
    }
    e.broken = e.broken.difference(&e.complete).copied().collect();
    e.refused = e.unreadable.clone();
    e.unreadable = e.unreadable.difference(&e.complete).copied().collect();
    e.diamond = reached.values().any(|n| *n > 1);
    e
}

fn keys_eq(a: &SymmetricKey, b: &SymmetricKey) -> bool {
    bincode::serialize(a).unwrap() == bincode::serialize(b).unwrap()
}

fn c19(src: &mut Src, case: &mut Case) -> Check {
    if src.chance(1, 8) {
        c19_document(src, case)
    } else {
        c19_store(src, case)
    }
}

fn c19_store(src: &mut Src, case: &mut Case) -> Check {
    case.label("store");
    let n = 1 + src.idx(10);
    let seed = src.below(1 << 30);
    let mut rng = ChaCha20Rng::seed_from_u64(seed);
    let cyclic = src.chance(1, 8);
    let faults = src.chance(1, 3);
    let keys: Vec<SymmetricKey> = (0..n).map(|_| SymmetricKey::generate(&mut rng)).collect();
    let mut items: Vec<Item> = vec![];
    for k in 0..n {
        let lim = if cyclic { n } else { k };
        let mut anc: Vec<(usize, bool)> = vec![];
        let style = src.idx(4);
        for a in 0..lim {
            let take = match style {
                0 => a + 1 == k,
                1 => src.chance(1, 4),
                2 => src.chance(1, 2),
                _ => a + 2 >= k,
            };
            if take {
                anc.push((a, !(faults && src.chance(1, 10))));
            }
        }
        let plain = src.bytes(60);
        let ancestors: HashMap<Ref, SymmetricKey> = anc
            .iter()
            .map(|(a, right)| {
                (
                    rref(seed, *a),
                    if *right {
                        keys[*a]
                    } else {
                        keys[(*a + 1 + src.idx(n)) % n]
                    },
                )
            })
            .collect();
        // a neighbour's key can happen to be the right one
        for (a, right) in anc.iter_mut() {
            *right = keys_eq(&ancestors[&rref(seed, *a)], &keys[*a]);
        }
        let mut bytes = bincode::serialize(&Envelope {
            plaintext: plain.clone(),
            ancestors,
        })
        .unwrap();
        let mut sound = true;
        if faults && src.chance(1, 12) {
            let cut = src.idx(bytes.len());
            bytes.truncate(cut);
            sound = false;
        }
        let nonce = Siv::new(&keys[k], &bytes, &seed.to_le_bytes());
        keys[k].try_encrypt(nonce, &mut bytes).unwrap();
        if faults && src.chance(1, 12) {
            let at = src.idx(bytes.len());
            bytes[at] ^= 1 << src.idx(8);
            sound = false;
        }
        let pcs: PcsKey = ShareSecretKey::generate(&mut rng).into();
        let op = Digest {
            raw: blake3::hash(&(k as u64).to_le_bytes()),
            _phantom: Default::default(),
        };
        let enc = Enc::new(
            nonce,
            bytes,
            Digest::hash(&pcs),
            op,
            rref(seed, k),
            Digest::hash(&vec![]),
        );
        case.note(format!(
            "item {k}: ancestors {:?}{}",
            anc.iter()
                .map(|(a, r)| if *r {
                    format!("{a}")
                } else {
                    format!("{a} (wrong key)")
                })
                .collect::<Vec<_>>(),
            if sound { "" } else { " (damaged)" }
        ));
        items.push(Item {
            r: rref(seed, k),
            plain,
            key: keys[k],
            anc,
            enc: Arc::new(enc),
            sound,
        });
    }
    let by_ref: HashMap<Ref, usize> = items.iter().enumerate().map(|(k, i)| (i.r, k)).collect();
    let all: BTreeSet<usize> = (0..n).collect();
    let mut have: BTreeSet<usize> = all.iter().copied().filter(|_| !src.chance(1, 4)).collect();
    let no_get: BTreeSet<usize> = if faults {
        all.iter().copied().filter(|_| src.chance(1, 12)).collect()
    } else {
        BTreeSet::new()
    };
    let no_mark: BTreeSet<usize> = if faults {
        all.iter().copied().filter(|_| src.chance(1, 12)).collect()
    } else {
        BTreeSet::new()
    };
    let mut starts: Vec<(usize, bool)> = vec![(n - 1, true)];
    for _ in 0..src.idx(3) {
        starts.push((src.idx(n), !(faults && src.chance(1, 6))));
    }
    src.shuffle(&mut starts);
    case.note(format!(
        "available {have:?}; unreadable {no_get:?}; starting from {starts:?}"
    ));

    let mut opened: BTreeMap<usize, ()> = BTreeMap::new();
    let mut first: Option<Expect> = None;
    let mut store = Faulty {
        inner: Store::new(),
        no_get: no_get.iter().map(|k| items[*k].r).collect(),
        no_mark: no_mark.iter().map(|k| items[*k].r).collect(),
    };
    let mut order: Vec<usize> = have.iter().copied().collect();
    src.shuffle(&mut order);
    for k in &order {
        block_on(store.inner.insert(items[*k].enc.clone()));
    }
    let wrong = |k: usize| items[(k + 1) % n].key;
    let mut round = 0;
    let mut entry: Vec<(usize, SymmetricKey)> = starts
        .iter()
        .map(|(k, right)| (*k, if *right { items[*k].key } else { wrong(*k) }))
        .collect();
    loop {
        let st: Vec<(usize, bool)> = entry
            .iter()
            .map(|(k, key)| (*k, keys_eq(key, &items[*k].key)))
            .collect();
        let e = closure(&items, &st, &have, &no_get);
        let mut todo: Vec<(Arc<Enc>, SymmetricKey)> = entry
            .iter()
            .map(|(k, key)| (items[*k].enc.clone(), *key))
            .collect();
        let r = block_on(
            CiphertextStoreExt::<Sendable, Ref, Vec<u8>>::try_causal_decrypt(&store, &mut todo),
        );
        let (progress, cannot, failed) = match r {
            Ok(p) => (p, HashMap::new(), false),
            Err(err) => (err.progress, err.cannot, true),
        };
        check_progress(case, &items, &by_ref, &e, &progress)?;
        // everything that went wrong is reported, and nothing that did not
        let mut cant: BTreeSet<usize> = BTreeSet::new();
        for (r, why) in cannot.iter() {
            let Some(k) = by_ref.get(r) else {
                return fail_("unknown-in-cannot", "a reference nobody named is reported");
            };
            cant.insert(*k);
            match why {
                ErrorReason::DecryptionFailed(_) | ErrorReason::DeserializationFailed(_) => {
                    case.asserts += 1;
                    ensure!(
                        e.broken.contains(k),
                        "false-failure",
                        "item {k} is reported as {why}, but it was opened"
                    );
                }
                _ => {}
            }
        }
        let mut expect_cant: BTreeSet<usize> = e.broken.union(&e.unreadable).copied().collect();
        expect_cant.extend(e.complete.intersection(&no_mark).copied());
        case.asserts += 2;
        ensure!(
            failed == !expect_cant.is_empty(),
            "verdict",
            "failed: {failed}, but problems with {expect_cant:?}"
        );
        ensure!(
            cant == expect_cant,
            "cannot",
            "reported {cant:?}, problems with {expect_cant:?}"
        );
        // opened ciphertexts leave the store, the others stay
        for k in 0..n {
            let still = block_on(store.inner.get_by_content_ref(&items[k].r)).is_some();
            let gone = e.complete.contains(&k) && !no_mark.contains(&k);
            case.asserts += 1;
            ensure!(
                still == (have.contains(&k) && !gone),
                "store-after",
                "item {k}: in the store {still}, opened {gone}"
            );
        }
        for k in &e.complete {
            opened.insert(*k, ());
            if !no_mark.contains(k) {
                have.remove(k);
            }
        }
        let more: Vec<usize> = e
            .next
            .iter()
            .copied()
            .filter(|k| !opened.contains_key(k))
            .collect();
        let keys: BTreeMap<usize, SymmetricKey> = progress
            .next
            .iter()
            .filter_map(|(r, key)| by_ref.get(r).map(|k| (*k, *key)))
            .collect();
        if first.is_none() {
            first = Some(e);
        }
        round += 1;
        if more.is_empty() || round > 12 {
            break;
        }
        // some of what was missing arrives, and the rest later
        let mut arrived: Vec<usize> = more.iter().copied().filter(|_| src.chance(2, 3)).collect();
        if arrived.is_empty() {
            arrived = more.clone();
        }
        src.shuffle(&mut arrived);
        for k in &arrived {
            block_on(store.inner.insert(items[*k].enc.clone()));
            have.insert(*k);
        }
        let waiting: Vec<usize> = more
            .iter()
            .copied()
            .filter(|k| !arrived.contains(k))
            .collect();
        entry = arrived.iter().map(|k| (*k, keys[k])).collect();
        if !waiting.is_empty() {
            // let them arrive now as well, to be continued from on their own
            for k in waiting {
                block_on(store.inner.insert(items[k].enc.clone()));
                have.insert(k);
                entry.push((k, keys[&k]));
            }
            src.shuffle(&mut entry);
        }
        case.note(format!("then {arrived:?} arrive"));
        case.label("continued");
    }
    if !faults {
        // in the end all of the history is open
        let total = closure(&items, &starts, &all, &BTreeSet::new());
        case.asserts += 1;
        ensure!(
            opened.keys().copied().collect::<BTreeSet<_>>() == total.complete,
            "closure-in-parts",
            "opened {:?} of {:?}",
            opened.keys().collect::<Vec<_>>(),
            total.complete
        );
    }
    store.no_get.clear();
    let f = first.unwrap();
    case.nontrivial = f.diamond
        && (round > 1 || !f.next.is_empty() || !f.broken.is_empty() || !f.unreadable.is_empty());
    if cyclic {
        case.label("cyclic");
    }
    if faults {
        case.label("faults");
    }
    Ok(())
}

fn fail_(sig: &str, msg: &str) -> Check {
    Err(Failure {
        sig: sig.into(),
        msg: msg.into(),
    })
}

fn check_progress(
    case: &mut Case,
    items: &[Item],
    by_ref: &HashMap<Ref, usize>,
    e: &Expect,
    p: &CausalDecryptionState<Ref, Vec<u8>>,
) -> Check {
    let mut got: BTreeSet<usize> = BTreeSet::new();
    for (r, plain) in &p.complete {
        let Some(k) = by_ref.get(r) else {
            return fail_("unknown-opened", "a reference nobody named is opened");
        };
        case.asserts += 2;
        ensure!(got.insert(*k), "opened-twice", "item {k} is listed twice");
        ensure!(
            *plain == items[*k].plain,
            "wrong-plaintext",
            "item {k} opens to other bytes"
        );
        ensure!(
            p.keys.get(r).is_some_and(|x| keys_eq(x, &items[*k].key)),
            "wrong-key",
            "the key kept for item {k} is not its key"
        );
    }
    case.asserts += 2;
    ensure!(
        got == e.complete,
        "closure",
        "opened {got:?}, reachable {:?}",
        e.complete
    );
    let next: BTreeSet<usize> = p
        .next
        .keys()
        .filter_map(|r| by_ref.get(r))
        .copied()
        .collect();
    let expect_next: BTreeSet<usize> = e.next.union(&e.refused).copied().collect();
    ensure!(
        e.next.is_subset(&next) && next.is_subset(&expect_next),
        "next",
        "left for later {next:?}, missing {:?}, unreadable {:?}",
        e.next,
        e.refused
    );
    // whatever could not be fetched can be continued from
    ensure!(
        next == expect_next,
        "key-lost",
        "the keys of {:?} are not kept",
        expect_next.difference(&next).collect::<Vec<_>>()
    );
    Ok(())
}

/// The same through documents: older content is opened by those who can open a later one.
fn c19_document(src: &mut Src, case: &mut Case) -> Check {
    case.label("document");
    let n = 3;
    let mut w = World::new(src.below(1 << 20), n);
    w.introduce_all();
    let Some(d) = w.new_doc(0, &[]) else {
        return Ok(());
    };
    let did = Identifier::from(d);
    let (second, third) = (w.nodes[1].ident(), w.nodes[2].ident());
    w.add(0, did, second, Access::Edit).expect("add");
    w.deliver_all();
    let m = 2 + src.idx(6);
    let join = src.idx(m);
    let faults = src.chance(1, 3);
    let mut keys: Vec<SymmetricKey> = vec![];
    let mut items: Vec<Item> = vec![];
    let mut broken_cipher: Vec<bool> = vec![];
    for k in 0..m {
        if k == join {
            w.add(0, did, third, Access::Read).expect("add");
            w.deliver_all();
        }
        let by = src.idx(2);
        if src.chance(1, 4) {
            let _ = w.pcs_update(by, d);
            w.deliver_all();
        }
        let mut anc: Vec<(usize, bool)> = (0..k)
            .filter(|a| a + 1 == k || src.chance(1, 4))
            .map(|a| (a, true))
            .collect();
        if src.chance(1, 6) {
            anc.clear();
        }
        let plain = src.bytes(60);
        for a in anc.iter_mut() {
            a.1 = !(faults && src.chance(1, 8));
        }
        let stranger = SymmetricKey::generate(&mut ChaCha20Rng::seed_from_u64(k as u64));
        let env = Envelope {
            plaintext: plain.clone(),
            ancestors: anc
                .iter()
                .map(|(a, right)| (items[*a].r, if *right { keys[*a] } else { stranger }))
                .collect::<HashMap<_, _>>(),
        };
        let mut bytes = bincode::serialize(&env).unwrap();
        let mut sound = true;
        if faults && src.chance(1, 10) {
            bytes.truncate(src.idx(bytes.len()));
            sound = false;
        }
        let r = w.next_ref();
        let preds: Vec<Ref> = anc.iter().map(|(a, _)| items[*a].r).collect();
        let doc = w.doc(by, d).unwrap();
        let (e, key) = block_on(
            w.nodes[by]
                .kh
                .try_encrypt_content_keyed(doc, &r, &preds, &bytes),
        )
        .expect("encrypt");
        w.collect(by);
        w.deliver_all();
        keys.push(key);
        let mut enc = e.encrypted_content().clone();
        let mut damaged = false;
        if faults && src.chance(1, 8) {
            let at = src.idx(enc.ciphertext.len());
            enc.ciphertext[at] ^= 1 << src.idx(8);
            (sound, damaged) = (false, true);
        }
        case.note(format!(
            "P{by} writes item {k}, ancestors {:?}{}",
            anc.iter()
                .map(|(a, right)| if *right {
                    format!("{a}")
                } else {
                    format!("{a} (wrong key)")
                })
                .collect::<Vec<_>>(),
            if damaged {
                " (damaged)"
            } else if !sound {
                " (no envelope)"
            } else {
                ""
            }
        ));
        broken_cipher.push(damaged);
        items.push(Item {
            r,
            plain,
            key,
            anc,
            enc: Arc::new(enc),
            sound,
        });
    }
    let by_ref: HashMap<Ref, usize> = items.iter().enumerate().map(|(k, i)| (i.r, k)).collect();
    let reader = src.idx(n);
    let start = src.idx(m);
    let have: BTreeSet<usize> = (0..m).filter(|_| !src.chance(1, 5)).collect();
    let mut order: Vec<usize> = have.iter().copied().collect();
    src.shuffle(&mut order);
    for k in &order {
        block_on(w.nodes[reader].store.insert(items[*k].enc.clone()));
    }
    case.note(format!(
        "P2 joined before item {join}; P{reader} holds {have:?} and starts from {start}"
    ));
    let direct: Vec<bool> = (0..m)
        .map(|k| {
            let doc = w.doc(reader, d).unwrap();
            let r = block_on(w.nodes[reader].kh.try_decrypt_content(doc, &items[k].enc));
            r.is_ok()
        })
        .collect();
    let doc = w.doc(reader, d).unwrap();
    let res = block_on(
        w.nodes[reader]
            .kh
            .try_causal_decrypt_content(doc, &items[start].enc),
    );
    case.asserts += 2;
    if reader == 2 && start < join {
        case.label("not-openable");
        ensure!(
            res.is_err() && !direct[start],
            "opened-before-joining",
            "P2 opened item {start} directly"
        );
        for k in 0..m {
            let still = block_on(w.nodes[reader].store.get_by_content_ref(&items[k].r)).is_some();
            ensure!(
                still == have.contains(&k),
                "store-after-refusal",
                "item {k} left the store"
            );
        }
        return Ok(());
    }
    if broken_cipher[start] {
        ensure!(
            res.is_err() && !direct[start],
            "opened-damaged",
            "item {start} opens although it was tampered with"
        );
        for k in 0..m {
            let still = block_on(w.nodes[reader].store.get_by_content_ref(&items[k].r)).is_some();
            ensure!(
                still == have.contains(&k),
                "store-after-refusal",
                "item {k} left the store"
            );
        }
        return Ok(());
    }
    ensure!(
        direct[start],
        "entry-not-openable",
        "P{reader} cannot open item {start}"
    );
    let (p, cannot) = match res {
        Ok(p) => (p, None),
        Err(DocCausalDecryptionError::CausalDecryptionError(e)) => {
            let refs: BTreeSet<usize> = e
                .cannot
                .keys()
                .filter_map(|r| by_ref.get(r))
                .copied()
                .collect();
            ensure!(
                refs.len() == e.cannot.len(),
                "unknown-in-cannot",
                "a reference nobody named is reported"
            );
            (e.progress, Some(refs))
        }
        Err(e) => {
            return fail_(
                "refused",
                &format!("causal decryption from an item that opens failed: {e:?}"),
            )
        }
    };
    if !items[start].sound {
        case.label("entry-no-envelope");
        ensure!(
            cannot == Some([start].into()),
            "entry-verdict",
            "item {start} holds no envelope, reported {cannot:?}"
        );
        ensure!(
            p.complete.is_empty() && p.next.is_empty(),
            "entry-progress",
            "item {start} holds no envelope, yet it led somewhere"
        );
        return Ok(());
    }
    // the entry itself is opened by ordinary decryption
    let mut e = closure(&items, &[(start, true)], &have, &BTreeSet::new());
    e.complete.remove(&start);
    case.asserts += 1;
    ensure!(
        cannot.clone().unwrap_or_default() == e.broken && cannot.is_some() == !e.broken.is_empty(),
        "cannot",
        "reported {cannot:?}, problems with {:?}",
        e.broken
    );
    if !e.broken.is_empty() {
        case.label(if e.next.is_empty() {
            "document-faults"
        } else {
            "document-faults-and-missing"
        });
    }
    check_progress(case, &items, &by_ref, &e, &p)?;
    for k in 0..m {
        let still = block_on(w.nodes[reader].store.get_by_content_ref(&items[k].r)).is_some();
        case.asserts += 1;
        ensure!(
            still == (have.contains(&k) && !e.complete.contains(&k)),
            "store-after",
            "item {k}: in the store {still}"
        );
    }
    let unlocked = e.complete.iter().any(|k| !direct[*k]);
    if unlocked {
        case.label("opened-history-before-joining");
    }
    case.nontrivial = unlocked;
    Ok(())
}
