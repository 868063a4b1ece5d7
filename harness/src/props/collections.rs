//! C22 ciphertext store, C23 content-addressed maps, dependency sorts, event queue.
use crate::engine::{block_on, Case, Check, Prop, Src};
use crate::world::{Ref, Store};
use beekem::{
    encrypted::EncryptedContent,
    id::{MemberId, TreeId},
    operation::CgkaOperation,
    pcs_key::PcsKey,
};
use dupe::Dupe;
use future_form::Sendable;
use futures::lock::Mutex as AMutex;
use keyhive_core::{
    event::Event,
    listener::{cgka::CgkaListener, deque::Deque, log::Log, no_listener::NoListener, prekey::PrekeyListener},
    principal::individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp},
    store::ciphertext::CiphertextStore,
    util::topsort::Topsort,
};
use keyhive_crypto::{
    digest::Digest,
    share_key::ShareSecretKey,
    signed::Signed,
    signer::{memory::MemorySigner, sync_signer::try_sign_basic},
    siv::Siv,
    symmetric_key::SymmetricKey,
    verifiable::Verifiable,
};
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            run: c22,
            quick: 20_000,
            thorough: 1_000_000,
            scripted: &[],
            rule: "some content reference held two ciphertexts at once, and something was removed",
            assumptions: &["content addresses of different ciphertexts differ"],
        },
        Prop {
            id: "C23",
            run: c23,
            quick: 60_000,
            thorough: 2_000_000,
            scripted: &[],
            rule: "map: two maps with common and different entries; sort: an item with two dependencies, or a cycle; queue: taken from both ends",
            assumptions: &["content addresses of different values differ"],
        },
    ]
}

// ---------------------------------------------------------------- C22

type Enc = EncryptedContent<Vec<u8>, Ref>;
type OpD = Digest<Signed<CgkaOperation>>;

fn digest_of<T: serde::Serialize>(n: u64) -> Digest<T> {
    Digest { raw: blake3::hash(&n.to_le_bytes()), _phantom: Default::default() }
}

fn c22(src: &mut Src, case: &mut Case) -> Check {
    let refs = 1 + src.below(5);
    let ops = 1 + src.below(4);
    let rf = |n: u64| -> Ref { *blake3::hash(&[n as u8]).as_bytes() };
    // the key operations, of two documents
    let signer = MemorySigner::from(ed25519_dalek::SigningKey::from_bytes(&[7; 32]));
    let docs: Vec<_> = (1..=2u8).map(|k| ed25519_dalek::SigningKey::from_bytes(&[k; 32]).verifying_key()).collect();
    let key_ops: Vec<(Arc<Signed<CgkaOperation>>, usize)> = (0..ops)
        .map(|o| {
            let d = src.idx(2);
            let op = CgkaOperation::Remove {
                id: MemberId(docs[0]),
                leaf_idx: o as u32,
                removed_keys: vec![],
                predecessors: vec![],
                doc_id: TreeId(docs[d]),
            };
            (Arc::new(signer.try_sign_sync(op).unwrap()), d)
        })
        .collect();
    let op_digest = |o: u64| -> OpD { Digest::hash(key_ops[o as usize].0.as_ref()) };
    let mut stores: Vec<(Store, BTreeMap<Vec<u8>, Arc<Enc>>)> = vec![(Store::new(), BTreeMap::new())];
    if src.chance(1, 4) {
        stores.push((Store::new(), BTreeMap::new()));
    }
    // an alias sees the same store
    let alias: Vec<Store> = stores.iter().map(|s| s.0.dupe()).collect();
    let wrapped: Vec<Arc<AMutex<Store>>> = alias.iter().map(|s| Arc::new(AMutex::new(s.clone()))).collect();
    let (mut twice, mut removed) = (false, false);
    let mut made: Vec<Arc<Enc>> = vec![];
    let steps = 2 + src.idx(30);
    for _ in 0..steps {
        let si = src.idx(stores.len());
        let handle = if src.chance(1, 4) { alias[si].clone() } else { stores[si].0.clone() };
        match src.weighted(&[8, 3, 4, 3, 2]) {
            0 => {
                let (r, o) = (src.below(refs), src.below(ops));
                let bytes = src.bytes(60);
                let key = SymmetricKey::from([src.below(3) as u8; 32]);
                let e = Enc::new(
                    Siv::new(&key, &bytes, &[src.below(2) as u8]),
                    bytes,
                    digest_of::<PcsKey>(src.below(3)),
                    op_digest(o),
                    rf(r),
                    Digest::hash(&vec![]),
                );
                case.note(format!("store {si}: insert {} bytes for ref {r} under op {o}", e.ciphertext.len()));
                let a = if src.chance(1, 2) {
                    block_on(handle.insert_raw(e.clone()))
                } else {
                    let a = Arc::new(e.clone());
                    block_on(handle.insert(a.clone()));
                    a
                };
                ensure!(*a == e, "insert-changed", "insert_raw returned something else");
                stores[si].1.insert(Digest::hash(a.as_ref()).as_slice().to_vec(), a.clone());
                made.push(a);
            }
            1 if !made.is_empty() => {
                let e = src.pick(&made).clone();
                case.note(format!("store {si}: insert an earlier ciphertext again"));
                block_on(handle.insert(e.clone()));
                stores[si].1.insert(Digest::hash(e.as_ref()).as_slice().to_vec(), e);
            }
            2 if !made.is_empty() => {
                let e = src.pick(&made).clone();
                let d = Digest::hash(e.as_ref());
                let want = stores[si].1.remove(d.as_slice());
                case.note(format!("store {si}: remove by address (present: {})", want.is_some()));
                let got = block_on(handle.remove(&d));
                removed |= want.is_some();
                ensure!(
                    got.as_deref() == want.as_deref(),
                    "remove",
                    "removing by address returned {:?}, expected {:?}",
                    got.is_some(),
                    want.is_some()
                );
            }
            3 => {
                let r = src.below(refs);
                let before = stores[si].1.len();
                stores[si].1.retain(|_, e| e.content_ref != rf(r));
                let want = before != stores[si].1.len();
                removed |= want;
                case.note(format!("store {si}: remove all of ref {r} (present: {want})"));
                let got = block_on(handle.remove_all(&rf(r)));
                ensure!(got == want, "remove-all", "remove_all returned {got}, expected {want}");
            }
            _ => {
                let r = src.below(refs);
                stores[si].1.retain(|_, e| e.content_ref != rf(r));
                case.note(format!("store {si}: mark ref {r} decrypted"));
                if src.chance(1, 2) {
                    block_on(CiphertextStore::<Sendable, Ref, Vec<u8>>::mark_decrypted(&handle, &rf(r))).unwrap();
                } else {
                    block_on(CiphertextStore::<Sendable, Ref, Vec<u8>>::mark_decrypted(&wrapped[si], &rf(r))).unwrap();
                }
            }
        }
        for (si, (s, m)) in stores.iter().enumerate() {
            for r in 0..refs {
                let have: Vec<&Arc<Enc>> = m.values().filter(|e| e.content_ref == rf(r)).collect();
                twice |= have.len() > 1;
                let most = have.iter().map(|e| e.ciphertext.len()).max();
                let got = [
                    block_on(s.get_by_content_ref(&rf(r))),
                    block_on(CiphertextStore::<Sendable, Ref, Vec<u8>>::get_ciphertext(&alias[si], &rf(r))).unwrap(),
                    block_on(CiphertextStore::<Sendable, Ref, Vec<u8>>::get_ciphertext(&wrapped[si], &rf(r))).unwrap(),
                ];
                for g in got {
                    case.asserts += 1;
                    match g {
                        None => ensure!(have.is_empty(), "lookup-by-ref", "store {si} has nothing for ref {r}, expected one of {}", have.len()),
                        Some(g) => {
                            ensure!(have.iter().any(|e| ***e == *g), "lookup-by-ref", "store {si} answers ref {r} with something not inserted for it");
                            ensure!(Some(g.ciphertext.len()) == most, "lookup-by-ref", "store {si} answers ref {r} with {} bytes, the largest has {most:?}", g.ciphertext.len());
                        }
                    }
                }
            }
            for o in 0..ops {
                let od: OpD = op_digest(o);
                let want: BTreeSet<&Vec<u8>> = m.iter().filter(|e| e.1.pcs_update_op_hash == od).map(|e| e.0).collect();
                let got = [
                    block_on(s.get_by_pcs_update(&od)),
                    block_on(CiphertextStore::<Sendable, Ref, Vec<u8>>::get_ciphertext_by_pcs_update(&alias[si], &od)).unwrap(),
                    block_on(CiphertextStore::<Sendable, Ref, Vec<u8>>::get_ciphertext_by_pcs_update(&wrapped[si], &od)).unwrap(),
                ];
                for g in got {
                    case.asserts += 1;
                    let ds: Vec<Vec<u8>> = g.iter().map(|e| Digest::hash(e.as_ref()).as_slice().to_vec()).collect();
                    let set: BTreeSet<&Vec<u8>> = ds.iter().collect();
                    ensure!(set.len() == ds.len(), "lookup-by-update", "store {si} lists a ciphertext twice under op {o}");
                    ensure!(
                        set == want,
                        "lookup-by-update",
                        "store {si} lists {} ciphertexts under op {o}, expected {}",
                        set.len(),
                        want.len()
                    );
                }
            }
        }
    }
    // what a batch of events makes readable
    for (si, (s, m)) in stores.iter().enumerate() {
        let mut batch: Vec<u64> = (0..ops).filter(|_| src.chance(2, 3)).collect();
        src.shuffle(&mut batch);
        let mut events: Vec<Event<Sendable, MemorySigner, Ref, NoListener>> = vec![];
        for o in &batch {
            events.push(Event::CgkaOperation(key_ops[*o as usize].0.clone()));
            if src.chance(1, 4) {
                let sk = ShareSecretKey::force_from_bytes([9; 32]);
                events.push(Event::PrekeysExpanded(Arc::new(
                    signer.try_sign_sync(AddKeyOp { share_key: sk.share_key() }).unwrap(),
                )));
            }
        }
        let got = block_on(Event::now_decryptable(&events, s)).unwrap();
        let mut want: BTreeMap<[u8; 32], BTreeSet<Vec<u8>>> = BTreeMap::new();
        for o in &batch {
            let (_, d) = key_ops[*o as usize];
            let e = want.entry(docs[d].to_bytes()).or_default();
            e.extend(m.iter().filter(|e| e.1.pcs_update_op_hash == op_digest(*o)).map(|e| e.0.clone()));
        }
        let total: usize = got.values().map(|v| v.len()).sum();
        let mut have: BTreeMap<[u8; 32], BTreeSet<Vec<u8>>> = BTreeMap::new();
        for (d, es) in &got {
            have.insert(d.to_bytes(), es.iter().map(|e| Digest::hash(e.as_ref()).as_slice().to_vec()).collect());
        }
        have.retain(|_, v| !v.is_empty());
        want.retain(|_, v| !v.is_empty());
        case.asserts += 2;
        ensure!(have == want, "now-decryptable", "store {si}: the events of operations {batch:?} are said to open other ciphertexts than those stored under them");
        ensure!(total == have.values().map(|v| v.len()).sum::<usize>(), "now-decryptable-twice", "store {si} lists a ciphertext twice");
    }
    case.nontrivial = twice && removed;
    if twice {
        case.label("store:two ciphertexts for one reference");
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn c23(src: &mut Src, case: &mut Case) -> Check {
    match src.weighted(&[4, 3, 3, 1]) {
        0 => {
            if src.chance(1, 2) {
                core_map(src, case)
            } else {
                bee_map(src, case)
            }
        }
        1 => sorts(src, case),
        2 => queue(src, case),
        _ => digests(src, case),
    }
}

fn std_hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Same test for both implementations of the map.
macro_rules! map_test {
    ($name:ident, $map:ident, $fork:path, $merge:path, $label:literal) => {
        fn $name(src: &mut Src, case: &mut Case) -> Check {
            type M = $map<String>;
            use $fork as ForkT;
            use $merge as MergeT;
            case.label($label);
            let val = |n: u64| format!("v{n}");
            let addr = |n: u64| Digest::<String>::hash(&format!("v{n}"));
            let mut ms: Vec<(M, BTreeSet<u64>)> = vec![(M::new(), BTreeSet::new()), (M::default(), BTreeSet::new())];
            let dom = 1 + src.below(6);
            let steps = 1 + src.idx(25);
            for _ in 0..steps {
                let i = src.idx(2);
                let n = src.below(dom);
                let had = ms[i].1.contains(&n);
                let (m, s) = &mut ms[i];
                match src.weighted(&[5, 3, 2, 2, 1, 1, 1, 1]) {
                    0 => {
                        case.note(format!("m{i}.insert({n})"));
                        let d = m.insert(Arc::new(val(n)));
                        s.insert(n);
                        ensure!(d == addr(n), "map-address", "insert returned another address");
                    }
                    1 => {
                        case.note(format!("m{i}.insert_checked({n})"));
                        let (d, new) = m.insert_checked(Arc::new(val(n)));
                        s.insert(n);
                        ensure!(d == addr(n) && new != had, "map-insert-checked", "insert_checked says new={new}, present before: {had}");
                    }
                    2 => {
                        case.note(format!("m{i}.remove_by_hash({n})"));
                        let r = m.remove_by_hash(&addr(n));
                        s.remove(&n);
                        ensure!(r.is_some() == had && r.iter().all(|x| **x == val(n)), "map-remove", "remove_by_hash returned {r:?}, present: {had}");
                    }
                    3 => {
                        case.note(format!("m{i}.remove_by_value({n})"));
                        let r = m.remove_by_value(&val(n));
                        s.remove(&n);
                        ensure!(r.is_some() == had && r.iter().all(|x| **x == val(n)), "map-remove", "remove_by_value returned {r:?}, present: {had}");
                    }
                    4 => {
                        case.note(format!("m{i}: fork, change the fork, merge"));
                        let mut f = ForkT::fork(m);
                        let mut fs = s.clone();
                        for _ in 0..src.idx(3) {
                            let k = src.below(dom);
                            f.insert(Arc::new(val(k)));
                            fs.insert(k);
                        }
                        ensure!(m.len() == s.len(), "map-fork", "changing a fork changed the original");
                        MergeT::merge(m, f);
                        s.extend(fs);
                    }
                    5 => {
                        case.note(format!("m{i}.extend(other)"));
                        let o: Vec<_> = ms[1 - i].0.iter().map(|(k, v)| (*k, v.clone())).collect();
                        let os = ms[1 - i].1.clone();
                        ms[i].0.extend(o);
                        ms[i].1.extend(os);
                    }
                    6 => {
                        case.note(format!("m{i}: rebuilt from its values"));
                        let mut vs: Vec<u64> = s.iter().copied().collect();
                        src.shuffle(&mut vs);
                        *m = if src.chance(1, 2) {
                            M::from_iter(vs.iter().map(|n| val(*n)))
                        } else {
                            M::from_iter_direct(vs.iter().map(|n| Arc::new(val(*n))))
                        };
                    }
                    _ => {
                        case.note(format!("m{i}: encoded and decoded"));
                        let b = bincode::serialize(&*m).expect("encode");
                        *m = bincode::deserialize(&b).expect("decode");
                        ensure!(bincode::serialize(&*m).unwrap() == b, "map-encoding", "encoding changed over a round trip");
                    }
                }
                for (i, (m, s)) in ms.iter().enumerate() {
                    case.asserts += 8;
                    ensure!(m.len() == s.len() && m.is_empty() == s.is_empty(), "map-len", "m{i} has {} entries, expected {}", m.len(), s.len());
                    for n in 0..dom {
                        let here = s.contains(&n);
                        ensure!(m.get(&addr(n)).map(|v| (**v).clone()) == here.then(|| val(n)), "map-get", "m{i} get({n}): {:?}", m.get(&addr(n)));
                        ensure!(m.contains_key(&addr(n)) == here && m.contains_value(&val(n)) == here, "map-contains", "m{i} contains {n}: expected {here}");
                    }
                    let want: BTreeMap<_, _> = s.iter().map(|n| (addr(*n), val(*n))).collect();
                    let it: Vec<_> = m.iter().map(|(k, v)| (*k, (**v).clone())).collect();
                    ensure!(it.len() == s.len() && it.iter().cloned().collect::<BTreeMap<_, _>>() == want, "map-iter", "m{i} iterates over {it:?}");
                    let ks: BTreeSet<_> = m.keys().copied().collect();
                    let vs: BTreeSet<_> = m.values().map(|v| (**v).clone()).collect();
                    ensure!(ks == want.keys().copied().collect() && vs == want.values().cloned().collect(), "map-iter", "m{i} keys or values differ");
                    ensure!(
                        m.clone().into_keys().collect::<BTreeSet<_>>() == ks && m.clone().into_values().map(|v| (*v).clone()).collect::<BTreeSet<_>>() == vs,
                        "map-iter",
                        "m{i} into_keys or into_values differ"
                    );
                }
                let same = ms[0].1 == ms[1].1;
                let (a, b) = (&ms[0].0, &ms[1].0);
                ensure!((a == b) == same, "map-equality", "maps with {} entries compare as {}", if same { "the same" } else { "different" }, if a == b { "equal" } else { "different" });
                ensure!((a.cmp(b) == std::cmp::Ordering::Equal) == same && a.cmp(b) == b.cmp(a).reverse() && a.partial_cmp(b) == Some(a.cmp(b)), "map-order", "order of maps: {:?} and {:?}, same entries: {same}", a.cmp(b), b.cmp(a));
                if same {
                    ensure!(std_hash(a) == std_hash(b), "map-hash", "equal maps hash differently");
                    ensure!(bincode::serialize(a).unwrap() == bincode::serialize(b).unwrap(), "map-encoding", "equal maps are encoded differently");
                }
                if !ms[0].1.is_disjoint(&ms[1].1) && !same {
                    case.nontrivial = true;
                }
            }
            Ok(())
        }
    };
}
use beekem::content_addressed_map::CaMap as BeeMap;
use keyhive_core::util::content_addressed_map::CaMap as CoreMap;
map_test!(core_map, CoreMap, keyhive_core::transact::fork::Fork, keyhive_core::transact::merge::Merge, "map:keyhive_core");
map_test!(bee_map, BeeMap, beekem::transact::Fork, beekem::transact::Merge, "map:beekem");

fn sorts(src: &mut Src, case: &mut Case) -> Check {
    let n = 1 + src.idx(12);
    let cyclic = src.chance(1, 4);
    let mut edges: Vec<(usize, usize)> = vec![];
    for _ in 0..src.idx(24) {
        let (a, b) = (src.idx(n), src.idx(n));
        if a < b || cyclic {
            edges.push((a, b));
        }
    }
    let isolated: BTreeSet<usize> = (0..n).filter(|_| src.chance(1, 4)).collect();
    let label: Vec<usize> = {
        // names do not follow dependency order
        src.perm(n)
    };
    let e: Vec<(usize, usize)> = edges.iter().map(|(a, b)| (label[*a], label[*b])).collect();
    let nodes_bee: BTreeSet<usize> = e.iter().flat_map(|(a, b)| [*a, *b]).collect();
    let mut nodes = nodes_bee.clone();
    nodes.extend(isolated.iter().map(|x| label[*x]));
    case.note(format!("edges {e:?}, nodes {nodes:?}"));
    let preds = |x: usize| -> BTreeSet<usize> { e.iter().filter(|d| d.1 == x).map(|d| d.0).collect() };
    case.nontrivial = nodes.iter().any(|x| preds(*x).len() > 1) || cyclic;
    case.label(if cyclic { "sort:maybe cyclic" } else { "sort:acyclic" });
    // by definition: the next batch is everything whose dependencies are all out
    let batches = |nodes: &BTreeSet<usize>| -> Vec<Vec<usize>> {
        let mut out: Vec<Vec<usize>> = vec![];
        let mut gone: BTreeSet<usize> = BTreeSet::new();
        loop {
            let b: Vec<usize> = nodes.iter().copied().filter(|x| !gone.contains(x) && preds(*x).iter().all(|p| gone.contains(p))).collect();
            if b.is_empty() {
                return out;
            }
            gone.extend(b.iter().copied());
            out.push(b);
        }
    };
    for round in 0..2 {
        let mut order = e.clone();
        src.shuffle(&mut order);
        if !order.is_empty() && src.chance(1, 3) {
            let x = order[src.idx(order.len())];
            order.push(x);
        }
        let mut a = Topsort::new();
        let mut b = beekem::topsort::TopologicalSort::new();
        let early = src.chance(1, 2);
        if early {
            isolated.iter().for_each(|x| a.add_node(label[*x]));
        }
        for (x, y) in &order {
            a.add_dependency(*x, *y);
            b.add_dependency(*x, *y);
        }
        if !early {
            isolated.iter().for_each(|x| a.add_node(label[*x]));
        }
        ensure!(a.is_empty() == nodes.is_empty() && b.is_empty() == nodes_bee.is_empty(), "sort-empty", "round {round}: is_empty is wrong at the start");
        let mut ga = vec![];
        loop {
            let f = a.pop_frontier();
            if f.is_empty() {
                break;
            }
            ga.push(f);
        }
        let mut gb = vec![];
        loop {
            let f = b.pop_all();
            if f.is_empty() {
                break;
            }
            gb.push(f);
        }
        let (wa, wb) = (batches(&nodes), batches(&nodes_bee));
        ensure!(ga == wa, "sort-batches", "round {round}: keyhive_core's sort gives {ga:?}, expected {wa:?}");
        ensure!(gb == wb, "sort-batches", "round {round}: beekem's sort gives {gb:?}, expected {wb:?}");
        let done_a = wa.iter().map(|x| x.len()).sum::<usize>() == nodes.len();
        let done_b = wb.iter().map(|x| x.len()).sum::<usize>() == nodes_bee.len();
        ensure!(a.is_empty() == done_a && b.is_empty() == done_b, "sort-cycle", "round {round}: is_empty after draining: {} {}, expected {done_a} {done_b}", a.is_empty(), b.is_empty());
        case.asserts += 4;
    }
    Ok(())
}

type Dq = Deque<Sendable, MemorySigner, Ref>;
type DqEvent = Event<Sendable, MemorySigner, Ref, Dq>;
type Lg = Log<Sendable, MemorySigner, Ref>;

fn queue(src: &mut Src, case: &mut Case) -> Check {
    case.label("queue");
    let signer = MemorySigner::generate(&mut ChaCha20Rng::seed_from_u64(src.below(3)));
    let vk = signer.verifying_key();
    let pk = |n: u64| ShareSecretKey::force_from_bytes([n as u8 + 1; 32]).share_key();
    let q = Dq::new();
    let q2 = q.dupe();
    let log = Lg::default();
    let mut model: VecDeque<u64> = VecDeque::new();
    let mut lm: Vec<u64> = vec![];
    let (mut front, mut back) = (false, false);
    let num = |e: &DqEvent| -> u64 {
        match e {
            Event::PrekeysExpanded(a) => (0..250).find(|n| pk(*n) == a.payload.share_key).unwrap(),
            Event::PrekeyRotated(a) => (0..250).find(|n| pk(*n) == a.payload.new).unwrap(),
            Event::CgkaOperation(o) => match &o.payload {
                CgkaOperation::Remove { leaf_idx, .. } => *leaf_idx as u64,
                _ => 255,
            },
            _ => 255,
        }
    };
    for n in 0..(1 + src.below(30)) {
        let h = if src.chance(1, 3) { &q2 } else { &q };
        match src.weighted(&[6, 3, 3, 1]) {
            0 => {
                match src.idx(3) {
                    0 => {
                        let op = Arc::new(try_sign_basic(&signer, vk, AddKeyOp { share_key: pk(n) }).unwrap());
                        if src.chance(1, 2) {
                            block_on(PrekeyListener::<Sendable>::on_prekeys_expanded(h, &op));
                        } else {
                            block_on(h.push(Event::PrekeysExpanded(op.clone())));
                        }
                        block_on(PrekeyListener::<Sendable>::on_prekeys_expanded(&log, &op));
                    }
                    1 => {
                        let op = Arc::new(try_sign_basic(&signer, vk, RotateKeyOp { old: pk(200), new: pk(n) }).unwrap());
                        block_on(PrekeyListener::<Sendable>::on_prekey_rotated(h, &op));
                        block_on(PrekeyListener::<Sendable>::on_prekey_rotated(&log, &op));
                    }
                    _ => {
                        let op = CgkaOperation::Remove {
                            id: beekem::id::MemberId::public(),
                            leaf_idx: n as u32,
                            removed_keys: vec![],
                            predecessors: vec![],
                            doc_id: vk.into(),
                        };
                        let op = Arc::new(try_sign_basic(&signer, vk, op).unwrap());
                        block_on(CgkaListener::<Sendable>::on_cgka_op(h, &op));
                        block_on(CgkaListener::<Sendable>::on_cgka_op(&log, &op));
                    }
                }
                case.note(format!("event {n}"));
                model.push_back(n);
                lm.push(n);
            }
            1 => {
                let want = model.pop_front();
                let got = block_on(h.pop_earliest()).map(|e| num(&e));
                front |= want.is_some();
                case.note(format!("earliest -> {got:?}"));
                ensure!(got == want, "queue-earliest", "pop_earliest gave {got:?}, the earliest is {want:?}");
            }
            2 => {
                let want = model.pop_back();
                let got = block_on(h.pop_latest()).map(|e| num(&e));
                back |= want.is_some();
                case.note(format!("latest -> {got:?}"));
                ensure!(got == want, "queue-latest", "pop_latest gave {got:?}, the latest is {want:?}");
                let lw = lm.pop();
                ensure!(block_on(log.pop()).is_some() == lw.is_some(), "log-pop", "log pop");
            }
            _ => {
                case.note("clear");
                block_on(h.clear());
                model.clear();
                block_on(log.clear());
                lm.clear();
            }
        }
        ensure!(block_on(q.is_empty()) == model.is_empty(), "queue-empty", "is_empty is wrong");
        ensure!(block_on(log.is_empty()) == lm.is_empty() && block_on(log.len()) == lm.len(), "log-len", "log length is wrong");
        case.asserts += 2;
    }
    case.nontrivial = front && back;
    Ok(())
}

/// Content addresses: equal exactly for equal values, ordered and printed as their bytes.
fn digests(src: &mut Src, case: &mut Case) -> Check {
    case.label("digest");
    let vs: Vec<Vec<u8>> = (0..6).map(|_| src.bytes(40)).collect();
    let ds: Vec<Digest<Vec<u8>>> = vs.iter().map(Digest::hash).collect();
    for (v, d) in vs.iter().zip(&ds) {
        let enc = bincode::serialize(v).unwrap();
        ensure!(d.as_slice() == blake3::hash(&enc).as_bytes(), "digest-value", "digest is not the hash of the encoding");
        let b = bincode::serialize(d).unwrap();
        let back: Digest<Vec<u8>> = bincode::deserialize(&b).unwrap();
        ensure!(back == *d && std_hash(&back) == std_hash(d), "digest-round-trip", "digest changed over a round trip");
        let zero_bytes = d.as_slice().iter().rev().take_while(|x| **x == 0).count();
        ensure!(d.trailing_zero_bytes() as usize == zero_bytes, "digest-zeros", "trailing zero bytes of {d:?}: {}", d.trailing_zero_bytes());
        for (w, e) in vs.iter().zip(&ds) {
            ensure!((v == w) == (d == e), "digest-equality", "digests of {v:?} and {w:?} compare as {}", d == e);
            ensure!(d.cmp(e) == d.as_slice().cmp(e.as_slice()) && d.partial_cmp(e) == Some(d.cmp(e)), "digest-order", "digest order");
            case.asserts += 2;
            if v != w {
                case.nontrivial = true;
            }
        }
    }
    Ok(())
}
