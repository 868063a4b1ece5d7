//! Group key agreement (C04 agreement/convergence, C05 secrecy, C06 availability), driven
//! directly against `beekem::cgka::Cgka`: every participant is a real `Cgka`, operations are
//! made concurrently by members, and delivered in any causal order.
use crate::engine::*;
use beekem::{
    cgka::Cgka,
    encrypted::EncryptedContent,
    error::CgkaError,
    id::{MemberId, TreeId},
    keys::ShareKeyMap,
    operation::CgkaOperation,
    pcs_key::PcsKey,
    secret_store::SecretStoreVersion,
};
use future_form::Sendable;
use keyhive_crypto::{
    digest::Digest,
    share_key::{ShareKey, ShareSecretKey},
    signed::Signed,
    signer::memory::MemorySigner,
    verifiable::Verifiable,
};
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type OpD = Digest<Signed<CgkaOperation>>;

pub struct Peer {
    pub id: MemberId,
    pub signer: MemorySigner,
    pub prekeys: Vec<ShareSecretKey>,
    pub cgka: Cgka,
    pub has: BTreeSet<usize>,
}

pub struct Op {
    pub op: Arc<Signed<CgkaOperation>>,
    pub d: OpD,
    pub by: usize,
    pub preds: BTreeSet<usize>,
    /// for updates: the root secret the updater derived
    pub pcs: Option<PcsKey>,
    /// members of the updater's tree when it made the update
    pub members: BTreeSet<usize>,
    /// causal past (indices)
    pub past: BTreeSet<usize>,
}

/// Something encrypted under the group key.
pub struct Sealed {
    pub by: usize,
    /// operation whose group key it names
    pub op: usize,
    pub plain: Vec<u8>,
    pub preds: Vec<[u8; 32]>,
    pub enc: EncryptedContent<Vec<u8>, [u8; 32]>,
    pub key: Vec<u8>,
}

pub struct Sim {
    pub doc: TreeId,
    pub peers: Vec<Peer>,
    pub ops: Vec<Op>,
    pub sealed: Vec<Sealed>,
    pub rng: ChaCha20Rng,
    pub init: Signed<CgkaOperation>,
}

pub fn probe(c: &Cgka, id: MemberId, signer: &MemorySigner) -> Option<bool> {
    let mut c = c.clone();
    let pk = ShareSecretKey::force_from_bytes([7; 32]).share_key();
    match block_on(c.add::<Sendable, _>(id, pk, signer)) {
        Ok(None) => Some(true),
        Ok(Some(_)) => Some(false),
        Err(_) => None,
    }
}

impl Sim {
    pub fn new(seed: u64, n: usize) -> Sim {
        let mut rng = ChaCha20Rng::seed_from_u64(seed ^ 0xBEE);
        let doc_signer = MemorySigner::generate(&mut rng);
        let doc = TreeId::from(doc_signer.verifying_key());
        let mut who = vec![];
        for _ in 0..n {
            let s = MemorySigner::generate(&mut rng);
            let pre: Vec<_> = (0..2).map(|_| ShareSecretKey::generate(&mut rng)).collect();
            who.push((s, pre));
        }
        let pk0 = who[0].1[0].share_key();
        let id0 = MemberId::from(who[0].0.verifying_key());
        let first = block_on(Cgka::new::<Sendable, _>(doc, id0, pk0, &who[0].0)).unwrap();
        let init = first.init_add_op();
        let mut peers = vec![];
        for (s, pre) in who {
            let id = MemberId::from(s.verifying_key());
            let mut sks = ShareKeyMap::new();
            for k in &pre {
                sks.insert(k.share_key(), *k);
            }
            let cgka = Cgka::new_from_init_add(doc, id0, pk0, init.clone())
                .unwrap()
                .with_new_owner(id, sks)
                .unwrap();
            peers.push(Peer { id, signer: s, prekeys: pre, cgka, has: BTreeSet::from([0]) });
        }
        let op0 = Op {
            op: Arc::new(init.clone()),
            d: Digest::hash(&init),
            by: 0,
            preds: BTreeSet::new(),
            pcs: None,
            members: BTreeSet::from([0]),
            past: BTreeSet::new(),
        };
        Sim { doc, peers, ops: vec![op0], sealed: vec![], rng, init }
    }

    /// Somebody who only watches: no keys.
    pub fn observer(&mut self) -> Peer {
        let s = MemorySigner::generate(&mut self.rng);
        let id = MemberId::from(s.verifying_key());
        let (id0, pk0) = (self.peers[0].id, self.peers[0].prekeys[0].share_key());
        let cgka = Cgka::new_from_init_add(self.doc, id0, pk0, self.init.clone())
            .unwrap()
            .with_new_owner(id, ShareKeyMap::new())
            .unwrap();
        Peer { id, signer: s, prekeys: vec![], cgka, has: BTreeSet::from([0]) }
    }

    pub fn members(&self, i: usize) -> BTreeSet<usize> {
        (0..self.peers.len())
            .filter(|j| probe(&self.peers[i].cgka, self.peers[*j].id, &self.peers[i].signer) == Some(true))
            .collect()
    }

    fn record(&mut self, by: usize, op: Signed<CgkaOperation>, pcs: Option<PcsKey>) -> usize {
        let preds: BTreeSet<usize> = op
            .payload()
            .predecessors()
            .iter()
            .map(|d| self.ops.iter().position(|o| o.d == *d).expect("known predecessor"))
            .collect();
        let mut past = preds.clone();
        for p in &preds {
            past.extend(self.ops[*p].past.iter().copied());
        }
        let members = self.members(by);
        let d = Digest::hash(&op);
        // The same operation can be made on two sides of a fork.
        if let Some(ix) = self.ops.iter().position(|o| o.d == d) {
            self.peers[by].has.insert(ix);
            return ix;
        }
        self.ops.push(Op { op: Arc::new(op), d, by, preds, pcs, members, past });
        let ix = self.ops.len() - 1;
        self.peers[by].has.insert(ix);
        ix
    }

    pub fn add(&mut self, by: usize, who: usize, key: usize) -> Result<Option<usize>, CgkaError> {
        let (id, pk) = (self.peers[who].id, self.peers[who].prekeys[key].share_key());
        let p = &mut self.peers[by];
        let signer = p.signer.clone();
        match block_on(p.cgka.add::<Sendable, _>(id, pk, &signer))? {
            Some(op) => Ok(Some(self.record(by, op, None))),
            None => Ok(None),
        }
    }

    pub fn remove(&mut self, by: usize, who: usize) -> Result<Option<usize>, CgkaError> {
        let id = self.peers[who].id;
        let p = &mut self.peers[by];
        let signer = p.signer.clone();
        match block_on(p.cgka.remove::<Sendable, _>(id, &signer))? {
            Some(op) => Ok(Some(self.record(by, op, None))),
            None => Ok(None),
        }
    }

    pub fn update(&mut self, by: usize) -> Result<usize, CgkaError> {
        let sk = ShareSecretKey::generate(&mut self.rng);
        let p = &mut self.peers[by];
        let signer = p.signer.clone();
        let (pcs, op) =
            block_on(p.cgka.update::<Sendable, _, _>(sk.share_key(), sk, &signer, &mut self.rng))?;
        Ok(self.record(by, op, Some(pcs)))
    }

    /// Encrypt something, references and contents taken from small sets so that they repeat.
    pub fn encrypt(&mut self, src: &mut Src, by: usize) -> Result<usize, Failure> {
        let r = [src.below(3) as u8; 32];
        let preds: Vec<[u8; 32]> = (0..src.idx(3)).map(|_| [src.below(3) as u8; 32]).collect();
        let plain: Vec<u8> = vec![src.below(3) as u8; src.idx(3) * 20];
        let p = &mut self.peers[by];
        let signer = p.signer.clone();
        let (secret, op) = block_on(p.cgka.new_app_secret_for::<Sendable, _, _, _>(&r, &plain, &preds, &signer, &mut self.rng))
            .map_err(|e| Failure { sig: "op-error".into(), msg: format!("M{by} encrypts: {e}") })?;
        let enc: EncryptedContent<Vec<u8>, [u8; 32]> =
            secret.try_encrypt(&plain).map_err(|e| Failure { sig: "op-error".into(), msg: format!("M{by} seals: {e}") })?;
        if let Some(op) = op {
            let d = Digest::hash(&op);
            let pcs = self.peers[by].cgka.secret(&enc.pcs_key_hash, &d)
                .map_err(|e| Failure { sig: "op-error".into(), msg: format!("M{by} has no key it just made: {e}") })?;
            self.record(by, op, Some(pcs));
        }
        let Some(ix) = self.ops.iter().position(|o| o.d == enc.pcs_update_op_hash) else {
            return Err(Failure { sig: "names-unknown-state".into(), msg: format!("M{by} encrypts naming a group-key operation nobody made") });
        };
        let named = self.ops[ix].pcs.map(|k| Digest::hash(&k));
        if named != Some(enc.pcs_key_hash) {
            return Err(Failure { sig: "names-wrong-state".into(), msg: format!("M{by} encrypts under a key that is not the one {} made", self.describe(ix)) });
        }
        self.sealed.push(Sealed { by, op: ix, plain, preds, key: secret.key().as_slice().to_vec(), enc });
        Ok(self.sealed.len() - 1)
    }

    pub fn give(&self, c: &mut Cgka, ix: usize) -> Result<bool, CgkaError> {
        c.merge_concurrent_operation(self.ops[ix].op.clone())
    }

    /// Deliver a causally closed random part of what `i` lacks.
    pub fn deliver(&mut self, src: &mut Src, i: usize, all: bool) -> Result<usize, CgkaError> {
        let want: Vec<usize> = if all {
            (0..self.ops.len()).filter(|x| !self.peers[i].has.contains(x)).collect()
        } else {
            let miss: Vec<usize> =
                (0..self.ops.len()).filter(|x| !self.peers[i].has.contains(x)).collect();
            if miss.is_empty() {
                return Ok(0);
            }
            let target = *src.pick(&miss);
            let mut s: BTreeSet<usize> = self.ops[target].past.clone();
            s.insert(target);
            s.into_iter().filter(|x| !self.peers[i].has.contains(x)).collect()
        };
        let order = self.causal_order(src, &self.peers[i].has.clone(), want);
        for ix in &order {
            let op = self.ops[*ix].op.clone();
            self.peers[i].cgka.merge_concurrent_operation(op)?;
            self.peers[i].has.insert(*ix);
        }
        Ok(order.len())
    }

    pub fn causal_order(&self, src: &mut Src, has: &BTreeSet<usize>, mut want: Vec<usize>) -> Vec<usize> {
        let mut has = has.clone();
        let mut out = vec![];
        while !want.is_empty() {
            let ready: Vec<usize> = (0..want.len())
                .filter(|k| self.ops[want[*k]].preds.iter().all(|p| has.contains(p)))
                .collect();
            let k = *src.pick(&ready);
            let x = want.remove(k);
            has.insert(x);
            out.push(x);
        }
        out
    }

    pub fn describe(&self, ix: usize) -> String {
        let o = &self.ops[ix];
        let nm = |id: &MemberId| {
            self.peers.iter().position(|p| p.id == *id).map(|i| format!("M{i}")).unwrap_or("?".into())
        };
        match o.op.payload() {
            CgkaOperation::Add { added_id, leaf_index, .. } => {
                format!("#{ix} M{} adds {} (leaf {leaf_index}) after {:?}", o.by, nm(added_id), o.preds)
            }
            CgkaOperation::Remove { id, leaf_idx, .. } => {
                format!("#{ix} M{} removes {} (leaf {leaf_idx}) after {:?}", o.by, nm(id), o.preds)
            }
            CgkaOperation::Update { id, .. } => format!("#{ix} {} updates after {:?}", nm(id), o.preds),
        }
    }

    /// (op index, added?) of every membership op about peer `m`
    pub fn about(&self, m: usize) -> Vec<(usize, bool)> {
        let id = self.peers[m].id;
        self.ops
            .iter()
            .enumerate()
            .filter_map(|(ix, o)| match o.op.payload() {
                CgkaOperation::Add { added_id, .. } if *added_id == id => Some((ix, true)),
                CgkaOperation::Remove { id: r, .. } if *r == id => Some((ix, false)),
                _ => None,
            })
            .collect()
    }

    /// Membership by causality alone, given the ops in `within`: Some(true) if an add of `m` has no
    /// remove of it after or beside it, Some(false) if every add is before some remove, None if it depends on how the
    /// protocol resolves a concurrent add and remove.
    pub fn certain(&self, m: usize, within: &BTreeSet<usize>) -> Option<bool> {
        let ev: Vec<_> = self.about(m).into_iter().filter(|(ix, _)| within.contains(ix)).collect();
        let mut all_removed = true;
        for (a, added) in &ev {
            if !*added {
                continue;
            }
            let mut after = false;
            let mut beside = false;
            for (r, radd) in &ev {
                if *radd {
                    continue;
                }
                if self.ops[*r].past.contains(a) {
                    after = true;
                } else if !self.ops[*a].past.contains(r) {
                    beside = true;
                }
            }
            if !after && !beside {
                return Some(true);
            }
            if !after {
                all_removed = false;
            }
        }
        if all_removed {
            Some(false)
        } else {
            None
        }
    }
}

pub struct Mix {
    pub add: u64,
    pub remove: u64,
    pub update: u64,
    pub deliver: u64,
    pub fork: u64,
    pub seal: u64,
}

/// One random action; returns a line for the log.
pub fn act(src: &mut Src, case: &mut Case, s: &mut Sim, mix: &Mix) -> Check {
    let n = s.peers.len();
    let k = src.weighted(&[mix.deliver, mix.add, mix.remove, mix.update, mix.fork, mix.seal]);
    let i = src.idx(n);
    act_as(src, case, s, mix, k, i)
}

fn act_as(src: &mut Src, case: &mut Case, s: &mut Sim, mix: &Mix, k: usize, i: usize) -> Check {
    use beekem::transact::{Fork, Merge};
    let n = s.peers.len();
    if k == 4 {
        // Work on a fork and on the original, then merge the fork back.
        let (base, base_has) = (s.peers[i].cgka.fork(), s.peers[i].has.clone());
        for _ in 0..src.idx(3) {
            let k = src.weighted(&[mix.deliver, mix.add, mix.remove, mix.update]);
            act_as(src, case, s, mix, k, i)?;
        }
        case.note(format!("M{i} forked before that, and does on the fork:"));
        let main = std::mem::replace(&mut s.peers[i].cgka, base);
        let main_has = std::mem::replace(&mut s.peers[i].has, base_has);
        for _ in 0..1 + src.idx(3) {
            let k = src.weighted(&[mix.deliver, mix.add, mix.remove, mix.update]);
            act_as(src, case, s, mix, k, i)?;
        }
        let fork = std::mem::replace(&mut s.peers[i].cgka, main);
        case.note(format!("M{i} merges the fork back"));
        case.label("fork");
        s.peers[i].cgka.merge(fork);
        s.peers[i].has.extend(main_has);
        return Ok(());
    }
    if k == 0 {
        case.doing(format!("M{i} receives"));
        let d = match s.deliver(src, i, false) {
            Ok(d) => d,
            Err(e) => return fail("merge-error", format!("M{i} cannot merge an operation delivered in causal order: {e}")),
        };
        case.done(format!("M{i} receives {d} ops"));
        return Ok(());
    }
    // Only members (by their own view) act.
    if probe(&s.peers[i].cgka, s.peers[i].id, &s.peers[i].signer) != Some(true) {
        return Ok(());
    }
    if k == 5 {
        case.doing(format!("M{i} encrypts"));
        let c = s.encrypt(src, i)?;
        case.done(format!("M{i} encrypts c{c} under the key of {}", s.describe(s.sealed[c].op)));
        case.label("encrypt");
        return Ok(());
    }
    let j = src.idx(n);
    let r = match k {
        1 => {
            let key = src.idx(2);
            case.doing(format!("M{i} adds M{j}"));
            s.add(i, j, key)
        }
        2 => {
            if i == j {
                return Ok(());
            }
            case.doing(format!("M{i} removes M{j}"));
            s.remove(i, j)
        }
        _ => {
            case.doing(format!("M{i} updates"));
            s.update(i).map(Some)
        }
    };
    match r {
        Ok(Some(ix)) => case.done(s.describe(ix)),
        Ok(None) => {
            case.log.pop();
        }
        Err(CgkaError::RemoveLastMember) => {
            case.log.pop();
        }
        Err(e) => return fail("op-error", format!("{}: {e}", case.log.last().unwrap())),
    }
    Ok(())
}

fn has_concurrency(s: &Sim) -> (bool, bool) {
    let mut any = false;
    let mut structural = false;
    for a in 0..s.ops.len() {
        for b in 0..a {
            if !s.ops[a].past.contains(&b) {
                any = true;
                let m = |x: usize| !matches!(s.ops[x].op.payload(), CgkaOperation::Update { .. });
                if m(a) || m(b) {
                    structural = true;
                }
            }
        }
    }
    (any, structural)
}

/// Merging a fork of itself makes a replica apply whatever it still has pending.
fn force_replay(c: &mut Cgka) {
    use beekem::transact::{Fork, Merge};
    let f = c.fork();
    c.merge(f);
}

fn sim_case(src: &mut Src, case: &mut Case) -> Result<Sim, Failure> {
    let n = 3 + src.idx(5);
    let mut s = Sim::new(src.below(1 << 16), n);
    let mix = [
        Mix { add: 4, remove: 2, update: 3, deliver: 8, fork: 0, seal: 2 },
        Mix { add: 4, remove: 0, update: 4, deliver: 8, fork: 0, seal: 2 },
        Mix { add: 6, remove: 4, update: 1, deliver: 6, fork: 0, seal: 1 },
        Mix { add: 3, remove: 1, update: 6, deliver: 12, fork: 0, seal: 4 },
        Mix { add: 4, remove: 2, update: 4, deliver: 8, fork: 2, seal: 2 },
    ];
    let mix = &mix[src.idx(5)];
    // A starting group, known to all of its members.
    let start = 1 + src.idx(n);
    for j in 1..start {
        s.add(0, j, 0).map_err(|e| Failure { sig: "op-error".into(), msg: format!("{e}") })?;
    }
    if src.chance(2, 3) {
        for i in 0..n {
            s.deliver(src, i, true).map_err(|e| Failure { sig: "merge-error".into(), msg: format!("{e}") })?;
        }
    }
    case.note(format!("{n} people; M0 starts with {start} members"));
    let steps = 4 + src.idx(30);
    for _ in 0..steps {
        act(src, case, &mut s, mix)?;
    }
    let (any, structural) = has_concurrency(&s);
    if any {
        case.label("concurrent");
    }
    if structural {
        case.label("concurrent-membership-change");
    }
    for o in &s.ops {
        case.label(match o.op.payload() {
            CgkaOperation::Add { .. } => "op:add",
            CgkaOperation::Remove { .. } => "op:remove",
            CgkaOperation::Update { .. } => "op:update",
        });
    }
    case.nontrivial = any && s.ops.len() >= 6;
    Ok(s)
}

fn c04(src: &mut Src, case: &mut Case) -> Check {
    let mut s = sim_case(src, case)?;
    let n = s.peers.len();
    // Out-of-order operations are refused and change nothing; duplicates are no-ops.
    for i in 0..n {
        for ix in 1..s.ops.len() {
            let ready = s.ops[ix].preds.iter().all(|p| s.peers[i].has.contains(p));
            if s.peers[i].has.contains(&ix) || !ready {
                let before = s.peers[i].cgka.clone();
                let r = s.peers[i].cgka.merge_concurrent_operation(s.ops[ix].op.clone());
                case.asserts += 1;
                if !ready && !s.peers[i].has.contains(&ix) {
                    ensure!(matches!(r, Err(CgkaError::OutOfOrderOperation)), "out-of-order-accepted",
                        "M{i} lacks predecessors of {} but merge gave {r:?}", s.describe(ix));
                } else {
                    ensure!(matches!(r, Ok(false)), "duplicate-not-ignored", "M{i} given {} twice: {r:?}", s.describe(ix));
                }
                ensure!(before == s.peers[i].cgka, "rejected-op-changed-state", "M{i} changed by {}", s.describe(ix));
            }
        }
    }
    // Everybody gets everything, each in their own order.
    for i in 0..n {
        if let Err(e) = s.deliver(src, i, true) {
            return fail("merge-error", format!("M{i} cannot merge in causal order: {e}"));
        }
    }
    // Observers, who hold no secrets, are comparable in full.
    let mut obs: Vec<Peer> = vec![];
    for _ in 0..2 {
        let mut o = s.observer();
        if let Some(first) = obs.first() {
            // same identity, so that the whole state is comparable
            o.id = first.id;
            o.signer = first.signer.clone();
            o.cgka.owner_id = first.id;
        }
        let order = s.causal_order(src, &o.has, (1..s.ops.len()).collect());
        for ix in order {
            if let Err(e) = s.give(&mut o.cgka, ix) {
                return fail("merge-error", format!("observer cannot merge {}: {e}", s.describe(ix)));
            }
        }
        obs.push(o);
    }
    let members = s.members(0);
    case.note(format!("everybody has everything; members {members:?}"));
    let everything: BTreeSet<usize> = (0..s.ops.len()).collect();
    for i in 0..n {
        case.asserts += 2;
        let m = s.members(i);
        ensure!(m == members, "members-differ", "M0 sees {members:?}, M{i} sees {m:?}");
        if let Some(c) = s.certain(i, &everything) {
            ensure!(members.contains(&i) == c, "membership-wrong", "M{i} should be {} but members are {members:?}", if c { "a member" } else { "no member" });
        }
    }
    let sizes: BTreeSet<u32> = s
        .peers
        .iter()
        .chain(obs.iter())
        .map(|p| {
            let mut c = p.cgka.clone();
            force_replay(&mut c);
            c.group_size()
        })
        .collect();
    ensure!(sizes.len() == 1, "sizes-differ", "sizes {sizes:?}");
    ensure!(*sizes.first().unwrap() as usize == members.len(), "size-wrong", "{members:?} vs {sizes:?}");
    let eps: Vec<Vec<BTreeSet<usize>>> = s
        .peers
        .iter()
        .chain(obs.iter())
        .map(|p| {
            p.cgka
                .ops()
                .unwrap()
                .iter()
                .map(|e| e.iter().map(|o| s.ops.iter().position(|x| x.op == *o).unwrap()).collect())
                .collect()
        })
        .collect();
    for e in &eps {
        ensure!(*e == eps[0], "epochs-differ", "{:?} vs {:?}", eps[0], e);
    }
    {
        let (mut a, mut b) = (obs[0].cgka.clone(), obs[1].cgka.clone());
        force_replay(&mut a);
        force_replay(&mut b);
        case.asserts += 1;
        ensure!(a == b, "tree-diverged", "two observers with the same operations have different trees");
    }
    // Any member's update gives everybody the same key.
    if members.is_empty() {
        return Ok(());
    }
    let ms: Vec<usize> = members.iter().copied().collect();
    for round in 0..2 {
        let u = *src.pick(&ms);
        let ix = match s.update(u) {
            Ok(ix) => ix,
            Err(e) => return fail("update-failed", format!("member M{u} cannot update: {e}")),
        };
        case.note(format!("round {round}: {}", s.describe(ix)));
        let pcs = s.ops[ix].pcs.unwrap();
        let (ph, oh) = (Digest::hash(&pcs), s.ops[ix].d);
        for i in 0..n {
            if i != u {
                if let Err(e) = s.deliver(src, i, true) {
                    return fail("merge-error", format!("M{i} cannot merge an update: {e}"));
                }
            }
            let mut c = s.peers[i].cgka.clone();
            let root = c.secret_from_root();
            case.asserts += 2;
            if members.contains(&i) {
                match root {
                    Ok(k) => ensure!(k == pcs, "keys-differ", "M{i} derives another key than M{u}"),
                    Err(e) => return fail("member-cannot-derive", format!("M{i} cannot derive the key: {e}")),
                }
                match s.peers[i].cgka.secret(&ph, &oh) {
                    Ok(k) => ensure!(k == pcs, "keys-differ", "M{i} derives another key than M{u} by hash"),
                    Err(e) => return fail("member-cannot-derive", format!("M{i} cannot derive by hash: {e}")),
                }
            } else {
                ensure!(root.is_err() || root.unwrap() != pcs, "outsider-derives", "M{i} is no member but derives the key");
            }
        }
        // application secrets
        let e = *src.pick(&ms);
        let signer = s.peers[e].signer.clone();
        let plain = src.bytes(300);
        let cref = [round as u8; 32];
        let (sec, op) = block_on(s.peers[e].cgka.new_app_secret_for::<Sendable, _, [u8; 32], _>(
            &cref, &plain, &vec![], &signer, &mut s.rng,
        ))
        .map_err(|e| Failure { sig: "encrypt-failed".into(), msg: format!("{e}") })?;
        if let Some(op) = op {
            // (Happens after concurrent adds, although there is a fresh key.)
            case.label("encrypt:with-update");
            let ix = s.record(e, op, None);
            for i in 0..n {
                if let Err(e) = s.deliver(src, i, true) {
                    return fail("merge-error", format!("M{i} cannot merge {}: {e}", s.describe(ix)));
                }
            }
        }
        let enc: EncryptedContent<Vec<u8>, [u8; 32]> = sec.try_encrypt(&plain).unwrap();
        for i in 0..n {
            case.asserts += 1;
            let k = s.peers[i].cgka.decryption_key_for(&enc);
            if members.contains(&i) {
                let got = k.ok().and_then(|k| enc.try_decrypt(k).ok());
                ensure!(got.as_ref() == Some(&plain), "content-undecryptable", "M{i} cannot read content of M{e}");
            } else {
                let got = k.ok().and_then(|k| enc.try_decrypt(k).ok());
                ensure!(got.is_none(), "outsider-reads", "M{i} is no member but reads content");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ secrecy

fn versions(op: &CgkaOperation) -> Vec<SecretStoreVersion> {
    let CgkaOperation::Update { new_path, .. } = op else { return vec![] };
    new_path
        .path
        .iter()
        .flat_map(|(_, store)| {
            let b = bincode::serialize(store).unwrap();
            bincode::deserialize::<Vec<SecretStoreVersion>>(&b).unwrap()
        })
        .collect()
}

/// Everything computable from `known` secret keys and all of the published operations.
fn closure(s: &Sim, known: &mut BTreeMap<ShareKey, ShareSecretKey>, ops: &BTreeSet<usize>) {
    let vs: Vec<SecretStoreVersion> = ops.iter().flat_map(|ix| versions(s.ops[*ix].op.payload())).collect();
    loop {
        let before = known.len();
        for v in &vs {
            if known.contains_key(&v.pk) {
                continue;
            }
            for es in v.sk.values() {
                let mut keys = vec![];
                if let Some(sk) = known.get(&es.paired_pk) {
                    keys.push(sk.derive_symmetric_key(&v.encrypter_pk));
                }
                if let Some(sk) = known.get(&v.encrypter_pk) {
                    keys.push(sk.derive_symmetric_key(&es.paired_pk));
                }
                for k in keys {
                    let mut buf = es.ciphertext.clone();
                    if k.try_decrypt(es.nonce, &mut buf).is_ok() {
                        if let Ok(b) = <[u8; 32]>::try_from(buf) {
                            let sk = ShareSecretKey::force_from_bytes(b);
                            known.insert(sk.share_key(), sk);
                        }
                    }
                }
            }
        }
        if known.len() == before {
            break;
        }
    }
}

fn own_keys(s: &Sim, m: usize) -> BTreeMap<ShareKey, ShareSecretKey> {
    // every secret the member's own state holds
    let b = bincode::serialize(&s.peers[m].cgka.owner_sks).unwrap();
    let mut k: BTreeMap<ShareKey, ShareSecretKey> = bincode::deserialize(&b).unwrap();
    for p in &s.peers[m].prekeys {
        k.insert(p.share_key(), *p);
    }
    k
}

fn c05(src: &mut Src, case: &mut Case) -> Check {
    let mut s = sim_case(src, case)?;
    let n = s.peers.len();
    // A final round, so that there is something to attack.
    if src.chance(1, 2) {
        for i in 0..n {
            if let Err(e) = s.deliver(src, i, true) {
                return fail("merge-error", format!("M{i} cannot merge in causal order: {e}"));
            }
        }
        let ms: Vec<usize> = s.members(0).into_iter().collect();
        if !ms.is_empty() {
            let u = *src.pick(&ms);
            if let Ok(ix) = s.update(u) {
                case.note(s.describe(ix));
            }
        }
    }
    let all: BTreeSet<usize> = (0..s.ops.len()).collect();
    let mut attacked = 0;
    for m in 0..n {
        // Updates made when `m` was, for the updater, certainly out: never added, or every add
        // is followed by a remove in the update's own past.
        let mut targets: Vec<usize> = vec![];
        for u in 0..s.ops.len() {
            if s.ops[u].pcs.is_some() && s.ops[u].by != m && s.certain(m, &s.ops[u].past) == Some(false) {
                targets.push(u);
            }
        }
        if targets.is_empty() {
            continue;
        }
        // What the outsider learns legitimately from other updates (it may be a member in a
        // concurrent or later branch) must not give it these; but a member that is
        // *later re-added* may not look back either (updates before joining).
        let mut known = own_keys(&s, m);
        closure(&s, &mut known, &all);
        let hashes: BTreeSet<Vec<u8>> =
            known.values().map(|k| Digest::hash(&PcsKey::new(*k)).as_slice().to_vec()).collect();
        let removed = s.about(m).iter().any(|x| !x.1);
        for u in targets {
            attacked += 1;
            case.asserts += 1;
            case.label(if removed { "attack:by-removed" } else { "attack:by-never-member" });
            let pcs = s.ops[u].pcs.unwrap();
            if hashes.contains(Digest::hash(&pcs).as_slice()) {
                case.raise("outsider-derives-key", format!("M{m} can compute the key of {} although it was certainly out", s.describe(u)))?;
            }
            let mut c = s.peers[m].cgka.clone();
            let mut give: Vec<usize> = s.ops[u].past.iter().copied().collect();
            give.push(u);
            for ix in give {
                let _ = c.merge_concurrent_operation(s.ops[ix].op.clone());
            }
            if let Ok(k) = c.secret(&Digest::hash(&pcs), &s.ops[u].d) {
                case.raise("outsider-given-key", format!("M{m}'s own state hands out the key of {} (same: {})", s.describe(u), k == pcs))?;
            }
        }
    }
    case.nontrivial = attacked > 0 && s.ops.len() >= 5;
    Ok(())
}

// ------------------------------------------------------------------ availability

fn c06(src: &mut Src, case: &mut Case) -> Check {
    let mut s = sim_case(src, case)?;
    let n = s.peers.len();
    let upds: Vec<usize> = (0..s.ops.len()).filter(|u| s.ops[*u].pcs.is_some()).collect();
    // Everyone asks about some updates at random moments while receiving the rest.
    for i in 0..n {
        let want: Vec<usize> = (0..s.ops.len()).filter(|x| !s.peers[i].has.contains(x)).collect();
        let order = s.causal_order(src, &s.peers[i].has.clone(), want);
        let mut k = 0;
        loop {
            if src.chance(1, 3) || k == order.len() {
                for u in &upds {
                    if !s.peers[i].has.contains(u) || !s.ops[*u].members.contains(&i) {
                        continue;
                    }
                    let pcs = s.ops[*u].pcs.unwrap();
                    case.asserts += 1;
                    let (ph, oh) = (Digest::hash(&pcs), s.ops[*u].d);
                    let conc = s.peers[i].has.iter().any(|x| x != u && !s.ops[*u].past.contains(x) && !s.ops[*x].past.contains(u));
                    case.label(if conc { "derive:concurrent-epoch" } else { "derive:linear-epoch" });
                    if conc {
                        case.nontrivial = true;
                    }
                    match s.peers[i].cgka.secret(&ph, &oh) {
                        Ok(x) => ensure!(x == pcs, "wrong-key", "M{i} derives a wrong key for {}", s.describe(*u)),
                        Err(e) => case.raise("member-locked-out", format!("M{i} was a member for {} but cannot derive its key: {e}", s.describe(*u)))?,
                    }
                }
            }
            if src.chance(1, 3) || k == order.len() {
                for c in 0..s.sealed.len() {
                    let u = s.sealed[c].op;
                    if !s.peers[i].has.contains(&u) || !s.ops[u].members.contains(&i) {
                        continue;
                    }
                    case.asserts += 1;
                    let x = &s.sealed[c];
                    let was_later = s.peers[i].has.iter().any(|o| s.ops[*o].past.contains(&u));
                    case.label(if was_later { "open:older" } else { "open:newest" });
                    match s.peers[i].cgka.decryption_key_for(&x.enc) {
                        Err(e) => case.raise("member-locked-out", format!("M{i} was a member at {} but has no key for c{c}: {e}", s.describe(u)))?,
                        Ok(k) => {
                            ensure!(k.as_slice() == &x.key[..], "wrong-key", "M{i} derives another key for c{c} than M{} used", x.by);
                            ensure!(x.enc.try_decrypt(k).as_ref() == Ok(&x.plain), "wrong-plaintext", "M{i} does not get back the content of c{c}");
                        }
                    }
                }
            }
            if k == order.len() {
                break;
            }
            let op = s.ops[order[k]].op.clone();
            if let Err(e) = s.peers[i].cgka.merge_concurrent_operation(op) {
                return fail("merge-error", format!("M{i} cannot merge {}: {e}", s.describe(order[k])));
            }
            s.peers[i].has.insert(order[k]);
            k += 1;
        }
    }
    // A key is shared only by the same reference and predecessors under the same group key,
    // and then never with one nonce for two contents.
    for a in 0..s.sealed.len() {
        for b in 0..a {
            let (x, y) = (&s.sealed[a], &s.sealed[b]);
            let same = x.enc.content_ref == y.enc.content_ref && x.preds == y.preds && x.enc.pcs_key_hash == y.enc.pcs_key_hash;
            case.asserts += 1;
            if same {
                case.label("keys:same-inputs");
                ensure!(x.key == y.key, "key-not-determined", "c{a} and c{b} have the same reference, predecessors and group key but different keys");
                ensure!(x.enc.nonce != y.enc.nonce || x.plain == y.plain, "nonce-reused", "c{a} and c{b} share key and nonce");
            } else {
                let d = (x.enc.content_ref != y.enc.content_ref) as u8 + 2 * (x.preds != y.preds) as u8 + 4 * (x.enc.pcs_key_hash != y.enc.pcs_key_hash) as u8;
                case.label(["", "keys:only-ref-differs", "keys:only-preds-differ", "", "keys:only-group-key-differs", "", "", ""][d as usize]);
                ensure!(x.key != y.key, "key-reused", "c{a} and c{b} are sealed under the same key (difference {d})");
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            run: c04,
            quick: 10000,
            thorough: 60000,
            scripted: &[],
            rule: "at least 6 group-key operations with at least one pair of concurrent ones",
            assumptions: &["3 to 7 people, at most 34 actions per history", "operations delivered in causal order (out-of-order ones are offered too and have to be refused)"],
        },
        Prop {
            id: "C05",
            run: c05,
            quick: 10000,
            thorough: 60000,
            scripted: &[],
            rule: "at least one (outsider, key) pair attacked in a history of at least 5 operations",
            assumptions: &["passive attacker: computes everything its own secrets and all published operations yield; X25519, ChaCha20-Poly1305 and BLAKE3 are taken as unbroken"],
        },
        Prop {
            id: "C06",
            run: c06,
            quick: 10000,
            thorough: 60000,
            scripted: &[],
            rule: "at least one key derived for an update that is concurrent with another operation the deriving member holds",
            assumptions: &["3 to 7 people, at most 34 actions per history"],
        },
    ]
}
