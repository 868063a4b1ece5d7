//! C24 hostile events: whatever a malicious peer signs with keys of its own, a victim that
//! receives it neither panics nor hangs, and what the malicious peer has no part in stays as it
//! would be without it.
use crate::engine::{block_on, Case, Check, Failure, Prop, Src};
use crate::hist::{self, Cfg};
use crate::model::{self, Ledger};
use crate::props::membership::{craft_attack, diff, nested_authority_order};
use crate::world::*;
use beekem::{
    id::{MemberId, TreeId},
    keys::{ConflictKeys, NodeKey},
    operation::CgkaOperation,
    secret_store::SecretStore,
    tree::PathChange,
};
use keyhive_core::{
    access::Access,
    event::static_event::StaticEvent,
    principal::{
        document::id::DocumentId,
        group::{delegation::StaticDelegation, revocation::StaticRevocation},
        identifier::Identifier,
        individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp},
        public::Public,
    },
};
use keyhive_crypto::{
    digest::Digest,
    share_key::{ShareKey, ShareSecretKey},
    signed::Signed,
    signer::memory::MemorySigner,
    verifiable::Verifiable,
};
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        run: c24,
        quick: 5_000,
        thorough: 60_000,
        scripted: &[],
        rule: "at least four hostile events reached the victim, which also knows a group or document the malicious peer has no part in",
        assumptions: &["signatures are unforgeable", "the malicious peer has no keys but its own, made-up ones and the public agent's"],
    }]
}

struct Evil {
    /// the malicious peer's own key, made-up ones, and the public agent's
    keys: Vec<MemorySigner>,
    grants: Vec<(Dg, Identifier)>,
    revs: Vec<Dg>,
    /// documents that operations were made for, with the digests of the operations
    cgka: BTreeMap<Identifier, Vec<Dg>>,
    docs: Vec<Identifier>,
    sent: Vec<SE>,
}

fn ident(s: &MemorySigner) -> Identifier {
    Identifier::from(s.verifying_key())
}

fn share(src: &mut Src) -> ShareKey {
    let mut r = ChaCha20Rng::seed_from_u64(src.below(1 << 16) ^ 0x24);
    ShareSecretKey::generate(&mut r).share_key()
}

fn some<T: Clone>(src: &mut Src, v: &[T], max: usize) -> Vec<T> {
    if v.is_empty() {
        return vec![];
    }
    let k = src.idx(max + 1);
    (0..k).map(|_| src.pick(v).clone()).collect()
}

/// A node with no key, one key or several (whatever decodes)
fn node(src: &mut Src, honest: &[SecretStore]) -> SecretStore {
    match src.weighted(&[3, 3, 2, 2]) {
        0 if !honest.is_empty() => src.pick(honest).clone(),
        1 => bincode::deserialize(&0u64.to_le_bytes()).expect("empty node"),
        2 => {
            // two nodes in one
            let one = |n: &SecretStore| bincode::serialize(n).expect("node")[8..].to_vec();
            let a = SecretStore::new(share(src), share(src), BTreeMap::new());
            let b = if honest.is_empty() { a.clone() } else { src.pick(honest).clone() };
            if b.has_conflict() {
                return a;
            }
            let bytes = [2u64.to_le_bytes().to_vec(), one(&a), one(&b)].concat();
            bincode::deserialize(&bytes).unwrap_or(a)
        }
        _ => SecretStore::new(share(src), share(src), BTreeMap::new()),
    }
}

impl Evil {
    fn people(&self, w: &World) -> Vec<Identifier> {
        let mut v: Vec<Identifier> = w.nodes.iter().map(|n| n.ident()).collect();
        v.extend(w.groups.iter().map(|g| Identifier::from(*g)));
        v.extend(w.docs.iter().map(|g| Identifier::from(*g)));
        v.push(Public.id());
        v.extend(self.keys.iter().map(ident));
        v.sort_by_key(|i| i.to_bytes());
        v.dedup();
        v
    }

    fn craft(&mut self, src: &mut Src, w: &World, l: &Ledger, m: usize) -> Option<(SE, String)> {
        let (e, what) = match src.weighted(&[6, 4, 3, 8, 3, 2, 2]) {
            0 => self.root(src, w, l)?,
            1 => self.grant(src, w, l)?,
            2 => self.revocation(src, w, l)?,
            3 => self.key_op(src, w)?,
            4 => self.prekey(src, w)?,
            5 => {
                let (e, _, what) = craft_attack(src, w, m, l)?;
                (e, what)
            }
            // something sent before, once more
            _ => {
                if self.sent.is_empty() {
                    return None;
                }
                (src.pick(&self.sent).clone(), "the same again".into())
            }
        };
        self.sent.push(e.clone());
        Some((e, what))
    }

    fn name(&self, w: &World, i: &Identifier) -> String {
        match self.keys.iter().position(|k| ident(k) == *i) {
            Some(k) if !w.names.contains_key(i) => format!("H{k}"),
            _ => w.name(i),
        }
    }

    fn after(&self, src: &mut Src, l: &Ledger) -> Vec<Digest<Signed<StaticRevocation<Ref>>>> {
        let mut all: Vec<Dg> = l.revs.keys().copied().collect();
        all.extend(self.revs.iter().copied());
        let mut v: Vec<Dg> = if src.chance(1, 3) { some(src, &all, 3) } else { vec![] };
        if src.chance(1, 12) {
            v.push([7; 32]);
        }
        v.into_iter().map(Digest::from).collect()
    }

    /// A group or document of its own, or itself turned into one
    fn root(&mut self, src: &mut Src, w: &World, l: &Ledger) -> Option<(SE, String)> {
        let k = src.idx(self.keys.len());
        let who = ident(&self.keys[k]);
        let delegate = if src.chance(1, 6) { who } else { *src.pick(&self.people(w)) };
        let mut after_content = BTreeMap::new();
        let doc = src.chance(1, 2);
        if doc {
            after_content.insert(DocumentId::from(who), (0..src.idx(3)).map(|x| [x as u8; 32]).collect());
        }
        if src.chance(1, 6) && !w.docs.is_empty() {
            after_content.insert(*src.pick(&w.docs), vec![[9; 32]]);
        }
        let p = StaticDelegation {
            can: hist::access(src),
            proof: None,
            delegate,
            after_revocations: self.after(src, l),
            after_content,
        };
        let what = format!("{} makes {} a {:?} member of itself{}", self.name(w, &who), self.name(w, &delegate), p.can, if doc { " as a document" } else { "" });
        let s = self.keys[k].try_sign_sync(p).ok()?;
        let e = StaticEvent::Delegated(s);
        self.grants.push((op_digest(&e), delegate));
        if doc {
            self.docs.push(who);
        }
        Some((e, what))
    }

    fn grant(&mut self, src: &mut Src, w: &World, l: &Ledger) -> Option<(SE, String)> {
        let k = src.idx(self.keys.len());
        let who = ident(&self.keys[k]);
        let mut mine: Vec<Dg> = self.grants.iter().filter(|g| g.1 == who).map(|g| g.0).collect();
        mine.extend(l.grants.values().filter(|g| g.delegate == who).map(|g| g.d));
        let mut all: Vec<Dg> = self.grants.iter().map(|g| g.0).collect();
        all.extend(l.grants.keys());
        if all.is_empty() {
            return None;
        }
        let proof = if !mine.is_empty() && src.chance(3, 4) { *src.pick(&mine) } else { *src.pick(&all) };
        let delegate = *src.pick(&self.people(w));
        let p = StaticDelegation {
            can: hist::access(src),
            proof: Some(Digest::from(proof)),
            delegate,
            after_revocations: self.after(src, l),
            after_content: BTreeMap::new(),
        };
        let what = format!("{} grants {} {:?} citing {:02x}{:02x}", self.name(w, &who), self.name(w, &delegate), p.can, proof[0], proof[1]);
        let e = StaticEvent::Delegated(self.keys[k].try_sign_sync(p).ok()?);
        self.grants.push((op_digest(&e), delegate));
        Some((e, what))
    }

    fn revocation(&mut self, src: &mut Src, w: &World, l: &Ledger) -> Option<(SE, String)> {
        let k = src.idx(self.keys.len());
        let who = ident(&self.keys[k]);
        let own: Vec<Dg> = self.grants.iter().map(|g| g.0).collect();
        let mut all = own.clone();
        all.extend(l.grants.keys());
        if all.is_empty() {
            return None;
        }
        let revoke = if !own.is_empty() && src.chance(3, 4) { *src.pick(&own) } else { *src.pick(&all) };
        let proof = match src.weighted(&[2, 2, 2]) {
            0 => None,
            1 => Some(revoke),
            _ => Some(*src.pick(&all)),
        };
        let p = StaticRevocation {
            revoke: Digest::from(revoke),
            proof: proof.map(Digest::from),
            after_content: BTreeMap::new(),
        };
        let e = StaticEvent::Revoked(self.keys[k].try_sign_sync(p).ok()?);
        self.revs.push(op_digest(&e));
        Some((
            e,
            format!("{} revokes {:02x}{:02x} citing {:?}", self.name(w, &who), revoke[0], revoke[1], proof.map(|p| format!("{:02x}{:02x}", p[0], p[1]))),
        ))
    }

    fn key_op(&mut self, src: &mut Src, w: &World) -> Option<(SE, String)> {
        let mut docs: Vec<Identifier> = w.docs.iter().map(|d| Identifier::from(*d)).collect();
        if src.chance(1, 2) && !self.docs.is_empty() {
            docs = self.docs.clone();
        }
        if docs.is_empty() {
            return None;
        }
        let doc = *src.pick(&docs);
        let honest: Vec<(Dg, CgkaOperation)> = w
            .pool
            .iter()
            .filter_map(|e| match &e.ev {
                StaticEvent::CgkaOperation(s) if Identifier(s.payload().doc_id().0) == doc => Some((op_digest(&e.ev), s.payload().clone())),
                _ => None,
            })
            .collect();
        let mut known: Vec<Dg> = honest.iter().map(|h| h.0).collect();
        known.extend(self.cgka.get(&doc).into_iter().flatten());
        let preds: Vec<Dg> = match src.weighted(&[2, 5, 3, 1]) {
            0 => vec![],
            1 => known.last().into_iter().copied().collect(),
            2 => some(src, &known, 4),
            _ => vec![[5; 32]],
        };
        let preds: Vec<Digest<Signed<CgkaOperation>>> = preds.into_iter().map(Digest::from).collect();
        let k = src.idx(self.keys.len());
        let who = ident(&self.keys[k]);
        let people = self.people(w);
        let whom = match src.weighted(&[3, 2, 4]) {
            0 => who,
            1 => doc,
            _ => *src.pick(&people),
        };
        let tree: TreeId = TreeId(doc.0);
        let id = MemberId(whom.0);
        let keys = |src: &mut Src| -> ShareKey {
            let used: Vec<ShareKey> = honest
                .iter()
                .filter_map(|h| match &h.1 {
                    CgkaOperation::Add { pk, .. } => Some(*pk),
                    _ => None,
                })
                .collect();
            match src.weighted(&[3, 1, 2]) {
                0 => share(src),
                1 => Public.share_key(),
                _ if !used.is_empty() => *src.pick(&used),
                _ => share(src),
            }
        };
        let (op, what) = match src.weighted(&[4, 2, 5]) {
            0 => {
                let add_predecessors = if src.chance(1, 2) { preds.clone() } else { some(src, &known, 3).into_iter().map(Digest::from).collect() };
                let leaf_index = *src.pick(&[0, 1, 7, u32::MAX]);
                (CgkaOperation::Add { added_id: id, pk: keys(src), leaf_index, predecessors: preds, add_predecessors, doc_id: tree }, "adds")
            }
            1 => {
                let leaf_idx = *src.pick(&[0, 1, 7, u32::MAX]);
                let k = src.idx(3);
                let removed_keys = (0..k).map(|_| keys(src)).collect();
                (CgkaOperation::Remove { id, leaf_idx, removed_keys, predecessors: preds, doc_id: tree }, "removes")
            }
            _ => {
                let model: Vec<PathChange> = honest
                    .iter()
                    .filter_map(|h| match &h.1 {
                        CgkaOperation::Update { new_path, .. } => Some(new_path.as_ref().clone()),
                        _ => None,
                    })
                    .collect();
                let nodes: Vec<SecretStore> = model.iter().flat_map(|p| p.path.iter().map(|n| n.1.clone())).collect();
                let mut p = if !model.is_empty() && src.chance(2, 3) {
                    src.pick(&model).clone()
                } else {
                    PathChange { leaf_id: id, leaf_idx: 0, leaf_pk: NodeKey::ShareKey(share(src)), path: vec![(0, node(src, &nodes))], removed_keys: vec![] }
                };
                let many = if src.chance(1, 4) { 0 } else { 1 + src.idx(4) };
                for _ in 0..many {
                    match src.idx(7) {
                        0 => p.leaf_id = id,
                        1 => p.leaf_idx = *src.pick(&[0, 1, 2, 3, u32::MAX]),
                        2 => {
                            let more = (0..src.idx(3)).map(|_| keys(src)).collect();
                            p.leaf_pk = NodeKey::ConflictKeys(ConflictKeys { first: keys(src), second: keys(src), more })
                        }
                        3 => {
                            let k = src.idx(5);
                            p.removed_keys = (0..k).map(|_| keys(src)).collect()
                        }
                        4 => {
                            let k = src.idx(5);
                            p.path = (0..k).map(|x| (x as u32, node(src, &nodes))).collect()
                        }
                        5 => {
                            let x = src.idx(p.path.len().max(1));
                            if let Some(n) = p.path.get_mut(x) {
                                n.1 = node(src, &nodes);
                            }
                        }
                        _ => {
                            let to = *src.pick(&[0, 1, 2, 6, 1 << 20, u32::MAX]);
                            let x = src.idx(p.path.len().max(1));
                            if let Some(n) = p.path.get_mut(x) {
                                n.0 = to;
                            }
                        }
                    }
                }
                // the leaf of whoever is named
                if src.chance(1, 2) {
                    p.leaf_id = id;
                }
                (CgkaOperation::Update { id, new_path: Box::new(p), predecessors: preds, doc_id: tree }, "updates the path of")
            }
        };
        let s = self.keys[k].try_sign_sync(op).ok()?;
        let e = StaticEvent::CgkaOperation(Box::new(s));
        self.cgka.entry(doc).or_default().push(op_digest(&e));
        Some((e, format!("{} {what} {} in the keys of {}", self.name(w, &who), self.name(w, &whom), self.name(w, &doc))))
    }

    fn prekey(&mut self, src: &mut Src, w: &World) -> Option<(SE, String)> {
        let k = src.idx(self.keys.len());
        let who = ident(&self.keys[k]);
        let mut seen: Vec<ShareKey> = w
            .pool
            .iter()
            .filter_map(|e| match &e.ev {
                StaticEvent::PrekeysExpanded(s) => Some(s.payload().share_key),
                StaticEvent::PrekeyRotated(s) => Some(s.payload().new),
                _ => None,
            })
            .collect();
        seen.push(Public.share_key());
        let key = |src: &mut Src| if src.chance(1, 2) { *src.pick(&seen) } else { share(src) };
        Some(if src.chance(1, 2) {
            let s = self.keys[k].try_sign_sync(AddKeyOp { share_key: key(src) }).ok()?;
            (StaticEvent::PrekeysExpanded(Box::new(s)), format!("{} announces a prekey", self.name(w, &who)))
        } else {
            let old = key(src);
            let new = if src.chance(1, 4) { old } else { key(src) };
            let s = self.keys[k].try_sign_sync(RotateKeyOp { old, new }).ok()?;
            (StaticEvent::PrekeyRotated(Box::new(s)), format!("{} rotates a prekey", self.name(w, &who)))
        })
    }
}

/// Everything a peer can be asked about anybody
fn ask(w: &World, i: usize, extra: &[Identifier]) {
    let kh = &w.nodes[i].kh;
    let mut ids: Vec<Identifier> = w.nodes.iter().map(|n| n.ident()).collect();
    ids.extend(w.groups.iter().map(|g| Identifier::from(*g)));
    ids.extend(w.docs.iter().map(|g| Identifier::from(*g)));
    ids.extend(extra.iter().copied());
    ids.push(Public.id());
    for id in ids {
        let Some(a) = w.agent(i, id) else { continue };
        block_on(kh.docs_reachable_by_agent(&a));
        block_on(kh.membered_reachable_by_agent(&a));
        block_on(kh.membership_ops_for_agent(&a));
        block_on(kh.reachable_prekey_ops_for_agent(&a));
        let _ = block_on(kh.cgka_ops_reachable_by_agent(&a));
        block_on(kh.static_events_for_agent(&a));
    }
    block_on(kh.membership_ops_for_all_agents());
    block_on(kh.reachable_prekey_ops_for_all_agents());
    block_on(kh.cgka_ops_for_all_agents());
    block_on(kh.reachable_docs());
    block_on(kh.stats());
    w.view(i);
}

/// An event of a nested signer waits for ever in this order (listed under C08)
fn feed_excuse(w: &World, i: usize) -> bool {
    let p: BTreeSet<Dg> = block_on(w.nodes[i].kh.pending_event_hashes()).iter().map(raw).filter(|d| w.index.contains_key(d)).collect();
    !p.is_empty() && nested_authority_order(w, &p)
}

/// What there is about these groups, documents and people
fn part(w: &World, i: usize, what: &BTreeSet<Identifier>, people: &[Identifier]) -> View {
    let mut v = w.view(i);
    v.groups.retain(|k, _| what.contains(k));
    v.docs.retain(|k, _| what.contains(k));
    v.individuals.retain(|k, _| people.contains(k));
    v.pending.clear();
    for d in v.docs.values_mut() {
        d.pcs = None;
    }
    v
}

fn fail(sig: &str, msg: String) -> Check {
    Err(Failure { sig: sig.into(), msg })
}

fn c24(src: &mut Src, case: &mut Case) -> Check {
    let n = 3 + src.idx(2);
    let mut w = World::new(src.below(1 << 20), n);
    w.introduce_all();
    let m = n - 1;
    // mostly without the malicious peer, so that there is something it has no part in
    let cfg = Cfg { nest_docs: src.chance(1, 4), public: src.chance(1, 6), w_prekey: 1, ..Default::default() };
    let alone = src.chance(2, 3);
    let steps = 3 + src.idx(14);
    for _ in 0..steps {
        let cfg = if alone { Cfg { only: Some(src.idx(m)), ..cfg.clone() } } else { cfg.clone() };
        hist::step(src, case, &mut w, &cfg);
    }
    hist::label_pool(case, &w);
    let total = w.pool.len();
    let l = Ledger::from_pool(&w, &(0..total).collect());
    let mut evil = Evil {
        keys: vec![w.nodes[m].signer.clone()],
        grants: vec![],
        revs: vec![],
        cgka: BTreeMap::new(),
        docs: vec![],
        sent: vec![],
    };
    for k in 0..1 + src.idx(3) {
        evil.keys.push(signer_from(w.seed ^ ((k as u64 + 1) << 40)));
    }
    evil.keys.push(Public.signer());
    let bad: BTreeSet<Identifier> = evil.keys.iter().map(ident).collect();

    // two devices of one victim, one of which also gets what the malicious peer sends
    let r = src.idx(m);
    let secrets = block_on(w.nodes[r].kh.export_prekey_secrets()).expect("export");
    let (a, b) = (w.add_device(r), w.add_device(r));
    let own: Vec<usize> = (total..w.pool.len()).collect();
    for (x, y) in [(a, b), (b, a)] {
        let other = block_on(w.nodes[y].kh.export_prekey_secrets()).expect("export");
        for s in [&secrets, &other] {
            block_on(w.nodes[x].kh.import_prekey_secrets(s)).expect("import");
        }
        w.deliver(x, &own);
    }
    let mut order: Vec<usize> = (0..total).collect();
    if src.chance(1, 2) {
        src.shuffle(&mut order);
    }
    let mut k = 0;
    let mut sent = 0;
    let mut done = false;
    while !done {
        let len = if k < order.len() { 1 + src.idx(order.len() - k) } else { 0 };
        done = k + len >= order.len() && (len == 0 || src.chance(1, 2));
        let chunk: Vec<usize> = order[k..k + len].to_vec();
        k += len;
        let mut evs: Vec<SE> = chunk.iter().map(|ix| w.pool[*ix].ev.clone()).collect();
        w.deliver(a, &chunk);
        for _ in 0..src.idx(6) {
            if let Some((e, what)) = evil.craft(src, &w, &l, m) {
                case.note(format!("hostile (with the chunk ending at {k}/{}): {what}", order.len()));
                let at = src.idx(evs.len() + 1);
                evs.insert(at, e);
                sent += 1;
            }
        }
        case.doing("the victim receives hostile events");
        w.deliver_raw(b, evs);
        case.log.pop();
        w.nodes[b].has.extend(chunk);
        w.collect(b);
    }
    let untouched: BTreeSet<Identifier> = w
        .groups
        .iter()
        .map(|g| Identifier::from(*g))
        .chain(w.docs.iter().map(|d| Identifier::from(*d)))
        .filter(|t| {
            let has = model::ever_granted(&l, *t);
            !bad.iter().any(|x| has.contains_key(x))
        })
        .collect();
    let people: Vec<Identifier> = w.nodes.iter().map(|x| x.ident()).filter(|x| !bad.contains(x)).collect();
    case.nontrivial = sent >= 4 && !untouched.is_empty();
    let same = |w: &World, case: &mut Case, when: &str| -> Check {
        let (va, vb) = (part(w, a, &untouched, &people), part(w, b, &untouched, &people));
        case.asserts += 1;
        if va != vb {
            if feed_excuse(w, a) || feed_excuse(w, b) {
                case.label("excluded:nested-authority-order");
                return Ok(());
            }
            return fail("hostile-changed-state", format!("{when}, with and without the hostile events: {}", diff(w, &va, &vb)));
        }
        Ok(())
    };
    let extra: Vec<Identifier> = bad.iter().copied().collect();
    same(&w, case, "received")?;
    case.doing("the victim answers queries");
    ask(&w, b, &extra);
    case.log.pop();
    // it can stop and go on
    case.doing("the victim restarts");
    let archive = w.archive(b);
    match w.reload(b, &archive) {
        Ok(mut node) => {
            let before = w.view(b);
            node.has = w.nodes[b].has.clone();
            let old = std::mem::replace(&mut w.nodes[b], node);
            let after = part(&w, b, &untouched, &people);
            let mut before = before;
            before.groups.retain(|k, _| untouched.contains(k));
            before.docs.retain(|k, _| untouched.contains(k));
            before.individuals.retain(|k, _| people.contains(k));
            before.pending.clear();
            before.docs.values_mut().for_each(|d| d.pcs = None);
            case.asserts += 1;
            if after != before {
                return fail("restart-differs", diff(&w, &before, &after));
            }
            if src.chance(1, 2) {
                w.nodes[b] = old;
            }
        }
        Err(e) => return fail("archive-unusable", format!("the victim's archive cannot be restored: {e}")),
    }
    case.log.pop();
    // and everything still works on what the malicious peer has no part in
    let cs = w.contents.clone();
    for c in cs.iter().filter(|c| untouched.contains(&Identifier::from(c.doc))) {
        let (x, y) = (w.decrypt(a, c), w.decrypt(b, c));
        case.asserts += 1;
        if x.as_ref().ok() != y.as_ref().ok() {
            return fail("decrypt-differs", format!("content of {}: without {x:?}, with the hostile events {y:?}", w.name(&c.doc.into())));
        }
    }
    let docs: Vec<DocumentId> = w.docs.clone();
    for _ in 0..1 + src.idx(5) {
        let (what, x, y) = match src.idx(4) {
            0 | 1 if !docs.is_empty() => {
                let d = *src.pick(&docs);
                case.doing("encrypt");
                let x = w.encrypt(a, d, vec![], b"x".to_vec()).map(|_| ());
                let y = w.encrypt(b, d, vec![], b"x".to_vec()).map(|_| ());
                if !untouched.contains(&d.into()) {
                    continue;
                }
                (format!("encrypts for {}", w.name(&d.into())), x, y)
            }
            2 => {
                let ts = w.known_membereds(a);
                if ts.is_empty() {
                    continue;
                }
                let t = *src.pick(&ts);
                let c = *src.pick(&hist::candidates(&w, a, &Cfg { nest_docs: false, ..cfg.clone() }));
                // whoever the malicious peer has a part in would bring it along
                if !(people.contains(&c) || untouched.contains(&c)) || hist::would_cycle(&w, t, c) {
                    continue;
                }
                let can = hist::access(src);
                case.doing("add");
                let x = w.add(a, t, c, can).map(|_| ());
                let y = w.add(b, t, c, can).map(|_| ());
                if !untouched.contains(&t) {
                    continue;
                }
                (format!("adds {} to {} as {can:?}", w.name(&c), w.name(&t)), x, y)
            }
            _ => {
                let ts: Vec<Identifier> = w.known_membereds(a);
                if ts.is_empty() {
                    continue;
                }
                let t = *src.pick(&ts);
                let Some(v) = hist::membered_view(&w, a, t) else { continue };
                let mut who: Vec<Identifier> = v.members.keys().copied().collect();
                who.sort_by_key(|x| w.name(x));
                if who.is_empty() {
                    continue;
                }
                let c = *src.pick(&who);
                let retain = src.chance(1, 3);
                case.doing("revoke");
                let x = w.revoke(a, t, c, retain).map(|_| ());
                let y = w.revoke(b, t, c, retain).map(|_| ());
                if !untouched.contains(&t) {
                    continue;
                }
                (format!("revokes {} from {} (retain={retain})", w.name(&c), w.name(&t)), x, y)
            }
        };
        case.log.pop();
        case.note(format!("the victim {what}: {x:?} / {y:?}"));
        case.asserts += 1;
        if x.is_ok() != y.is_ok() {
            return fail("operation-differs", format!("the victim {what}: without {x:?}, with the hostile events {y:?}"));
        }
        let acc = |w: &World, i: usize| -> BTreeMap<Identifier, (BTreeMap<Identifier, Access>, Option<BTreeSet<Identifier>>)> {
            let v = part(w, i, &untouched, &people);
            v.groups.into_iter().chain(v.docs).map(|(k, m)| (k, (m.transitive, m.cgka_members))).collect()
        };
        let (va, vb) = (acc(&w, a), acc(&w, b));
        if va != vb && !(feed_excuse(&w, a) || feed_excuse(&w, b)) {
            let d: Vec<String> = va.iter().filter(|(k, v)| vb.get(*k) != Some(*v)).map(|(k, _)| w.name(k)).collect();
            return fail("operation-differs", format!("after the victim {what}, {d:?} are not the same with and without the hostile events"));
        }
    }
    case.doing("the victim makes things of its own");
    let g = w.new_group(b, &[]);
    let d = w.new_doc(b, &[]);
    case.asserts += 1;
    let (Some(_), Some(d)) = (g, d) else { return fail("no-new-groups", "the victim cannot make a group and a document any more".into()) };
    let x = w.encrypt(b, d, vec![], b"mine".to_vec());
    if x.is_err() {
        return fail("no-new-content", format!("the victim cannot encrypt for a new document: {x:?}"));
    }
    case.log.pop();
    Ok(())
}
