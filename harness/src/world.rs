//! Multi-peer simulator around the real `Keyhive` API. Every peer is a real `Keyhive` with a
//! seeded signer and a seeded CSPRNG; every event a peer emits goes to a common pool from which
//! any subset can be delivered to any peer in any order.
use crate::engine::{block_on, Src};
use beekem::{encrypted::EncryptedContent, operation::CgkaOperation};
use dupe::Dupe;
use future_form::Sendable;
use futures::lock::Mutex as AMutex;
use keyhive_core::{
    access::Access,
    archive::Archive,
    event::{static_event::StaticEvent, Event},
    keyhive::Keyhive,
    listener::log::Log,
    principal::{
        agent::Agent,
        document::{id::DocumentId, Document},
        group::{id::GroupId, Group},
        identifier::Identifier,
        individual::{id::IndividualId, op::KeyOp},
        membered::Membered,
        peer::Peer,
        public::Public,
    },
    store::ciphertext::memory::MemoryCiphertextStore,
};
use keyhive_crypto::{digest::Digest, signed::Signed, signer::memory::MemorySigner};
use nonempty::NonEmpty;
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

pub type Ref = [u8; 32];
pub type Store = MemoryCiphertextStore<Ref, Vec<u8>>;
pub type Lg = Log<Sendable, MemorySigner, Ref>;
pub type K = Keyhive<Sendable, MemorySigner, Ref, Vec<u8>, Store, Lg, ChaCha20Rng>;
pub type Ag = Agent<Sendable, MemorySigner, Ref, Lg>;
pub type Mb = Membered<Sendable, MemorySigner, Ref, Lg>;
pub type Pr = Peer<Sendable, MemorySigner, Ref, Lg>;
pub type Grp = Arc<AMutex<Group<Sendable, MemorySigner, Ref, Lg>>>;
pub type Doc = Arc<AMutex<Document<Sendable, MemorySigner, Ref, Lg>>>;
pub type SE = StaticEvent<Ref>;
pub type Dg = [u8; 32];

pub fn dg(e: &SE) -> Dg {
    let mut out = [0u8; 32];
    out.copy_from_slice(Digest::hash(e).as_slice());
    out
}

pub fn raw<T: serde::Serialize>(d: &Digest<T>) -> Dg {
    let mut out = [0u8; 32];
    out.copy_from_slice(d.as_slice());
    out
}

/// Digest of the signed payload of an event as the protocol refers to it (proofs, revocations,
/// CGKA predecessors).
pub fn op_digest(e: &SE) -> Dg {
    match e {
        StaticEvent::PrekeysExpanded(s) => raw(&Digest::hash(s.as_ref())),
        StaticEvent::PrekeyRotated(s) => raw(&Digest::hash(s.as_ref())),
        StaticEvent::CgkaOperation(s) => raw(&Digest::hash(s.as_ref())),
        StaticEvent::Delegated(s) => raw(&Digest::hash(s)),
        StaticEvent::Revoked(s) => raw(&Digest::hash(s)),
    }
}

pub fn kind(e: &SE) -> &'static str {
    match e {
        StaticEvent::PrekeysExpanded(_) => "prekey+",
        StaticEvent::PrekeyRotated(_) => "prekey~",
        StaticEvent::CgkaOperation(_) => "cgka",
        StaticEvent::Delegated(_) => "dlg",
        StaticEvent::Revoked(_) => "rev",
    }
}

pub fn signer_from(n: u64) -> MemorySigner {
    let mut r = ChaCha20Rng::seed_from_u64(n ^ 0x5151_0000_0000);
    MemorySigner::generate(&mut r)
}

#[derive(Clone)]
pub struct Node {
    pub name: String,
    pub kh: K,
    pub signer: MemorySigner,
    pub id: IndividualId,
    pub log: Lg,
    pub store: Store,
    /// pool indices this node has been given or made itself
    pub has: BTreeSet<usize>,
    /// events taken from its listener so far
    pub emitted: Vec<SE>,
    /// leave the listener's log as it is when reading it (forks)
    pub keep_log: bool,
}

impl Node {
    pub fn ident(&self) -> Identifier {
        self.id.into()
    }
}

#[derive(Clone)]
pub struct Ev {
    pub ev: SE,
    pub d: Dg,
    pub by: usize,
}

#[derive(Clone)]
pub struct Content {
    pub doc: DocumentId,
    pub by: usize,
    pub r: Ref,
    pub preds: Vec<Ref>,
    pub plain: Vec<u8>,
    pub enc: EncryptedContent<Vec<u8>, Ref>,
    /// CGKA operations in the encryptor's pool when it encrypted
    pub at: BTreeSet<usize>,
}

pub struct World {
    pub nodes: Vec<Node>,
    pub pool: Vec<Ev>,
    pub index: HashMap<Dg, usize>,
    pub groups: Vec<GroupId>,
    pub docs: Vec<DocumentId>,
    pub names: HashMap<Identifier, String>,
    pub contents: Vec<Content>,
    pub seed: u64,
    pub ctr: u64,
    pub trace: Vec<String>,
    /// signers that are no peers here, and the prekeys that they published
    pub outsiders: Vec<(MemorySigner, Vec<keyhive_crypto::share_key::ShareKey>)>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MemberedView {
    /// member -> live delegations (digest of signed op, access)
    pub members: BTreeMap<Identifier, BTreeSet<(Dg, Access)>>,
    pub transitive: BTreeMap<Identifier, Access>,
    pub revoked: BTreeMap<Identifier, Access>,
    pub dlg_heads: BTreeSet<Dg>,
    pub rev_heads: BTreeSet<Dg>,
    pub cgka_members: Option<BTreeSet<Identifier>>,
    pub cgka_ops: Option<BTreeSet<Dg>>,
    /// what the document starts from
    pub heads: BTreeSet<Ref>,
    pub pcs: Option<Dg>,
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct View {
    pub groups: BTreeMap<Identifier, MemberedView>,
    pub docs: BTreeMap<Identifier, MemberedView>,
    /// individual -> (prekey op digests, live prekeys)
    pub individuals: BTreeMap<Identifier, (BTreeSet<Dg>, BTreeSet<[u8; 32]>)>,
    pub pending: BTreeSet<Dg>,
}

pub const LEVELS: [Access; 4] = [Access::Read, Access::Relay, Access::Edit, Access::Admin];

impl World {
    pub fn new(seed: u64, n: usize) -> World {
        let mut w = World {
            nodes: vec![],
            pool: vec![],
            index: HashMap::new(),
            outsiders: vec![],
            groups: vec![],
            docs: vec![],
            names: HashMap::new(),
            contents: vec![],
            seed,
            ctr: 0,
            trace: vec![],
        };
        w.names.insert(Public.id(), "Public".into());
        for _ in 0..n {
            w.add_node();
        }
        w
    }

    pub fn add_node(&mut self) -> usize {
        let i = self.nodes.len();
        let signer = signer_from(self.seed.wrapping_mul(1000).wrapping_add(i as u64));
        let node = self.make_node(i, signer);
        self.nodes.push(node);
        self.publish_prekeys(i);
        i
    }

    /// A second device: same signing key as `of`, fresh state.
    pub fn add_device(&mut self, of: usize) -> usize {
        let i = self.nodes.len();
        let signer = self.nodes[of].signer.clone();
        let mut node = self.make_node(i, signer);
        node.name = format!("{}'", self.nodes[of].name);
        self.names.insert(node.ident(), self.nodes[of].name.clone());
        self.nodes.push(node);
        self.publish_prekeys(i);
        i
    }

    fn make_node(&mut self, i: usize, signer: MemorySigner) -> Node {
        let log = Lg::new();
        let store = Store::new();
        let rng = ChaCha20Rng::seed_from_u64(self.seed.wrapping_mul(7919).wrapping_add(i as u64));
        let kh: K = block_on(Keyhive::generate(signer.clone(), store.clone(), log.clone(), rng))
            .expect("generate keyhive");
        let id = kh.id();
        let name = format!("P{i}");
        self.names.insert(id.into(), name.clone());
        Node { name, kh, signer, id, log, store, has: BTreeSet::new(), emitted: vec![], keep_log: false }
    }

    pub fn prekey_events(&self, i: usize) -> Vec<SE> {
        let kh = &self.nodes[i].kh;
        block_on(async {
            let indie = kh.individual().await;
            let l = indie.lock().await;
            l.prekey_ops().values().map(|k| key_event(k)).collect()
        })
    }

    pub fn publish_prekeys(&mut self, i: usize) {
        let mut evs = self.prekey_events(i);
        evs.sort_by_key(dg);
        for e in evs {
            self.push_event(i, e);
        }
    }

    pub fn push_event(&mut self, by: usize, ev: SE) -> usize {
        let d = dg(&ev);
        let ix = match self.index.get(&d) {
            Some(ix) => *ix,
            None => {
                self.pool.push(Ev { ev, d, by });
                self.index.insert(d, self.pool.len() - 1);
                self.pool.len() - 1
            }
        };
        self.nodes[by].has.insert(ix);
        ix
    }

    /// Move what the node's listener has recorded into the pool; returns the pool indices.
    pub fn collect(&mut self, i: usize) -> Vec<usize> {
        let evs: Vec<_> = block_on(async {
            let mut l = self.nodes[i].log.0.lock().await;
            if self.nodes[i].keep_log {
                l[self.nodes[i].emitted.len()..].to_vec()
            } else {
                std::mem::take(&mut *l)
            }
        });
        let mut out = vec![];
        for e in evs {
            let s: SE = StaticEvent::from(e);
            self.nodes[i].emitted.push(s.clone());
            let ix = self.push_event(i, s);
            if !out.contains(&ix) {
                out.push(ix);
            }
        }
        out
    }

    pub fn name(&self, id: &Identifier) -> String {
        self.names.get(id).cloned().unwrap_or_else(|| format!("?{:02x}{:02x}", id.to_bytes()[0], id.to_bytes()[1]))
    }

    // ------------------------------------------------------------ lookups

    pub fn group(&self, i: usize, g: GroupId) -> Option<Grp> {
        block_on(self.nodes[i].kh.get_group(g))
    }
    pub fn doc(&self, i: usize, d: DocumentId) -> Option<Doc> {
        block_on(self.nodes[i].kh.get_document(d))
    }
    pub fn membered(&self, i: usize, id: Identifier) -> Option<Mb> {
        if let Some(d) = self.doc(i, DocumentId::from(id)) {
            return Some(Membered::Document(DocumentId::from(id), d));
        }
        self.group(i, GroupId::new(id)).map(|g| Membered::Group(GroupId::new(id), g))
    }
    pub fn agent(&self, i: usize, id: Identifier) -> Option<Ag> {
        block_on(self.nodes[i].kh.get_agent(id))
    }
    /// Memberships (groups then docs, creation order) that node `i` knows about.
    pub fn known_membereds(&self, i: usize) -> Vec<Identifier> {
        let mut out = vec![];
        for g in &self.groups {
            if self.group(i, *g).is_some() {
                out.push(Identifier::from(*g));
            }
        }
        for d in &self.docs {
            if self.doc(i, *d).is_some() {
                out.push(Identifier::from(*d));
            }
        }
        out
    }
    pub fn known_docs(&self, i: usize) -> Vec<DocumentId> {
        self.docs.iter().filter(|d| self.doc(i, **d).is_some()).copied().collect()
    }
    pub fn node_of(&self, id: &Identifier) -> Option<usize> {
        self.nodes.iter().position(|n| n.ident() == *id)
    }
    pub fn is_doc(&self, id: &Identifier) -> bool {
        self.docs.iter().any(|d| Identifier::from(*d) == *id)
    }

    pub fn next_ref(&mut self) -> Ref {
        self.ctr += 1;
        *blake3::hash(&[self.seed.to_le_bytes(), self.ctr.to_le_bytes()].concat()).as_bytes()
    }

    pub fn fresh_share_key(&mut self) -> keyhive_crypto::share_key::ShareKey {
        let r = self.next_ref();
        keyhive_crypto::share_key::ShareSecretKey::force_from_bytes(r).share_key()
    }

    // ------------------------------------------------------------ local operations

    /// Everybody learns everybody's prekeys (the usual contact-card exchange).
    pub fn introduce_all(&mut self) {
        let pre: Vec<usize> = (0..self.pool.len())
            .filter(|ix| matches!(self.pool[*ix].ev, StaticEvent::PrekeysExpanded(_) | StaticEvent::PrekeyRotated(_)))
            .collect();
        for i in 0..self.nodes.len() {
            self.deliver(i, &pre);
        }
    }

    pub fn new_group(&mut self, i: usize, coparents: &[Identifier]) -> Option<GroupId> {
        let peers: Vec<Pr> = coparents
            .iter()
            .filter_map(|c| block_on(self.nodes[i].kh.get_peer(*c)))
            .collect();
        let g = block_on(self.nodes[i].kh.generate_group(peers)).ok()?;
        let id = block_on(async { g.lock().await.group_id() });
        self.names.insert(id.into(), format!("G{}", self.groups.len()));
        self.groups.push(id);
        self.collect(i);
        Some(id)
    }

    pub fn new_doc(&mut self, i: usize, coparents: &[Identifier]) -> Option<DocumentId> {
        let peers: Vec<Pr> = coparents
            .iter()
            .filter_map(|c| block_on(self.nodes[i].kh.get_peer(*c)))
            .collect();
        let head = self.next_ref();
        let mut heads = NonEmpty::new(head);
        for _ in 0..head[0] % 3 {
            heads.push(self.next_ref());
        }
        let d = block_on(self.nodes[i].kh.generate_doc(peers, heads)).ok()?;
        let id = block_on(async { d.lock().await.doc_id() });
        self.names.insert(id.into(), format!("D{}", self.docs.len()));
        self.docs.push(id);
        self.collect(i);
        Some(id)
    }

    pub fn add(&mut self, i: usize, target: Identifier, who: Identifier, can: Access) -> Result<Vec<usize>, String> {
        let m = self.membered(i, target).ok_or("unknown target")?;
        let a = self.agent(i, who).ok_or("unknown agent")?;
        let r = block_on(self.nodes[i].kh.add_member(a, &m, can, &[]));
        let evs = self.collect(i);
        match r {
            Ok(_) => Ok(evs),
            Err(e) => Err(format!("{e}")),
        }
    }

    pub fn revoke(&mut self, i: usize, target: Identifier, who: Identifier, retain: bool) -> Result<Vec<usize>, String> {
        let m = self.membered(i, target).ok_or("unknown target")?;
        let r = block_on(self.nodes[i].kh.revoke_member(who, retain, &m));
        let evs = self.collect(i);
        match r {
            Ok(_) => Ok(evs),
            Err(e) => Err(format!("{e}")),
        }
    }

    pub fn encrypt(&mut self, i: usize, d: DocumentId, preds: Vec<Ref>, plain: Vec<u8>) -> Result<usize, String> {
        let r = self.next_ref();
        self.encrypt_as(i, d, r, preds, plain)
    }

    pub fn encrypt_as(&mut self, i: usize, d: DocumentId, r: Ref, preds: Vec<Ref>, plain: Vec<u8>) -> Result<usize, String> {
        let doc = self.doc(i, d).ok_or("unknown doc")?;
        let res = block_on(self.nodes[i].kh.try_encrypt_content(doc, &r, &preds, &plain));
        self.collect(i);
        let e = res.map_err(|e| format!("{e}"))?;
        let enc = e.encrypted_content().clone();
        // EncryptedContentWithUpdate carries EncryptedContent<Vec<u8>, T>
        self.contents.push(Content {
            doc: d,
            by: i,
            r,
            preds,
            plain,
            enc,
            at: self.nodes[i].has.clone(),
        });
        Ok(self.contents.len() - 1)
    }

    pub fn decrypt(&self, i: usize, c: &Content) -> Result<Vec<u8>, String> {
        let doc = self.doc(i, c.doc).ok_or("unknown doc")?;
        block_on(self.nodes[i].kh.try_decrypt_content(doc, &c.enc)).map_err(|e| format!("{e}"))
    }

    pub fn pcs_update(&mut self, i: usize, d: DocumentId) -> Result<Vec<usize>, String> {
        let doc = self.doc(i, d).ok_or("unknown doc")?;
        let r = block_on(self.nodes[i].kh.force_pcs_update(doc));
        let evs = self.collect(i);
        r.map(|_| evs).map_err(|e| format!("{e}"))
    }

    pub fn expand_prekeys(&mut self, i: usize) {
        let _ = block_on(self.nodes[i].kh.expand_prekeys());
        self.collect(i);
    }

    pub fn rotate_prekey(&mut self, i: usize, which: usize) {
        let keys: Vec<_> = block_on(async {
            let ind = self.nodes[i].kh.individual().await;
            let l = ind.lock().await;
            let st = live_prekeys(&l);
            st.into_iter().collect()
        });
        if keys.is_empty() {
            return;
        }
        let k = keys[which % keys.len()];
        let _ = block_on(self.nodes[i].kh.rotate_prekey(k));
        self.collect(i);
    }

    // ------------------------------------------------------------ communication

    pub fn deliver_raw(&self, i: usize, evs: Vec<SE>) -> BTreeSet<Dg> {
        block_on(self.nodes[i].kh.ingest_unsorted_static_events(evs))
            .iter()
            .map(|e| dg(e))
            .collect()
    }

    pub fn deliver(&mut self, i: usize, ixs: &[usize]) -> BTreeSet<Dg> {
        let evs: Vec<SE> = ixs.iter().map(|ix| self.pool[*ix].ev.clone()).collect();
        let pend = self.deliver_raw(i, evs);
        self.nodes[i].has.extend(ixs.iter().copied());
        self.collect(i);
        pend
    }

    /// Bring node `to` up to date with everything `from` has ever been given.
    pub fn sync_pool(&mut self, from: usize, to: usize) -> BTreeSet<Dg> {
        let miss: Vec<usize> = self.nodes[from].has.difference(&self.nodes[to].has).copied().collect();
        self.deliver(to, &miss)
    }

    pub fn deliver_all(&mut self) {
        for i in 0..self.nodes.len() {
            let all: Vec<usize> = (0..self.pool.len()).filter(|ix| !self.nodes[i].has.contains(ix)).collect();
            self.deliver(i, &all);
        }
    }

    /// Deliver everything to everybody, twice if new events came out of it.
    pub fn settle(&mut self) {
        self.deliver_all();
    }

    /// Sync through the API a real client uses.
    pub fn sync_api(&mut self, from: usize, to: usize) -> BTreeSet<Dg> {
        let evs = self.events_for(from, to);
        let pend = self.deliver_raw(to, evs.clone());
        for e in evs {
            let d = dg(&e);
            if let Some(ix) = self.index.get(&d) {
                self.nodes[to].has.insert(*ix);
            }
        }
        self.collect(to);
        pend
    }

    pub fn events_for(&self, from: usize, to: usize) -> Vec<SE> {
        let id = self.nodes[to].ident();
        let Some(agent) = self.agent(from, id) else { return vec![] };
        let m = block_on(self.nodes[from].kh.static_events_for_agent(&agent));
        let mut v: Vec<(Dg, SE)> = m.into_values().map(|e| (dg(&e), e)).collect();
        v.sort_by_key(|e| e.0);
        v.into_iter().map(|e| e.1).collect()
    }

    // ------------------------------------------------------------ archive

    pub fn archive(&self, i: usize) -> Archive<Ref> {
        block_on(self.nodes[i].kh.into_archive())
    }

    pub fn reload(&mut self, i: usize, a: &Archive<Ref>) -> Result<Node, String> {
        self.ctr += 1;
        let rng = ChaCha20Rng::seed_from_u64(self.seed.wrapping_mul(104729).wrapping_add(self.ctr));
        let log = Lg::new();
        let n = &self.nodes[i];
        let store = n.store.clone();
        let kh = block_on(K::try_from_archive(
            a,
            n.signer.clone(),
            store.clone(),
            log.clone(),
            Arc::new(AMutex::new(rng)),
        ))
        .map_err(|e| format!("{e}"))?;
        Ok(Node {
            name: n.name.clone(),
            kh,
            signer: n.signer.clone(),
            id: n.id,
            log,
            store,
            has: n.has.clone(),
            emitted: vec![],
            keep_log: false,
        })
    }

    // ------------------------------------------------------------ observation

    pub fn view(&self, i: usize) -> View {
        view_of(&self.nodes[i].kh, &self.nodes[i].signer, &self.names)
    }

    pub fn describe(&self, v: &MemberedView) -> String {
        let m: Vec<String> = v
            .members
            .iter()
            .map(|(id, ds)| format!("{}:{:?}", self.name(id), ds.iter().map(|d| d.1).collect::<Vec<_>>()))
            .collect();
        let t: Vec<String> = v.transitive.iter().map(|(id, a)| format!("{}:{a:?}", self.name(id))).collect();
        let c = v
            .cgka_members
            .as_ref()
            .map(|c| c.iter().map(|i| self.name(i)).collect::<Vec<_>>().join(","))
            .unwrap_or_default();
        format!("members[{}] transitive[{}] cgka[{}]", m.join(" "), t.join(" "), c)
    }
}

pub fn key_event(k: &KeyOp) -> SE {
    match k {
        KeyOp::Add(a) => StaticEvent::PrekeysExpanded(Box::new(a.as_ref().clone())),
        KeyOp::Rotate(r) => StaticEvent::PrekeyRotated(Box::new(r.as_ref().clone())),
    }
}

/// Live prekeys by the documented rule (added or rotated-to, and not rotated away).
pub fn live_prekeys(
    l: &keyhive_core::principal::individual::Individual,
) -> BTreeSet<keyhive_crypto::share_key::ShareKey> {
    let mut live = BTreeSet::new();
    let mut gone = BTreeSet::new();
    for op in l.prekey_ops().values() {
        match op.as_ref() {
            KeyOp::Add(a) => {
                live.insert(a.payload.share_key);
            }
            KeyOp::Rotate(r) => {
                live.insert(r.payload.new);
                gone.insert(r.payload.old);
            }
        }
    }
    live.difference(&gone).copied().collect()
}

pub fn cgka_has(cgka: &keyhive_core::cgka::Cgka, id: Identifier, signer: &MemorySigner) -> bool {
    let mut c = cgka.clone();
    let pk = Public.share_key();
    match block_on(c.add::<Sendable, _>(IndividualId::from(id), pk, signer)) {
        Ok(None) => true,
        Ok(Some(_)) => false,
        Err(_) => false,
    }
}

pub fn members_view(
    members: &HashMap<Identifier, NonEmpty<Arc<Signed<keyhive_core::principal::group::delegation::Delegation<Sendable, MemorySigner, Ref, Lg>>>>>,
) -> BTreeMap<Identifier, BTreeSet<(Dg, Access)>> {
    members
        .iter()
        .map(|(id, ds)| {
            (*id, ds.iter().map(|d| (raw(&Digest::hash(d.as_ref())), d.payload().can())).collect())
        })
        .collect()
}

/// The content heads of a document, as they are archived
pub fn content_heads(l: &keyhive_core::principal::document::Document<Sendable, MemorySigner, Ref, Lg>) -> BTreeSet<Ref> {
    #[derive(serde::Deserialize)]
    struct Archived {
        #[allow(unused)]
        group: keyhive_core::principal::group::GroupArchive<Ref>,
        content_heads: BTreeSet<Ref>,
    }
    bincode::serialize(&l.into_archive()).ok().and_then(|b| bincode::deserialize::<Archived>(&b).ok()).map(|a| a.content_heads).unwrap_or_default()
}

pub fn doc_view(d: &Doc, signer: &MemorySigner, names: &HashMap<Identifier, String>) -> MemberedView {
    block_on(async {
        let l = d.lock().await;
        let transitive = l.transitive_members().await.into_iter().map(|(k, v)| (k, v.1)).collect();
        let (cm, co, pcs) = match l.cgka() {
            Ok(c) => {
                let mut ms = BTreeSet::new();
                for id in names.keys() {
                    if cgka_has(c, *id, signer) {
                        ms.insert(*id);
                    }
                }
                let ops: BTreeSet<Dg> = c
                    .ops()
                    .map(|o| o.iter().flat_map(|e| e.iter().map(|x| raw(&Digest::hash(x.as_ref()))).collect::<Vec<_>>()).collect())
                    .unwrap_or_default();
                let mut settled = c.clone();
                if let Some(m) = ms.iter().next() {
                    // adding a member again changes nothing but resolves what is still concurrent
                    let _ = block_on(settled.add::<Sendable, _>(IndividualId::from(*m), Public.share_key(), signer));
                }
                (Some(ms), Some(ops), settled.try_pcs_key_hash().ok().map(|d| raw(&d)))
            }
            Err(_) => (None, None, None),
        };
        MemberedView {
            members: members_view(l.members()),
            transitive,
            revoked: l.revoked_members().into_iter().map(|(k, v)| (k, v.1)).collect(),
            dlg_heads: l.delegation_heads().keys().map(|k| raw(k)).collect(),
            rev_heads: l.revocation_heads().keys().map(|k| raw(k)).collect(),
            cgka_members: cm,
            cgka_ops: co,
            heads: content_heads(&l),
            pcs,
        }
    })
}

pub fn group_view(g: &Grp) -> MemberedView {
    block_on(async {
        let l = g.lock().await;
        let transitive = l.transitive_members().await.into_iter().map(|(k, v)| (k, v.1)).collect();
        MemberedView {
            members: members_view(l.members()),
            transitive,
            revoked: l.revoked_members().into_iter().map(|(k, v)| (k, v.1)).collect(),
            dlg_heads: l.delegation_heads().keys().map(|k| raw(k)).collect(),
            rev_heads: l.revocation_heads().keys().map(|k| raw(k)).collect(),
            cgka_members: None,
            cgka_ops: None,
            heads: BTreeSet::new(),
            pcs: None,
        }
    })
}

pub fn view_of(kh: &K, signer: &MemorySigner, names: &HashMap<Identifier, String>) -> View {
    let mut v = View::default();
    let groups: Vec<(GroupId, Grp)> =
        block_on(async { kh.groups().lock().await.iter().map(|(k, g)| (*k, g.dupe())).collect() });
    for (id, g) in groups {
        v.groups.insert(id.into(), group_view(&g));
    }
    let docs: Vec<(DocumentId, Doc)> =
        block_on(async { kh.documents().lock().await.iter().map(|(k, g)| (*k, g.dupe())).collect() });
    for (id, d) in docs {
        v.docs.insert(id.into(), doc_view(&d, signer, names));
    }
    for id in names.keys() {
        if let Some(i) = block_on(kh.get_individual(IndividualId::from(*id))) {
            let e = block_on(async {
                let l = i.lock().await;
                (
                    l.prekey_ops().values().map(|o| dg(&key_event(o))).collect::<BTreeSet<_>>(),
                    live_prekeys(&l).iter().map(|k| k.to_bytes()).collect::<BTreeSet<_>>(),
                )
            });
            v.individuals.insert(*id, e);
        }
    }
    v.pending = block_on(kh.pending_event_hashes()).iter().map(|d| raw(d)).collect();
    v
}

pub fn access_name(a: Access) -> &'static str {
    match a {
        Access::Relay => "Relay",
        Access::Read => "Read",
        Access::Edit => "Edit",
        Access::Admin => "Admin",
    }
}

#[allow(unused)]
fn _unused(_: &mut Src, _: HashSet<u8>, _: Option<CgkaOperation>, _: Option<Event<Sendable, MemorySigner, Ref, Lg>>) {}
