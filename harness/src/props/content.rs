//! C18 content opens for its readers and nobody else; C25 public access.
use crate::engine::{block_on, Case, Check, Failure, Prop, Src};
use crate::hist::{self, Cfg, Done};
use crate::model;
use crate::props::membership::nested_authority_order;
use crate::world::*;
use keyhive_core::{
    access::Access,
    event::static_event::StaticEvent,
    contact_card::ContactCard,
    principal::{
        document::id::DocumentId,
        identifier::Identifier,
        individual::{
            id::IndividualId,
            op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp},
        },
        public::Public,
    },
};
use beekem::operation::CgkaOperation;
use keyhive_crypto::{share_key::ShareKey, verifiable::Verifiable};
use std::sync::Arc;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        run: c18,
        quick: 6_000,
        thorough: 120_000,
        scripted: &[c18_removed_beside_added, c18_added_beside_removed, c18_added_beside_added, c18_removed_beside_removed],
        rule: "some content opens for a reader other than its author, and some other content stays closed for a peer that was or is a member",
        assumptions: &["peers whose own events are well-formed; hostile peers are C24's subject"],
    },
    Prop {
        id: "C25",
        run: |src, case| history(src, case, true),
        quick: 4_000,
        thorough: 120_000,
        scripted: &[],
        rule: "a stranger opens some content made while the document was public, and other content stays closed for a stranger who has every event",
        assumptions: &["peers whose own events are well-formed, but for announcements signed with the well-known key; hostile peers are C24's subject"],
    }]
}

// ---------------------------------------------------------------------------------------- C18

/// How the group key of a document differs from the document's readers, in one replica.
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Mismatch {
    /// readers that the group key leaves out
    pub missing: BTreeSet<Identifier>,
    /// holders of the group key that are no readers
    pub stale: BTreeSet<Identifier>,
}

impl Mismatch {
    fn within(&self, o: &Mismatch) -> bool {
        self.missing.is_subset(&o.missing) && self.stale.is_subset(&o.stale)
    }
}

/// The individuals with at least read access, by definition.
pub fn readers(v: &View, d: DocumentId) -> BTreeSet<Identifier> {
    model::transitive(&model::direct_map(v), d.into())
        .into_iter()
        .filter(|(id, a)| *a >= Access::Read && !v.groups.contains_key(id) && !v.docs.contains_key(id))
        .map(|(id, _)| id)
        .collect()
}

pub fn mismatch(w: &World, v: &View, d: DocumentId, creator: Identifier) -> Option<Mismatch> {
    let m = v.docs.get(&d.into())?;
    let keys = m.cgka_members.as_ref()?;
    let rs = readers(v, d);
    let mut out = Mismatch::default();
    let mut people: BTreeSet<Identifier> = w.nodes.iter().map(|n| n.ident()).collect();
    people.insert(Public.id());
    for p in people {
        // the document's own leaf belongs to whoever created it
        let has = keys.contains(&p) || (p == creator && keys.contains(&d.into()));
        match (rs.contains(&p), has) {
            (true, false) => {
                out.missing.insert(p);
            }
            // once nobody reads a document any more, its last key holder stays
            (false, true) if !rs.is_empty() => {
                out.stale.insert(p);
            }
            _ => {}
        }
    }
    Some(out)
}

/// What each event's author had received when it was made.
struct Pasts(Vec<(std::ops::Range<usize>, BTreeSet<usize>)>);

impl Pasts {
    fn of(&self, e: usize) -> Option<&BTreeSet<usize>> {
        self.0.iter().find(|(r, _)| r.contains(&e)).map(|(_, p)| p)
    }

    fn concurrent(&self, a: usize, b: usize) -> bool {
        let before = |x: usize, y: usize| self.of(y).is_none_or(|p| p.contains(&x));
        let same = self.0.iter().any(|(r, _)| r.contains(&a) && r.contains(&b));
        !same && !before(a, b) && !before(b, a)
    }

    /// Keys and membership may disagree about `id` only where changes made by peers that did not
    /// know of each other's have been merged. The kind of such a pair among the events `at`.
    fn excuse(&self, w: &World, d: DocumentId, at: &BTreeSet<usize>, id: Identifier, missing: bool) -> Option<&'static str> {
        let key = |e: &SE, add: bool| match e {
            StaticEvent::CgkaOperation(s) if DocumentId::from(*s.payload().doc_id()) == d => match s.payload() {
                CgkaOperation::Remove { id: r, .. } if !add => {
                    let r: Identifier = IndividualId::from(*r).into();
                    r == id || r == d.into()
                }
                CgkaOperation::Add { added_id, .. } if add => Identifier::from(IndividualId::from(*added_id)) == id,
                _ => false,
            },
            _ => false,
        };
        let grant = |e: &SE| matches!(e, StaticEvent::Delegated(_));
        let revoke = |e: &SE| matches!(e, StaticEvent::Revoked(_));
        let pair = |f: &dyn Fn(&SE) -> bool, g: &dyn Fn(&SE) -> bool| {
            at.iter().filter(|a| f(&w.pool[**a].ev)).any(|a| at.iter().filter(|b| g(&w.pool[**b].ev)).any(|b| self.concurrent(*a, *b)))
        };
        if missing {
            if pair(&|e| key(e, false), &grant) {
                return Some("removed-beside-added");
            }
            pair(&grant, &grant).then_some("added-beside-added")
        } else {
            if pair(&|e| key(e, true), &revoke) || pair(&grant, &revoke) {
                return Some("added-beside-removed");
            }
            pair(&revoke, &revoke).then_some("removed-beside-removed")
        }
    }
}

struct Note {
    c: usize,
    readers: BTreeSet<Identifier>,
    mis: Mismatch,
    /// C25 leaves C18's findings to C18
    public: bool,
}

fn c18(src: &mut Src, case: &mut Case) -> Check {
    history(src, case, false)
}

fn history(src: &mut Src, case: &mut Case, public: bool) -> Check {
    let n = if public { 2 + src.idx(2) } else { 3 + src.idx(2) };
    let seed = src.below(1 << 20);
    let mut w = World::new(seed, n);
    let mut strangers = public.then(|| Strangers::new(seed));
    w.introduce_all();
    let linear = src.chance(1, 2);
    case.label(if linear { "linear" } else { "concurrent" });
    let cfg = Cfg {
        linear,
        w_group: 3,
        w_doc: 3,
        w_add: 16,
        w_revoke: 8,
        w_encrypt: 14,
        w_update: 3,
        w_prekey: 2,
        w_sync: 10,
        // events of one call travel together
        w_partial: 0,
        w_restart: 1,
        nest_docs: src.chance(1, 3),
        max_groups: 3,
        max_docs: 2,
        public,
        ..Default::default()
    };
    let mut creators: BTreeMap<DocumentId, Identifier> = BTreeMap::new();
    let mut notes: Vec<Note> = vec![];
    // mostly start from a document that is shared
    if src.chance(4, 5) {
        let mut with: Vec<Identifier> = vec![];
        if public && src.chance(1, 4) {
            with.push(Public.id());
        }
        for j in 1..n {
            if src.chance(1, 2) {
                with.push(w.nodes[j].ident());
            }
        }
        if src.chance(1, 3) {
            let g = w.new_group(0, &with).expect("group");
            w.deliver_all();
            with = vec![g.into()];
        }
        if let Some(d) = w.new_doc(0, &with) {
            creators.insert(d, w.nodes[0].ident());
            case.note(format!("P0 creates D0 with co-parents {:?}; everybody hears", with.iter().map(|x| w.name(x)).collect::<Vec<_>>()));
        }
        w.deliver_all();
    }
    let mut pasts = Pasts(vec![(0..w.pool.len(), BTreeSet::new())]);
    let steps = 6 + src.idx(22);
    for _ in 0..steps {
        let i = src.idx(n);
        let mut c = cfg.clone();
        c.only = Some(i);
        let before = w.view(i);
        let mis = |w: &World, v: &View, creators: &BTreeMap<DocumentId, Identifier>| -> BTreeMap<DocumentId, Mismatch> {
            creators.iter().filter_map(|(d, cr)| mismatch(w, v, *d, *cr).map(|m| (*d, m))).collect()
        };
        let m0 = mis(&w, &before, &creators);
        let had = w.nodes[i].has.clone();
        let had_all: Vec<BTreeSet<usize>> = w.nodes.iter().map(|n| n.has.clone()).collect();
        let n0 = w.pool.len();
        let done = hist::step(src, case, &mut w, &c);
        pasts.0.push((n0..w.pool.len(), had));
        if let Done::Doc(d) = &done {
            creators.insert(DocumentId::from(*d), w.nodes[i].ident());
        }
        let local = !matches!(done, Done::Synced(..) | Done::Nothing);
        let now = w.view(i);
        if local {
            let m1 = mis(&w, &now, &creators);
            for (d, m) in &m1 {
                case.asserts += 1;
                let base = m0.get(d).cloned().unwrap_or_default();
                ensure!(
                    m.within(&base),
                    "keys-do-not-follow-members",
                    "P{i}'s own operation leaves {} with keys that do not match its readers: missing {:?}, stale {:?} (before: {:?}, {:?})",
                    w.name(&(*d).into()),
                    names(&w, &m.missing),
                    names(&w, &m.stale),
                    names(&w, &base.missing),
                    names(&w, &base.stale)
                );
            }
        }
        if let Done::Synced(from, to) = &done {
            // hearing what somebody knows is no reason for keys and members to come apart
            if before_has(&had_all[*to], &w.nodes[*from].has) && w.view(*to).pending.is_empty() {
                let theirs = mis(&w, &w.view(*from), &creators);
                for (d, m) in mis(&w, &w.view(*to), &creators) {
                    case.asserts += 1;
                    let base = theirs.get(&d).cloned().unwrap_or_default();
                    ensure!(
                        m.within(&base),
                        "learning-splits-keys-from-members",
                        "P{to} learns what P{from} knows, and now {} has keys that do not match its readers: missing {:?}, stale {:?} (P{from}: {:?}, {:?})",
                        w.name(&d.into()),
                        names(&w, &m.missing),
                        names(&w, &m.stale),
                        names(&w, &base.missing),
                        names(&w, &base.stale)
                    );
                }
            }
        }
        match &done {
            Done::AddRefused { .. } | Done::RevokeRefused { .. } => {
                case.asserts += 1;
                ensure!(linear || before == now, "refused-with-effect", "a refused call changed the peer's view");
            }
            Done::Encrypted(k) => {
                let d = w.contents[*k].doc;
                if !now.pending.is_empty() {
                    case.label("author-waits");
                    continue;
                }
                if readers(&now, d).is_empty() {
                    case.label("nobody-reads");
                    continue;
                }
                notes.push(Note {
                    c: *k,
                    readers: readers(&now, d),
                    mis: creators.get(&d).and_then(|cr| mismatch(&w, &now, d, *cr)).unwrap_or_default(),
                    public,
                });
                if let Some(s) = &mut strangers {
                    s.meet(case, &mut w, &pasts, &notes[notes.len() - 1], i, linear)?;
                }
            }
            Done::EncryptRefused { doc, why, .. } => {
                let me = w.nodes[i].ident();
                case.asserts += 1;
                let rs = readers(&before, *doc);
                let as_any = rs.contains(&Public.id());
                let ok = m0.get(doc).is_some_and(|m| m.missing.contains(&if as_any { Public.id() } else { me }));
                let waiting = !before.pending.is_empty();
                ensure!(
                    !(rs.contains(&me) || as_any) || ok || waiting,
                    "reader-cannot-encrypt",
                    "P{i} may read {}, but cannot encrypt for it: {why}",
                    w.name(&(*doc).into())
                );
            }
            _ => {}
        }
        if let Some(s) = &mut strangers {
            if src.chance(1, 5) {
                s.tamper(src, case, &mut w)?;
            }
            s.public_unchanged(case, &w)?;
        }
        // whoever has received everything the author had can open it at once
        if !notes.is_empty() && src.chance(1, 3) {
            let k = src.idx(notes.len());
            let j = src.idx(n);
            let at = w.contents[notes[k].c].at.clone();
            if at.is_subset(&w.nodes[j].has) {
                let pend = w.view(j).pending;
                if pend.is_empty() {
                    judge(case, &w, &pasts, &notes[k], j)?;
                }
            }
        }
    }
    w.deliver_all();
    let mut pend: BTreeSet<Dg> = BTreeSet::new();
    for j in 0..n {
        pend.extend(w.view(j).pending);
    }
    if !pend.is_empty() && nested_authority_order(&w, &pend) {
        case.label("excluded:nested-authority-order");
        return Ok(());
    }
    let (mut opened, mut closed) = (false, false);
    for note in &notes {
        for j in 0..n {
            let (o, c) = judge(case, &w, &pasts, note, j)?;
            opened |= o && w.contents[note.c].by != j;
            closed |= c;
        }
    }
    case.nontrivial = opened && closed;
    if let Some(s) = &mut strangers {
        for note in &notes {
            s.outside(case, &w, &pasts, note)?;
        }
        s.public_unchanged(case, &w)?;
        case.nontrivial = s.opened && s.closed;
    }
    hist::label_pool(case, &w);
    Ok(())
}

fn before_has(a: &BTreeSet<usize>, b: &BTreeSet<usize>) -> bool {
    a.is_subset(b)
}

fn off(note: &Note, id: &Identifier) -> bool {
    note.mis.missing.contains(id) || note.mis.stale.contains(id)
}

fn names(w: &World, ids: &BTreeSet<Identifier>) -> Vec<String> {
    ids.iter().map(|i| w.name(i)).collect()
}

/// (opened by a reader, kept closed for somebody who once had a grant on the document)
fn judge(case: &mut Case, w: &World, pasts: &Pasts, note: &Note, j: usize) -> Result<(bool, bool), Failure> {
    let c = &w.contents[note.c];
    let id = w.nodes[j].ident();
    let reader = note.readers.contains(&id) || note.readers.contains(&Public.id());
    let r = w.decrypt(j, c);
    case.asserts += 1;
    let who = if off(note, &id) { id } else { Public.id() };
    let off = off(note, &id) || off(note, &Public.id());
    if let Ok(p) = &r {
        ensure!(*p == c.plain, "wrong-plaintext", "content {} opens to other bytes for P{j}", note.c);
    }
    if reader == r.is_ok() {
        let formerly = !reader
            && w.pool.iter().any(|e| matches!(&e.ev, StaticEvent::Delegated(s) if s.payload().delegate == id && *s.issuer() != w.nodes[j].id.0 .0));
        return Ok((reader, formerly));
    }
    if let Some(sig) = off.then(|| pasts.excuse(w, c.doc, &c.at, who, reader)).flatten() {
        if note.public {
            case.label("excluded:merged-membership");
            return Ok((false, false));
        }
        // listed: merging leaves keys and members different
        case.raise(
            sig,
            format!(
                "content {}: P{j} {} a reader in P{}'s view, whose group key for the document {} P{j} since concurrent changes were merged; decrypting gives {:?}",
                note.c,
                if reader { "is" } else { "is not" },
                c.by,
                if reader { "leaves out" } else { "still includes" },
                r.as_ref().map(|_| "the content")
            ),
        )?;
        return Ok((false, false));
    }
    Err(Failure {
        sig: if reader { "reader-locked-out".into() } else { "opened-by-outsider".into() },
        msg: format!(
            "content {} of {} by P{}: P{j} {} a reader in the author's view, and decrypting gives {:?}",
            note.c,
            w.name(&c.doc.into()),
            c.by,
            if reader { "is" } else { "is not" },
            r
        ),
    })
}

/// One peer renounces a document while another, not having heard, adds it again: afterwards it
/// is a member, but out of the group key.
fn c18_removed_beside_added(_src: &mut Src, case: &mut Case) -> Check {
    let mut w = World::new(91, 2);
    w.introduce_all();
    let p0 = w.nodes[0].ident();
    let p1 = w.nodes[1].ident();
    let d = w.new_doc(0, &[p1]).expect("D0");
    w.deliver_all();
    let k = w.pool.len();
    let had = w.nodes[0].has.clone();
    let a = w.revoke(1, d.into(), p1, false);
    let k1 = w.pool.len();
    let b = w.add(0, d.into(), p1, Access::Read);
    let pasts = Pasts(vec![(0..k, BTreeSet::new()), (k..k1, had.clone()), (k1..w.pool.len(), had)]);
    case.note(format!("P1 revokes itself from D0: {a:?}; P0, at the same time, adds P1 to D0: {b:?}"));
    w.deliver_all();
    after_merge(case, &mut w, &pasts, d, p0, 1)
}

/// One peer adds somebody to a group while another, not having heard, removes the group from a
/// document: afterwards the newcomer is no member of the document, but in its group key.
fn c18_added_beside_removed(_src: &mut Src, case: &mut Case) -> Check {
    let mut w = World::new(92, 3);
    w.introduce_all();
    let p0 = w.nodes[0].ident();
    let (p1, p2) = (w.nodes[1].ident(), w.nodes[2].ident());
    let g = w.new_group(0, &[p1]).expect("G0");
    w.deliver_all();
    let d = w.new_doc(0, &[g.into()]).expect("D0");
    w.deliver_all();
    let k = w.pool.len();
    let had = w.nodes[0].has.clone();
    let a = w.revoke(0, d.into(), g.into(), false);
    let k1 = w.pool.len();
    let b = w.add(1, g.into(), p2, Access::Read);
    let pasts = Pasts(vec![(0..k, BTreeSet::new()), (k..k1, had.clone()), (k1..w.pool.len(), had)]);
    case.note(format!("P0 revokes G0 from D0: {a:?}; P1, at the same time, adds P2 to G0: {b:?}"));
    w.deliver_all();
    after_merge(case, &mut w, &pasts, d, p0, 2)
}

fn after_merge(case: &mut Case, w: &mut World, pasts: &Pasts, d: DocumentId, creator: Identifier, j: usize) -> Check {
    let v = w.view(0);
    let mis = mismatch(w, &v, d, creator).unwrap_or_default();
    let c = w.encrypt(0, d, vec![], vec![1, 2, 3]);
    case.note(format!("P0 encrypts to D0: {c:?}"));
    let Ok(c) = c else {
        return Err(Failure { sig: "reader-cannot-encrypt".into(), msg: format!("P0 cannot encrypt: {c:?}") });
    };
    w.deliver_all();
    let note = Note { c, readers: readers(&v, d), mis, public: false };
    judge(case, w, pasts, &note, j)?;
    Ok(())
}

/// One peer gives a group access to a document while another, not having heard, adds somebody
/// to the group: afterwards the newcomer is a member of the document, but out of its group key.
fn c18_added_beside_added(_src: &mut Src, case: &mut Case) -> Check {
    let mut w = World::new(93, 3);
    w.introduce_all();
    let p0 = w.nodes[0].ident();
    let (p1, p2) = (w.nodes[1].ident(), w.nodes[2].ident());
    let g = w.new_group(0, &[p1]).expect("G0");
    w.deliver_all();
    let d = w.new_doc(0, &[]).expect("D0");
    w.sync_pool(0, 2);
    let k = w.pool.len();
    let had = w.nodes[0].has.clone();
    let had1 = w.nodes[1].has.clone();
    let a = w.add(0, d.into(), g.into(), Access::Read);
    let k1 = w.pool.len();
    let b = w.add(1, g.into(), p2, Access::Read);
    let pasts = Pasts(vec![(0..k, BTreeSet::new()), (k..k1, had), (k1..w.pool.len(), had1)]);
    case.note(format!("P0 adds G0 to D0: {a:?}; P1, at the same time, adds P2 to G0: {b:?}"));
    w.deliver_all();
    after_merge(case, &mut w, &pasts, d, p0, 2)
}

/// Somebody is a member of a document twice, directly and through a group. One peer removes one
/// grant while another, not having heard, removes the other: afterwards they are no member, but
/// in the group key.
fn c18_removed_beside_removed(_src: &mut Src, case: &mut Case) -> Check {
    let mut w = World::new(94, 3);
    w.introduce_all();
    let p0 = w.nodes[0].ident();
    let p2 = w.nodes[2].ident();
    let g = w.new_group(1, &[]).expect("G0");
    let x = w.add(1, g.into(), p2, Access::Read);
    w.deliver_all();
    let d = w.new_doc(0, &[g.into()]).expect("D0");
    let y = w.add(0, d.into(), p2, Access::Read);
    w.deliver_all();
    let k = w.pool.len();
    let had = w.nodes[0].has.clone();
    let a = w.revoke(0, d.into(), p2, false);
    let k1 = w.pool.len();
    let b = w.revoke(1, g.into(), p2, false);
    let pasts = Pasts(vec![(0..k, BTreeSet::new()), (k..k1, had.clone()), (k1..w.pool.len(), had)]);
    case.note(format!("P2 joins G0: {x:?}, and D0: {y:?}; P0 revokes P2 from D0: {a:?}; P1, at the same time, revokes P2 from G0: {b:?}"));
    w.deliver_all();
    after_merge(case, &mut w, &pasts, d, p0, 2)
}

// ---------------------------------------------------------------------------------------- C25

/// Two peers nobody has heard of. The first only ever gets what is offered to the public agent,
/// the second every event there is.
struct Strangers {
    w: World,
    opened: bool,
    closed: bool,
    shared: Vec<SE>,
}

impl Strangers {
    fn new(seed: u64) -> Self {
        Strangers { w: World::new(seed + (1 << 21), 2), opened: false, closed: false, shared: vec![] }
    }

    /// The first stranger meets the author of some new content.
    fn meet(&mut self, case: &mut Case, w: &mut World, pasts: &Pasts, note: &Note, i: usize, linear: bool) -> Check {
        let c = &w.contents[note.c];
        let public = w.agent(i, Public.id()).expect("everybody knows the public agent");
        let evs: Vec<SE> = block_on(w.nodes[i].kh.static_events_for_agent(&public)).into_values().collect();
        self.w.deliver_raw(0, evs);
        let v = self.w.view(0);
        if !v.pending.is_empty() {
            // C08's finding; closure of what is offered is C15's subject
            case.label("stranger-waits");
            return Ok(());
        }
        let reader = note.readers.contains(&Public.id());
        let r = self.w.decrypt(0, c);
        case.asserts += 1;
        if let Ok(p) = &r {
            ensure!(*p == c.plain, "wrong-plaintext", "content {} opens to other bytes for a stranger", note.c);
        }
        if reader != r.is_ok() {
            if off(note, &Public.id()) && pasts.excuse(w, c.doc, &c.at, Public.id(), reader).is_some() {
                case.label("excluded:merged-membership");
                return Ok(());
            }
            return Err(Failure {
                sig: if reader { "public-content-closed".into() } else { "stranger-opens".into() },
                msg: format!(
                    "content {} of {}: the document is {} in P{i}'s view, and a stranger who has what P{i} offers to the public agent gets {r:?}",
                    note.c,
                    w.name(&c.doc.into()),
                    if reader { "public" } else { "not public" }
                ),
            });
        }
        self.opened |= reader;
        // found, and at the level granted
        let theirs = w.view(i);
        let level = |v: &View| model::transitive(&model::direct_map(v), c.doc.into()).get(&Public.id()).copied();
        let want = level(&theirs);
        let at_author = block_on(w.nodes[i].kh.docs_reachable_by_agent(&public)).get(&c.doc).map(|a| a.can());
        case.asserts += 2;
        ensure!(at_author == want, "public-reach", "P{i} says the public agent reaches {} with {at_author:?}, by its members it is {want:?}", w.name(&c.doc.into()));
        if want.is_some() {
            ensure!(v.docs.contains_key(&c.doc.into()), "public-not-found", "{} is public, but a stranger offered the public events has no such document", w.name(&c.doc.into()));
            if linear {
                let p0 = self.w.agent(0, Public.id()).expect("public");
                let got = block_on(self.w.nodes[0].kh.docs_reachable_by_agent(&p0)).get(&c.doc).map(|a| a.can());
                ensure!(got == want, "public-level", "the public agent has {want:?} on {}, a stranger sees {got:?}", w.name(&c.doc.into()));
            }
        }
        Ok(())
    }

    /// The second stranger has every event of everybody.
    fn outside(&mut self, case: &mut Case, w: &World, pasts: &Pasts, note: &Note) -> Check {
        if self.shared.is_empty() {
            self.shared = w.pool.iter().map(|e| e.ev.clone()).collect();
            self.w.deliver_raw(1, self.shared.clone());
        }
        if !self.w.view(1).pending.is_empty() {
            case.label("stranger-waits");
            return Ok(());
        }
        let c = &w.contents[note.c];
        let reader = note.readers.contains(&Public.id());
        let r = self.w.decrypt(1, c);
        case.asserts += 1;
        if reader != r.is_ok() {
            if off(note, &Public.id()) && pasts.excuse(w, c.doc, &c.at, Public.id(), reader).is_some() {
                case.label("excluded:merged-membership");
                return Ok(());
            }
            return Err(Failure {
                sig: if reader { "public-content-closed".into() } else { "stranger-opens".into() },
                msg: format!(
                    "content {} of {}: the document is {} in its author's view, and a stranger who has every event gets {r:?}",
                    note.c,
                    w.name(&c.doc.into()),
                    if reader { "public" } else { "not public" }
                ),
            });
        }
        self.closed |= !reader;
        Ok(())
    }

    /// Somebody uses the well-known key to announce prekeys for the public agent.
    fn tamper(&mut self, src: &mut Src, case: &mut Case, w: &mut World) -> Check {
        let new = signer_from(src.below(1000)).verifying_key().to_bytes();
        let new: ShareKey = x25519_dalek::PublicKey::from(new).into();
        let op: KeyOp = if src.chance(1, 2) {
            Arc::new(Public.signer().try_sign_sync(AddKeyOp { share_key: new }).expect("sign")).into()
        } else {
            Arc::new(Public.signer().try_sign_sync(RotateKeyOp { old: Public.share_key(), new }).expect("sign")).into()
        };
        let j = src.idx(w.nodes.len());
        let kind = src.below(3);
        case.note(format!("somebody announces {} prekey of the public agent to P{j} ({kind})", if matches!(op, KeyOp::Add(_)) { "another" } else { "a rotated" }));
        match kind {
            0 => {
                let _ = block_on(w.nodes[j].kh.receive_prekey_op(&op));
            }
            1 => {
                let _ = block_on(w.nodes[j].kh.receive_contact_card(&ContactCard::from(op)));
            }
            _ => {
                let ev: SE = match op {
                    KeyOp::Add(a) => StaticEvent::PrekeysExpanded(Box::new((*a).clone())),
                    KeyOp::Rotate(r) => StaticEvent::PrekeyRotated(Box::new((*r).clone())),
                };
                w.deliver_raw(j, vec![ev]);
            }
        }
        w.collect(j);
        Ok(())
    }

    fn public_unchanged(&self, case: &mut Case, w: &World) -> Check {
        let want: BTreeSet<ShareKey> = [Public.share_key()].into();
        for (j, n) in w.nodes.iter().enumerate() {
            let indie = block_on(n.kh.get_individual(Public.individual().id())).expect("the public agent is known");
            let got: BTreeSet<ShareKey> = block_on(async { indie.lock().await.prekeys().iter().copied().collect() });
            case.asserts += 1;
            ensure!(got == want, "public-altered", "P{j} holds {} prekeys for the public agent, not its well-known one alone", got.len());
        }
        Ok(())
    }
}
