//! C28: a call that fails, or only asks, changes nothing.
use super::membership::{accepted, craft_attack, diff};
use crate::engine::*;
use crate::hist::{self, Cfg};
use crate::world::*;
use keyhive_core::{
    archive::Archive,
    contact_card::ContactCard,
    event::static_event::StaticEvent,
    principal::{
        group::id::GroupId,
        identifier::Identifier,
        individual::{
            id::IndividualId,
            op::KeyOp,
        },
        membered::Membered,
        peer::Peer,
        public::Public,
    },
};
use beekem::encrypted::EncryptedContent;
use keyhive_crypto::{signed::Signed, verifiable::Verifiable};
use std::collections::BTreeSet;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        run: c28,
        quick: 4000,
        thorough: 150000,
        scripted: &[],
        rule: "at least three different kinds of calls failed, on a peer that had a group or document",
        assumptions: &["signers and randomness do not fail; histories of at most 20 operations by at most 4 peers and one second device; no cyclic memberships; which group keys a peer has worked out so far is not counted as a change"],
    }]
}

/// All that a peer knows, as far as it can be asked for.
#[derive(PartialEq)]
struct Snap {
    view: View,
    archive: Archive<Ref>,
}

fn snap(w: &World, i: usize) -> Snap {
    Snap { view: w.view(i), archive: w.archive(i) }
}

fn said(w: &World, i: usize) -> usize {
    block_on(async { w.nodes[i].log.0.lock().await.len() })
}

/// `deep` compares what is stored, too, and not only what can be seen.
fn unchanged(w: &World, case: &mut Case, i: usize, before: &Snap, deep: bool, what: &str, how: &str) -> Check {
    case.asserts += 3;
    let after = snap(w, i);
    let (mut a, mut b) = (before.view.clone(), after.view.clone());
    if !deep {
        for v in [&mut a, &mut b] {
            for d in v.docs.values_mut() {
                d.pcs = None;
            }
        }
    }
    if a != b {
        return case.raise(&format!("{how}-changed-state:{what}"), format!("P{i}: {}", diff(w, &a, &b)));
    }
    if deep && before.archive != after.archive {
        return case.raise(&format!("{how}-changed-archive:{what}"), format!("what P{i} would store differs"));
    }
    let n = said(w, i);
    if n != 0 && !w.nodes[i].keep_log {
        return case.raise(&format!("{how}-announced:{what}"), format!("P{i} announced {n} events"));
    }
    Ok(())
}

fn key_op(e: &SE) -> Option<KeyOp> {
    match e {
        StaticEvent::PrekeysExpanded(a) => Some(KeyOp::Add(Arc::new(a.as_ref().clone()))),
        StaticEvent::PrekeyRotated(a) => Some(KeyOp::Rotate(Arc::new(a.as_ref().clone()))),
        _ => None,
    }
}

/// The same event with a signature that is not one of it.
fn forged(src: &mut Src, e: &SE) -> SE {
    let at = src.idx(64);
    let bit = 1u8 << src.idx(8);
    fn bad<T: serde::Serialize + std::fmt::Debug + Clone>(s: &Signed<T>, at: usize, bit: u8) -> Signed<T> {
        let mut b = s.signature().to_bytes();
        b[at] ^= bit;
        Signed::new(s.payload().clone(), *s.issuer(), ed25519_dalek::Signature::from_bytes(&b))
    }
    match e {
        StaticEvent::PrekeysExpanded(s) => StaticEvent::PrekeysExpanded(Box::new(bad(s, at, bit))),
        StaticEvent::PrekeyRotated(s) => StaticEvent::PrekeyRotated(Box::new(bad(s, at, bit))),
        StaticEvent::CgkaOperation(s) => StaticEvent::CgkaOperation(Box::new(bad(s, at, bit))),
        StaticEvent::Delegated(s) => StaticEvent::Delegated(bad(s, at, bit)),
        StaticEvent::Revoked(s) => StaticEvent::Revoked(bad(s, at, bit)),
    }
}

/// A ciphertext that nobody made.
fn damaged(src: &mut Src, w: &World, c: &Content) -> EncryptedContent<Vec<u8>, Ref> {
    let mut e = c.enc.clone();
    match src.idx(4) {
        0 if !e.ciphertext.is_empty() => {
            let at = src.idx(e.ciphertext.len());
            e.ciphertext[at] ^= 1 << src.idx(8);
        }
        1 => e.ciphertext.truncate(src.idx(e.ciphertext.len() + 1)),
        2 => {
            let o = src.pick(&w.contents);
            e.pcs_key_hash = o.enc.pcs_key_hash;
            e.pcs_update_op_hash = o.enc.pcs_update_op_hash;
            e.ciphertext.push(1);
        }
        _ => {
            let o = src.pick(&w.contents);
            e.nonce = o.enc.nonce;
            e.ciphertext.push(7);
        }
    }
    e
}

fn c28(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(3);
    let mut w = World::new(src.below(1 << 20), n);
    let cfg = Cfg {
        nest_docs: src.chance(1, 3),
        public: src.chance(1, 4),
        w_doc: 6,
        w_revoke: 8,
        w_prekey: 3,
        w_partial: 8,
        w_encrypt: 6,
        w_restart: if src.chance(1, 4) { 2 } else { 0 },
        w_outsider: if src.chance(1, 4) { 4 } else { 0 },
        able_pct: [0, 50, 80][src.idx(3)],
        ..Default::default()
    };
    if src.chance(1, 4) {
        w.add_device(0);
    }
    if src.chance(3, 4) {
        w.introduce_all();
    }
    let steps = 3 + src.idx(18);
    let mut failed: BTreeSet<&'static str> = BTreeSet::new();
    let mut something = false;
    for _ in 0..steps {
        hist::step(src, case, &mut w, &cfg);
        for _ in 0..src.idx(3) {
            let i = src.idx(w.nodes.len());
            if let Some(what) = probe(src, case, &mut w, i, &cfg)? {
                case.label(format!("failed:{what}"));
                failed.insert(what);
                something |= !w.known_membereds(i).is_empty();
            }
        }
    }
    case.nontrivial = failed.len() >= 3 && something;
    Ok(())
}

/// One call; which one it was, if it failed.
fn probe(src: &mut Src, case: &mut Case, w: &mut World, i: usize, cfg: &Cfg) -> Result<Option<&'static str>, Failure> {
    let before = snap(w, i);
    let ms = w.known_membereds(i);
    let ds = w.known_docs(i);
    match src.weighted(&[5, 6, 3, 2, 4, 3, 5, 4, 2, 2, 2, 4, 2]) {
        // grants
        0 if !ms.is_empty() => {
            let t = *src.pick(&ms);
            let cs = hist::candidates(w, i, cfg);
            if cs.is_empty() {
                return Ok(None);
            }
            let c = *src.pick(&cs);
            let can = hist::access(src);
            if t == c || hist::would_cycle(w, t, c) {
                return Ok(None);
            }
            let (Some(m), Some(a)) = (w.membered(i, t), w.agent(i, c)) else { return Ok(None) };
            case.doing(format!("P{i} adds {} to {} as {can:?}", w.name(&c), w.name(&t)));
            let r = block_on(w.nodes[i].kh.add_member(a, &m, can, &[])).map(|_| ()).map_err(|e| format!("{e}"));
            case.done(format!("P{i} adds {} to {} as {can:?} -> {r:?}", w.name(&c), w.name(&t)));
            outcome(w, case, i, &before, r, true, "add_member")
        }
        // revocations of members and others
        1 if !ms.is_empty() => {
            let t = *src.pick(&ms);
            let mut who: Vec<Identifier> = hist::membered_view(w, i, t).map(|v| v.members.keys().copied().collect()).unwrap_or_default();
            if src.chance(1, 2) {
                who.extend(w.nodes.iter().map(|n| n.ident()));
                who.extend(w.groups.iter().map(|g| Identifier::from(*g)));
                who.extend(w.docs.iter().map(|g| Identifier::from(*g)));
                who.push(signer_from(w.seed ^ 0x1234567).verifying_key().into());
                who.push(Public.id());
            }
            who.sort_by_key(|x| w.name(x));
            if who.is_empty() {
                return Ok(None);
            }
            let x = *src.pick(&who);
            let retain = src.chance(1, 3);
            let Some(m) = w.membered(i, t) else { return Ok(None) };
            case.doing(format!("P{i} revokes {} from {} (retain={retain})", w.name(&x), w.name(&t)));
            let r = block_on(w.nodes[i].kh.revoke_member(x, retain, &m));
            // nobody to revoke: succeeds without doing anything
            let empty = matches!(&r, Ok(u) if u.revocations().is_empty() && u.redelegations().is_empty() && u.cgka_ops().is_empty());
            let r = r.map(|_| ()).map_err(|e| format!("{e}"));
            case.done(format!("P{i} revokes {} from {} (retain={retain}) -> {r:?}", w.name(&x), w.name(&t)));
            if empty {
                unchanged(w, case, i, &before, true, "revoke_member", "idle")?;
                return Ok(Some("revoke_nobody"));
            }
            outcome(w, case, i, &before, r, true, "revoke_member")
        }
        2 if !ds.is_empty() => {
            let d = *src.pick(&ds);
            let Some(doc) = w.doc(i, d) else { return Ok(None) };
            let plain = src.bytes(60);
            let r = w.next_ref();
            case.doing(format!("P{i} encrypts to {}", w.name(&d.into())));
            let res = block_on(w.nodes[i].kh.try_encrypt_content(doc, &r, &vec![], &plain));
            let at = w.nodes[i].has.clone();
            let res = match res {
                Ok(e) => {
                    let enc = e.encrypted_content().clone();
                    w.collect(i);
                    w.contents.push(Content { doc: d, by: i, r, preds: vec![], plain, enc, at });
                    Ok(())
                }
                Err(e) => Err(format!("{e}")),
            };
            case.done(format!("P{i} encrypts to {} -> {res:?}", w.name(&d.into())));
            // what waits to be replayed may have been
            outcome(w, case, i, &before, res, false, "try_encrypt_content")
        }
        3 if !ds.is_empty() => {
            let d = *src.pick(&ds);
            let Some(doc) = w.doc(i, d) else { return Ok(None) };
            case.doing(format!("P{i} updates the key of {}", w.name(&d.into())));
            let r = block_on(w.nodes[i].kh.force_pcs_update(doc)).map(|_| ()).map_err(|e| format!("{e}"));
            case.done(format!("P{i} updates the key of {} -> {r:?}", w.name(&d.into())));
            outcome(w, case, i, &before, r, false, "force_pcs_update")
        }
        // reading, ciphertexts of this document, of others, and of nobody
        4 if !ds.is_empty() && !w.contents.is_empty() => {
            let c = src.pick(&w.contents).clone();
            let d = if src.chance(3, 4) { c.doc } else { *src.pick(&ds) };
            let Some(doc) = w.doc(i, d) else { return Ok(None) };
            let bad = src.chance(1, 2);
            let enc = if bad { damaged(src, w, &c) } else { c.enc.clone() };
            case.note(format!("P{i} reads a {} of {} as one of {}", if bad { "damaged ciphertext" } else { "ciphertext" }, w.name(&c.doc.into()), w.name(&d.into())));
            let causal = src.chance(1, 2);
            let r = if causal {
                block_on(w.nodes[i].kh.try_causal_decrypt_content(doc, &enc)).map(|_| ()).map_err(|e| format!("{e}"))
            } else {
                block_on(w.nodes[i].kh.try_decrypt_content(doc, &enc)).map(|_| ()).map_err(|e| format!("{e}"))
            };
            // reading changes nothing that can be seen, whether it works or not
            let what = if causal { "try_causal_decrypt_content" } else { "try_decrypt_content" };
            unchanged(w, case, i, &before, false, what, if r.is_ok() { "reading" } else { "failed" })?;
            Ok(r.err().map(|_| what))
        }
        // events that are too early, one at a time
        5 => {
            let miss: Vec<usize> = (0..w.pool.len()).filter(|x| !w.nodes[i].has.contains(x)).collect();
            if miss.is_empty() {
                return Ok(None);
            }
            let x = *src.pick(&miss);
            let e = w.pool[x].ev.clone();
            case.doing(format!("P{i} is given event #{x} ({}) alone", kind(&e)));
            let r = block_on(w.nodes[i].kh.receive_static_event(e)).map_err(|e| format!("{e}"));
            case.done(format!("P{i} is given event #{x} ({}) alone -> {r:?}", kind(&w.pool[x].ev)));
            if r.is_ok() {
                w.nodes[i].has.insert(x);
            }
            outcome(w, case, i, &before, r, true, "receive_static_event")
        }
        // events it has already
        6 => {
            let v = &before.view;
            let have: Vec<usize> = w.nodes[i].has.iter().copied().filter(|x| !v.pending.contains(&w.pool[*x].d)).collect();
            if have.is_empty() {
                return Ok(None);
            }
            let x = *src.pick(&have);
            let e = w.pool[x].ev.clone();
            let k = kind(&e);
            case.note(format!("P{i} is given event #{x} ({k}) again"));
            let r = block_on(w.nodes[i].kh.receive_static_event(e)).map_err(|e| format!("{e}"));
            case.asserts += 1;
            if let Err(e) = &r {
                return case.raise("known-event-refused", format!("P{i} refuses event #{x} ({k}), which it has accepted: {e}")).map(|_| None);
            }
            unchanged(w, case, i, &before, true, k, "again")?;
            Ok(None)
        }
        // events that nobody was entitled to, or that nobody signed
        7 => {
            let (e, what) = if src.chance(1, 2) && !w.pool.is_empty() {
                let x = src.idx(w.pool.len());
                let e = w.pool[x].ev.clone();
                (forged(src, &e), format!("#{x} ({}) with another signature", kind(&e)))
            } else {
                let l = accepted(w, i);
                let m = src.idx(w.nodes.len());
                match craft_attack(src, w, m, &l) {
                    Some((e, _, what)) => (e, what),
                    None => return Ok(None),
                }
            };
            let k = kind(&e);
            case.doing(format!("P{i} is given: {what}"));
            let r = block_on(w.nodes[i].kh.receive_static_event(e)).map_err(|e| format!("{e}"));
            case.done(format!("P{i} is given: {what} -> {r:?}"));
            if r.is_ok() && k != "delegated" && k != "revoked" {
                return Ok(None); // prekeys of the public agent are ignored
            }
            // an accepted grant or revocation is for C10 to judge; it must not reach the history
            case.asserts += 1;
            ensure!(r.is_err(), "unentitled-accepted", "P{i} accepted {what}");
            outcome(w, case, i, &before, r, true, "receive_unentitled")
        }
        // a card with a signature that is none
        8 => {
            let ops: Vec<KeyOp> = w.pool.iter().filter_map(|e| key_op(&forged(src, &e.ev))).collect();
            if ops.is_empty() {
                return Ok(None);
            }
            let card = ContactCard::from(src.pick(&ops).clone());
            case.note(format!("P{i} is given a forged contact card of {}", w.name(&card.id().into())));
            let r = block_on(w.nodes[i].kh.receive_contact_card(&card)).map(|_| ()).map_err(|e| format!("{e}"));
            case.asserts += 1;
            ensure!(r.is_err(), "forged-card-accepted", "P{i} accepted a forged contact card");
            outcome(w, case, i, &before, r, true, "receive_contact_card")
        }
        // secrets that are none
        9 => {
            let mut b = block_on(w.nodes[src.idx(w.nodes.len())].kh.export_prekey_secrets()).expect("export");
            match src.idx(3) {
                0 => b.truncate(src.idx(b.len())),
                1 => b = src.bytes(40),
                _ => {
                    let at = src.idx(8);
                    b[at] ^= 0x81;
                }
            }
            case.doing(format!("P{i} imports {} damaged bytes of secrets", b.len()));
            let r = block_on(w.nodes[i].kh.import_prekey_secrets(&b)).map(|_| ()).map_err(|e| format!("{e}"));
            case.done(format!("P{i} imports damaged secrets -> {r:?}"));
            if r.is_ok() {
                // eight zero bytes are a set of secrets, an empty one
                w.collect(i);
                return Ok(None);
            }
            outcome(w, case, i, &before, r, true, "import_prekey_secrets")
        }
        // making known what is known
        10 => {
            let known: Vec<Identifier> = {
                let mut k: Vec<Identifier> = before.view.individuals.keys().chain(before.view.groups.keys()).chain(before.view.docs.keys()).copied().collect();
                k.sort_by_key(|x| w.name(x));
                k
            };
            if known.is_empty() {
                return Ok(None);
            }
            let id = *src.pick(&known);
            let Some(p) = block_on(w.nodes[i].kh.get_peer(id)) else { return Ok(None) };
            case.note(format!("P{i} registers {} again", w.name(&id)));
            let other = (0..w.nodes.len()).find(|j| *j != i).unwrap();
            let mut new = vec![block_on(w.nodes[i].kh.register_peer(p.clone()))];
            if let Some(q) = block_on(w.nodes[other].kh.get_peer(id)) {
                new.push(block_on(w.nodes[i].kh.register_peer(q)));
            }
            if let Peer::Individual(_, indie) = p {
                new.push(block_on(w.nodes[i].kh.register_individual(indie)));
            }
            case.asserts += 1;
            ensure!(!new.contains(&true), "registered-twice", "P{i} takes {} for new", w.name(&id));
            unchanged(w, case, i, &before, true, "register", "again")?;
            Ok(None)
        }
        // questions
        11 => {
            case.note(format!("P{i} is asked everything"));
            ask(src, w, i);
            unchanged(w, case, i, &before, true, "query", "asking")?;
            case.label("asked");
            Ok(None)
        }
        // new groups and documents, perhaps with somebody it knows little of
        _ => {
            let cs: Vec<Identifier> = hist::candidates(w, i, cfg).into_iter().filter(|c| *c != w.nodes[i].ident()).collect();
            let co: Vec<Identifier> = if cs.is_empty() { vec![] } else { (0..src.idx(3)).map(|_| *src.pick(&cs)).collect() };
            let mut peers = vec![];
            for c in &co {
                if let Some(p) = block_on(w.nodes[i].kh.get_peer(*c)) {
                    peers.push(p);
                }
            }
            let names: Vec<String> = co.iter().map(|c| w.name(c)).collect();
            let r = w.next_ref();
            case.doing(format!("P{i} creates a document with {names:?}"));
            let res = block_on(w.nodes[i].kh.generate_doc(peers, nonempty::NonEmpty { head: r, tail: vec![] }));
            let res = match res {
                Ok(d) => {
                    let id = block_on(async { d.lock().await.doc_id() });
                    w.names.insert(id.into(), format!("D{}", w.docs.len()));
                    w.docs.push(id);
                    Ok(())
                }
                Err(e) => Err(format!("{e}")),
            };
            case.done(format!("P{i} creates a document with {names:?} -> {res:?}"));
            outcome(w, case, i, &before, res, true, "generate_doc")
        }
    }
}

fn outcome(w: &mut World, case: &mut Case, i: usize, before: &Snap, r: Result<(), String>, deep: bool, what: &'static str) -> Result<Option<&'static str>, Failure> {
    match r {
        Ok(()) => {
            w.collect(i);
            Ok(None)
        }
        Err(_) => {
            unchanged(w, case, i, before, deep, what, "failed")?;
            Ok(Some(what))
        }
    }
}

/// Everything that can be asked of a peer.
fn ask(src: &mut Src, w: &World, i: usize) {
    let kh = &w.nodes[i].kh;
    let mut ids: Vec<Identifier> = w.names.keys().copied().collect();
    ids.sort_by_key(|x| w.name(x));
    ids.push(Public.id());
    ids.push(signer_from(w.seed ^ 0x1234567).verifying_key().into());
    let ms: Vec<Membered<_, _, _, _>> = w.known_membereds(i).into_iter().filter_map(|t| w.membered(i, t)).collect();
    block_on(async {
        let _ = kh.stats().await;
        let _ = kh.pending_event_hashes().await;
        let _ = kh.reachable_docs().await;
        let _ = kh.get_existing_contact_card().await;
        let _ = kh.export_prekey_secrets().await;
        let _ = kh.into_archive().await;
        let _ = kh.membership_ops_for_all_agents().await;
        let _ = kh.reachable_prekey_ops_for_all_agents().await;
        let _ = kh.cgka_ops_for_all_agents().await;
        let _ = kh.agent_id().await;
        let _ = kh.try_sign(7u64).await;
        for m in ms {
            let _ = kh.reachable_members(m).await;
        }
    });
    for id in ids {
        block_on(async {
            let _ = kh.get_individual(IndividualId::from(id)).await;
            let _ = kh.get_group(GroupId::new(id)).await;
            let _ = kh.get_peer(id).await;
        });
        if let Some(d) = w.doc(i, keyhive_core::principal::document::id::DocumentId::from(id)) {
            let _ = block_on(kh.cgka_ops_for_doc(&keyhive_core::principal::document::id::DocumentId::from(id)));
            let _ = d;
        }
        if src.chance(1, 2) {
            continue;
        }
        if let Some(a) = w.agent(i, id) {
            block_on(async {
                let _ = kh.events_for_agent(&a).await;
                let _ = kh.static_events_for_agent(&a).await;
                let _ = kh.cgka_ops_reachable_by_agent(&a).await;
                let _ = kh.membership_ops_for_agent(&a).await;
                let _ = kh.reachable_prekey_ops_for_agent(&a).await;
                let _ = kh.docs_reachable_by_agent(&a).await;
                let _ = kh.membered_reachable_by_agent(&a).await;
            });
        }
    }
}

