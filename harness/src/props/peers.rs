//! C20 prekeys.
use crate::engine::{block_on, Case, Check, Prop, Src};
use crate::hist::{self, Cfg};
use crate::world::*;
use keyhive_core::{
    contact_card::ContactCard,
    event::static_event::StaticEvent,
    principal::{
        document::id::DocumentId,
        identifier::Identifier,
        individual::{
            id::IndividualId,
            op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp},
            Individual,
        },
        public::Public,
    },
    transact::{fork::Fork, merge::Merge},
};
use keyhive_crypto::{
    share_key::{ShareKey, ShareSecretKey},
    signed::Signed,
    signer::memory::MemorySigner,
    verifiable::Verifiable,
};
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        run: c20,
        quick: 6_000,
        thorough: 250_000,
        scripted: &[],
        rule: "two replicas got rotations in different orders, and at least one forged announcement was offered",
        assumptions: &["signatures are unforgeable", "share keys drawn at random differ"],
    }]
}

fn sk(seed: u64, k: usize) -> ShareSecretKey {
    let mut r = ChaCha20Rng::seed_from_u64(seed ^ ((k as u64) << 32) ^ 0x20);
    ShareSecretKey::generate(&mut r)
}

/// The live prekeys by definition: announced and not rotated away, but never none.
fn live_of(ops: &[KeyOp]) -> BTreeSet<ShareKey> {
    let mut all = BTreeSet::new();
    let mut gone = BTreeSet::new();
    for o in ops {
        all.insert(*o.new_key());
        if let KeyOp::Rotate(r) = o {
            gone.insert(r.payload().old);
        }
    }
    let live: BTreeSet<ShareKey> = all.difference(&gone).copied().collect();
    if live.is_empty() {
        all
    } else {
        live
    }
}

fn live(i: &Individual) -> BTreeSet<ShareKey> {
    i.prekeys().iter().copied().collect()
}

fn doc_id(n: u64) -> DocumentId {
    DocumentId::from(Identifier::from(signer_from(n ^ 0xd0c0).verifying_key()))
}

fn announce(signer: &MemorySigner, old: Option<ShareKey>, new: ShareKey) -> KeyOp {
    match old {
        None => KeyOp::Add(Arc::new(signer.try_sign_sync(AddKeyOp { share_key: new }).unwrap())),
        Some(old) => KeyOp::Rotate(Arc::new(signer.try_sign_sync(RotateKeyOp { old, new }).unwrap())),
    }
}

fn c20(src: &mut Src, case: &mut Case) -> Check {
    match src.weighted(&[5, 4, 3]) {
        0 => c20_state(src, case),
        1 => c20_world(src, case),
        _ => c20_card(src, case),
    }
}

/// A contact card does what the announcement in it does, whoever it is from and whatever is
/// known of them: two peers with the same past, one given cards and the other announcements.
fn c20_card(src: &mut Src, case: &mut Case) -> Check {
    case.label("card-or-announcement");
    let seed = src.below(1 << 20);
    let n = 2 + src.idx(2);
    let mut w = World::new(seed, n);
    if src.chance(1, 3) {
        w.add_device(0);
    }
    if src.chance(1, 2) {
        w.introduce_all();
    }
    let cfg = Cfg { w_outsider: 8, w_prekey: 6, w_encrypt: 0, w_update: 0, public: src.chance(1, 5), ..Default::default() };
    for _ in 0..src.idx(14) {
        hist::step(src, case, &mut w, &cfg);
    }
    let a = src.idx(n);
    let arch = w.archive(a);
    let mut twin = w.reload(a, &arch).expect("reload");
    twin.name = format!("P{a}'");
    w.nodes.push(twin);
    let b = w.nodes.len() - 1;
    case.note(format!("P{a}' is a copy of P{a}"));
    let mut promoted = false;
    let mut rotations = 0;
    for s in 0..1 + src.idx(6) {
        let mut ops: Vec<KeyOp> = w.pool.iter().filter_map(|e| key_op(&e.ev)).collect();
        for (k, o) in w.outsiders.clone().iter().enumerate() {
            let new = sk(seed, 9000 + s * 10 + k).share_key();
            let old = if !o.1.is_empty() && src.chance(1, 2) { Some(*src.pick(&o.1)) } else { None };
            ops.push(announce(&o.0, old, new));
        }
        let mut op = src.pick(&ops).clone();
        if src.chance(1, 6) {
            let stranger = signer_from(seed ^ 0x57a ^ src.below(3));
            op = announce(&stranger, if src.chance(1, 2) { Some(sk(seed, 1).share_key()) } else { None }, sk(seed, 8000 + s).share_key());
        }
        let id: Identifier = op.verifying_key().into();
        let is_group = w.group(a, keyhive_core::principal::group::id::GroupId::new(id)).is_some();
        promoted |= is_group;
        rotations += matches!(op, KeyOp::Rotate(_)) as usize;
        case.doing(format!("P{a} gets a card of {}, P{a}' the announcement in it", w.name(&id)));
        let r = block_on(w.nodes[a].kh.receive_contact_card(&ContactCard::from(op.clone())));
        let q = block_on(w.nodes[b].kh.receive_prekey_op(&op));
        case.done(format!("P{a} gets a card of {}{}, P{a}' the announcement in it", w.name(&id), if is_group { ", who has become a group" } else { "" }));
        case.asserts += 4;
        ensure!(r.is_ok() == q.is_ok(), "card-differs", "the card is {}, the announcement {}", if r.is_ok() { "taken" } else { "refused" }, if q.is_ok() { "taken" } else { "refused" });
        let (va, vb) = (w.view(a), w.view(b));
        ensure!(va == vb, "card-differs", "given a card / the announcement in it: {}", super::membership::diff(&w, &va, &vb));
        ensure!(w.archive(a) == w.archive(b), "card-differs", "what P{a} and P{a}' would store differs");
        if let Ok(i) = r {
            let got = block_on(async { i.lock().await.clone() });
            case.asserts += 1;
            ensure!(got.id() == IndividualId::from(id), "card-owner", "the individual handed out is somebody else");
            ensure!(id == Public.id() || got.prekey_ops().contains_key(&keyhive_crypto::digest::Digest::hash(&op)), "card-not-in-individual", "the individual handed out lacks the announcement of the card");
        }
        let heard = |w: &World, i: usize| -> Vec<Dg> { block_on(async { w.nodes[i].log.0.lock().await.iter().map(|e| dg(&StaticEvent::from(e.clone()))).collect() }) };
        let (ha, hb) = (heard(&w, a), heard(&w, b));
        ensure!(ha == hb, "card-announced", "a card is announced {} times, the announcement in it {} times", ha.len(), hb.len());
        w.collect(a);
        w.collect(b);
    }
    case.nontrivial = promoted || rotations > 0;
    if promoted {
        case.label("card-of-a-group");
    }
    Ok(())
}

fn key_op(e: &SE) -> Option<KeyOp> {
    match e {
        StaticEvent::PrekeysExpanded(a) => Some(KeyOp::Add(Arc::new(a.as_ref().clone()))),
        StaticEvent::PrekeyRotated(a) => Some(KeyOp::Rotate(Arc::new(a.as_ref().clone()))),
        _ => None,
    }
}

/// An announcement that is not what its issuer signed.
fn forge(src: &mut Src, victim: &MemorySigner, other: &MemorySigner, ops: &[KeyOp], key: ShareKey) -> (KeyOp, &'static str) {
    let base = src.pick(ops).clone();
    match src.idx(4) {
        0 => {
            // signed by somebody else
            let s = other.try_sign_sync(AddKeyOp { share_key: key }).unwrap();
            (KeyOp::Add(Arc::new(Signed::new(s.payload().clone(), victim.verifying_key(), *s.signature()))), "signed by another")
        }
        1 => {
            let s = other.try_sign_sync(RotateKeyOp { old: *base.new_key(), new: key }).unwrap();
            (KeyOp::Rotate(Arc::new(Signed::new(s.payload().clone(), victim.verifying_key(), *s.signature()))), "rotation signed by another")
        }
        2 => (
            // the owner's signature, on something else
            KeyOp::Rotate(Arc::new(Signed::new(
                RotateKeyOp { old: *base.new_key(), new: key },
                victim.verifying_key(),
                *base.signature(),
            ))),
            "signature of something else",
        ),
        _ => {
            let mut s = base.signature().to_bytes();
            let at = src.idx(64);
            s[at] ^= 1 << src.idx(8);
            let sig = ed25519_dalek::Signature::from_bytes(&s);
            let f = match &base {
                KeyOp::Add(a) => KeyOp::Add(Arc::new(Signed::new(AddKeyOp { share_key: key, ..a.payload().clone() }, a.issuer, sig))),
                KeyOp::Rotate(r) => KeyOp::Rotate(Arc::new(Signed::new(r.payload().clone(), r.issuer, sig))),
            };
            (f, "damaged signature")
        }
    }
}

fn c20_state(src: &mut Src, case: &mut Case) -> Check {
    case.label("state");
    let seed = src.below(1 << 24);
    let owner = signer_from(seed * 2 + 1);
    let other = signer_from(seed * 2 + 2);
    let n = match src.weighted(&[8, 3, 1]) {
        0 => 1 + src.idx(12),
        1 => 1 + src.idx(70),
        _ => 120 + src.idx(280),
    };
    let mut ops: Vec<KeyOp> = vec![];
    let mut rotations = 0;
    let few = n > 100;
    for k in 0..n {
        let new = if !ops.is_empty() && !few && src.chance(1, 12) {
            *src.pick(&ops).new_key() // announced again
        } else {
            sk(seed, k).share_key()
        };
        let old = if src.chance(1, if few { 20 } else { 2 }) {
            rotations += 1;
            Some(match src.weighted(&[6, 2, 1]) {
                0 if !ops.is_empty() => *src.pick(&ops).new_key(),
                1 => sk(seed, k + 1 + src.idx(3)).share_key(), // not announced yet
                2 => new,                                      // its own successor
                _ => sk(seed, 9000 + src.idx(4)).share_key(),
            })
        } else {
            None
        };
        ops.push(announce(&owner, old, new));
    }
    case.note(format!("{n} announcements, {rotations} of them rotations"));
    let want = live_of(&ops);
    let mut got: Vec<BTreeSet<ShareKey>> = vec![];
    let mut forgeries = 0;
    for replica in 0..2 {
        let mut order: Vec<usize> = (0..n).collect();
        src.shuffle(&mut order);
        let by_card = src.chance(1, 3);
        let mut i = if by_card {
            case.label("contact-card");
            Individual::from(ContactCard::from(ops[order[0]].clone()))
        } else {
            Individual::new(ops[order[0]].clone())
        };
        let mut known = vec![ops[order[0]].clone()];
        case.asserts += 2;
        ensure!(i.id() == IndividualId::from(Identifier::from(owner.verifying_key())), "owner", "wrong owner");
        ensure!(live(&i) == live_of(&known), "live-set", "after the first announcement");
        for (pos, k) in order.iter().enumerate().skip(1) {
            if !few && src.chance(1, 5) {
                let (f, what) = forge(src, &owner, &other, &ops, sk(seed, 7000 + pos).share_key());
                let before = i.clone();
                let r = i.receive_prekey_op(f.clone());
                forgeries += 1;
                case.label(format!("forged:{what}"));
                case.asserts += 2;
                ensure!(r.is_err(), "forgery-accepted", "announcement accepted although {what}");
                ensure!(i == before, "forgery-changed-state", "refused ({what}), but changed the state");
            }
            if !few && src.chance(1, 8) {
                // somebody else's perfectly good announcement
                let f = announce(&other, None, sk(seed, 8000 + pos).share_key());
                let before = i.clone();
                case.asserts += 1;
                ensure!(i.receive_prekey_op(f).is_err() && i == before, "foreign-accepted", "another individual's announcement accepted");
            }
            i.receive_prekey_op(ops[*k].clone()).expect("own announcement");
            known.push(ops[*k].clone());
            if !few && src.chance(1, 4) {
                i.receive_prekey_op(src.pick(&known).clone()).expect("repeated announcement");
            }
            if !few || pos % 40 == 0 {
                case.asserts += 1;
                ensure!(live(&i) == live_of(&known), "live-set", "replica {replica} after {} announcements: {} live, expected {}", pos + 1, live(&i).len(), live_of(&known).len());
            }
        }
        // restored or merged from a fork, it is the same
        match src.idx(3) {
            0 => {
                let b = bincode::serialize(&i).unwrap();
                i = bincode::deserialize(&b).expect("individual");
            }
            1 => {
                let mut f = i.fork();
                let extra = announce(&owner, None, sk(seed, 6000).share_key());
                f.receive_prekey_op(extra.clone()).unwrap();
                let mut j = i.clone();
                j.merge(f);
                known.push(extra);
                case.asserts += 1;
                ensure!(live(&j) == live_of(&known), "live-set", "after merging a fork");
                known.pop();
            }
            _ => i.rebuild(),
        }
        got.push(live(&i));
        for q in 0..4 {
            let d = doc_id(src.below(64) + q * 64);
            let p = *i.pick_prekey(d);
            case.asserts += 2;
            ensure!(want.contains(&p), "picked-retired", "picked a prekey that is not live, out of {}", want.len());
            ensure!(p == *i.pick_prekey(d), "pick-unstable", "picking twice for one document gives different prekeys");
        }
    }
    case.asserts += 3;
    ensure!(!want.is_empty() && got[0] == want, "live-set", "{} live prekeys, expected {}", got[0].len(), want.len());
    ensure!(got[0] == got[1], "diverged", "two orders of delivery give {} and {} live prekeys", got[0].len(), got[1].len());
    case.nontrivial = rotations > 0 && forgeries > 0;
    Ok(())
}

fn c20_world(src: &mut Src, case: &mut Case) -> Check {
    case.label("peers");
    let n = 2 + src.idx(2);
    let seed = src.below(1 << 20);
    let mut w = World::new(seed, n);
    let stranger = signer_from(seed ^ 0x57a);
    let mut sent: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut forgeries = 0;
    let mut rotations = 0;
    let mut cards: Vec<(usize, ContactCard)> = vec![];
    let steps = 4 + src.idx(14);
    for s in 0..steps {
        let i = src.idx(n);
        match src.weighted(&[3, 4, 4, 4, 2, 1, 1]) {
            0 => {
                w.expand_prekeys(i);
                case.note(format!("P{i} adds a prekey"));
            }
            1 => {
                w.rotate_prekey(i, src.idx(10));
                rotations += 1;
                case.note(format!("P{i} rotates a prekey"));
            }
            2 => {
                let j = src.idx(n);
                let pick: Vec<usize> = (0..w.pool.len()).filter(|x| !w.nodes[j].has.contains(x) && src.chance(1, 2)).collect();
                w.deliver(j, &pick);
                sent[j].extend(pick.iter());
                case.note(format!("P{j} receives {pick:?}"));
            }
            3 => {
                // forged in the name of a known or unknown individual
                let j = src.idx(n);
                let v = src.idx(n);
                let ops: Vec<KeyOp> = w
                    .pool
                    .iter()
                    .filter_map(|e| match &e.ev {
                        StaticEvent::PrekeysExpanded(a) if a.issuer == w.nodes[v].signer.verifying_key() => Some(KeyOp::Add(Arc::new(a.as_ref().clone()))),
                        StaticEvent::PrekeyRotated(a) if a.issuer == w.nodes[v].signer.verifying_key() => Some(KeyOp::Rotate(Arc::new(a.as_ref().clone()))),
                        _ => None,
                    })
                    .collect();
                if ops.is_empty() {
                    continue;
                }
                let victim = if src.chance(1, 5) { signer_from(seed ^ 0x777) } else { w.nodes[v].signer.clone() };
                let (f, what) = forge(src, &victim, &stranger, &ops, sk(seed, 7000 + s).share_key());
                let id = IndividualId::from(Identifier::from(f.verifying_key()));
                let before = w.view(j);
                let knew = block_on(w.nodes[j].kh.get_individual(id)).is_some();
                case.note(format!("P{j} is offered a forged announcement of {} ({what})", w.name(&id.into())));
                case.label(format!("forged:{what}"));
                forgeries += 1;
                match src.idx(3) {
                    0 => {
                        w.deliver_raw(j, vec![key_event(&f)]);
                    }
                    1 => {
                        let r = block_on(w.nodes[j].kh.receive_prekey_op(&f));
                        case.asserts += 1;
                        ensure!(r.is_err(), "forgery-accepted", "receive_prekey_op accepted an announcement {what}");
                    }
                    _ => {
                        let r = block_on(w.nodes[j].kh.receive_contact_card(&ContactCard::from(f.clone())));
                        case.asserts += 1;
                        ensure!(r.is_err(), "forged-card-accepted", "receive_contact_card accepted a card {what}");
                    }
                }
                case.asserts += 3;
                ensure!(w.view(j) == before, "forgery-changed-state", "a forged announcement ({what}) changed P{j}");
                ensure!(block_on(w.nodes[j].kh.get_individual(id)).is_some() == knew, "forgery-introduced", "P{j} knows somebody from a forgery only");
                let said = block_on(async { w.nodes[j].log.0.lock().await.len() });
                ensure!(said == 0 || w.nodes[j].keep_log, "forgery-announced", "P{j}'s listener heard of a forged announcement");
            }
            4 => {
                let card = if src.chance(1, 2) {
                    block_on(w.nodes[i].kh.contact_card()).expect("card")
                } else {
                    block_on(w.nodes[i].kh.get_existing_contact_card())
                };
                w.collect(i);
                let d = dg(&key_event(card.op()));
                case.asserts += 2;
                ensure!(card.id() == w.nodes[i].id, "card-owner", "the card names somebody else");
                ensure!(w.index.contains_key(&d), "card-unannounced", "the card holds an announcement the listener never heard");
                cards.push((w.index[&d], card));
                case.note(format!("P{i} makes a contact card"));
            }
            5 => {
                if let Some((ix, card)) = cards.last().cloned() {
                    let j = src.idx(n);
                    if w.nodes[j].id != card.id() {
                        let r = block_on(w.nodes[j].kh.receive_contact_card(&card));
                        case.asserts += 1;
                        ensure!(r.is_ok(), "card-refused", "P{j} refused a contact card");
                        w.nodes[j].has.insert(ix);
                        w.collect(j);
                        case.label("contact-card");
                        case.note(format!("P{j} receives the last contact card"));
                    }
                }
            }
            _ => {
                let a = w.archive(i);
                let has = w.nodes[i].has.clone();
                let mut node = w.reload(i, &a).expect("reload");
                node.has = has;
                w.nodes[i] = node;
                case.note(format!("P{i} restarts"));
            }
        }
    }
    // at any time: exactly what each peer received counts
    for settle in 0..2 {
        if settle == 1 {
            w.deliver_all();
        }
        for j in 0..n {
            let mut per: BTreeMap<Identifier, Vec<KeyOp>> = BTreeMap::new();
            for x in w.nodes[j].has.clone() {
                let op = match &w.pool[x].ev {
                    StaticEvent::PrekeysExpanded(a) => KeyOp::Add(Arc::new(a.as_ref().clone())),
                    StaticEvent::PrekeyRotated(a) => KeyOp::Rotate(Arc::new(a.as_ref().clone())),
                    _ => continue,
                };
                per.entry(op.verifying_key().into()).or_default().push(op);
            }
            for i in 0..n {
                let id = w.nodes[i].ident();
                let got = block_on(async {
                    match w.nodes[j].kh.get_individual(w.nodes[i].id).await {
                        Some(x) => Some(x.lock().await.clone()),
                        None => None,
                    }
                });
                let Some(ops) = per.get(&id) else {
                    case.asserts += 1;
                    ensure!(got.is_none(), "unannounced-individual", "P{j} knows P{i} without any announcement");
                    continue;
                };
                let Some(got) = got else {
                    return Err(crate::engine::Failure { sig: "individual-unknown".into(), msg: format!("P{j} received announcements of P{i} and does not know it") });
                };
                let want = live_of(ops);
                case.asserts += 2;
                ensure!(live(&got) == want, "live-set", "P{j} holds {} live prekeys of P{i}, announced are {}", live(&got).len(), want.len());
                let p = *got.pick_prekey(doc_id(src.below(100)));
                ensure!(want.contains(&p), "picked-retired", "picked a prekey that is not live");
                if i == j {
                    let d = doc_id(src.below(100));
                    let own = block_on(async { w.nodes[j].kh.active().lock().await.pick_prekey(d).await });
                    let held: BTreeMap<ShareKey, ShareSecretKey> =
                        bincode::deserialize(&block_on(w.nodes[j].kh.export_prekey_secrets()).expect("export")).expect("secrets");
                    case.asserts += 2;
                    ensure!(want.contains(&own), "picked-retired", "the owner picked a prekey that is not live");
                    // whoever still only knows an old one can use it, too
                    ensure!(
                        ops.iter().all(|o| held.get(o.new_key()).is_some_and(|s| s.share_key() == *o.new_key())),
                        "secret-lost",
                        "P{j} announced a prekey whose secret it does not hold"
                    );
                }
            }
        }
    }
    let _ = sent;
    case.nontrivial = rotations > 0 && forgeries > 0;
    Ok(())
}
