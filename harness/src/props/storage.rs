//! What survives being stored, forked, logged and handed to another device: C16, C17, C21, C27.
use super::membership::{accepted, craft_attack, diff, nested_authority_order};
use crate::engine::*;
use crate::hist::{self, Cfg};
use crate::world::*;
use beekem::operation::CgkaOperation;
use dupe::Dupe;
use futures::lock::Mutex as AMutex;
use keyhive_core::{
    access::Access,
    archive::Archive,
    event::static_event::StaticEvent,
    principal::{document::id::DocumentId, identifier::Identifier, individual::id::IndividualId},
    transact::transact_async,
};
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    const FIN: &[&str] = &["finite histories of at most 30 operations by at most 5 peers; no cyclic memberships; the client keeps the ciphertexts itself and hands the same ciphertext store to the restored peer or fork"];
    vec![
        Prop {
            id: "C16",
            run: c16,
            quick: 4000,
            thorough: 150000,
            scripted: &[],
            rule: "the stored state had a group or document, and a revocation, a pending event, a decryptable content or a nested membership; or an archive was merged into a peer that already had other events",
            assumptions: FIN,
        },
        Prop {
            id: "C17",
            run: c17,
            quick: 5000,
            thorough: 150000,
            scripted: &[],
            rule: "the fork did something inside the transaction",
            assumptions: FIN,
        },
        Prop {
            id: "C21",
            run: c21,
            quick: 6000,
            thorough: 150000,
            scripted: &[],
            rule: "the peer announced at least 3 events beyond its prekeys, and received events of others or restarted",
            assumptions: FIN,
        },
        Prop {
            id: "C27",
            run: c27,
            quick: 6000,
            thorough: 150000,
            scripted: &[],
            rule: "an invitation addressed to a prekey of the other device arrived before its secret was imported, or a content was opened with imported secrets",
            assumptions: FIN,
        },
    ]
}

/// The parts of a view that two peers doing the same with different randomness have in common
/// (their operations differ in the order in which they list what they know, too).
fn blur(v: &View) -> View {
    let mut v = v.clone();
    for m in v.docs.values_mut().chain(v.groups.values_mut()) {
        m.dlg_heads.clear();
        m.rev_heads.clear();
        for gs in m.members.values_mut() {
            let mut acc: Vec<Access> = gs.iter().map(|g| g.1).collect();
            acc.sort();
            *gs = acc.into_iter().enumerate().map(|(k, a)| ([k as u8; 32], a)).collect();
        }
    }
    for d in v.docs.values_mut() {
        d.cgka_ops = None;
        d.pcs = None;
    }
    v.individuals.clear();
    v.pending.clear();
    v
}

fn no_pcs(v: &View) -> View {
    let mut v = v.clone();
    for d in v.docs.values_mut() {
        d.pcs = None;
    }
    v
}

fn secrets(w: &World, i: usize) -> BTreeMap<ShareKey, ShareSecretKey> {
    let b = block_on(w.nodes[i].kh.export_prekey_secrets()).expect("export");
    bincode::deserialize(&b).expect("exported secrets decode")
}

fn offers(w: &World, i: usize) -> BTreeMap<Identifier, BTreeSet<Dg>> {
    let mut out = BTreeMap::new();
    for id in w.names.keys() {
        if let Some(a) = w.agent(i, *id) {
            let evs = block_on(w.nodes[i].kh.static_events_for_agent(&a));
            out.insert(*id, evs.values().map(dg).collect());
        }
    }
    out
}

fn readable(w: &World, i: usize) -> Vec<Option<Vec<u8>>> {
    w.contents.iter().map(|c| w.decrypt(i, c).ok()).collect()
}

fn through_bytes(a: &Archive<Ref>) -> Result<Archive<Ref>, Failure> {
    let bytes = bincode::serialize(a).map_err(|e| Failure { sig: "archive-encode".into(), msg: format!("{e}") })?;
    bincode::deserialize(&bytes).map_err(|e| Failure { sig: "archive-decode".into(), msg: format!("{e}") })
}

fn c16(src: &mut Src, case: &mut Case) -> Check {
    if src.chance(1, 4) {
        return c16_merge(src, case);
    }
    let n = 2 + src.idx(3);
    let mut w = World::new(src.below(1 << 20), n);
    if src.chance(2, 3) {
        w.introduce_all();
    }
    let cfg = Cfg {
        nest_docs: src.chance(1, 4),
        public: src.chance(1, 4),
        w_prekey: 4,
        w_partial: 6,
        w_encrypt: 6,
        linear: src.chance(1, 3),
        w_outsider: if src.chance(1, 5) { 5 } else { 0 },
        ..Default::default()
    };
    let steps = 2 + src.idx(20);
    for _ in 0..steps {
        hist::step(src, case, &mut w, &cfg);
    }
    let i = src.idx(n);
    let mut a = w.archive(i);
    if src.chance(2, 3) {
        let b = through_bytes(&a)?;
        ensure!(b == a, "archive-bytes", "the archive decoded from its encoding is not the same archive");
        a = b;
    }
    let before = w.view(i);
    let mut node = match w.reload(i, &a) {
        Ok(n) => n,
        Err(e) => return fail("restore-failed", format!("P{i} cannot be restored from its own archive: {e}")),
    };
    node.name = format!("P{i}*");
    w.nodes.push(node);
    let r = n;
    case.note(format!("P{i} is restored from its archive as P{i}*"));

    // The same state.
    case.asserts += 6;
    let after = w.view(r);
    ensure!(before == after, "restored-differs", "the restored peer differs from the original: {}", diff(&w, &before, &after));
    ensure!(w.view(i) == before, "archiving-changed", "archiving changed the original: {}", diff(&w, &before, &w.view(i)));
    ensure!(w.nodes[r].kh.id() == w.nodes[i].kh.id(), "identity", "the restored peer has another identity");
    let (s1, s2) = (block_on(w.nodes[i].kh.stats()), block_on(w.nodes[r].kh.stats()));
    ensure!(format!("{s1:?}") == format!("{s2:?}"), "stats-differ", "statistics differ: {s1:?} / {s2:?}");
    ensure!(secrets(&w, i) == secrets(&w, r), "secrets-differ", "prekey secrets differ");
    ensure!(offers(&w, i) == offers(&w, r), "offers-differ", "the restored peer offers other events to somebody");
    let again = w.archive(r);
    ensure!(again == a, "archive-of-restored", "the archive of the restored peer is not the archive it was made from");
    let (d1, d2) = (readable(&w, i), readable(&w, r));
    case.asserts += d1.len() as u64;
    for (k, (x, y)) in d1.iter().zip(&d2).enumerate() {
        ensure!(x == y, "decrypt-differs", "content {k}: original {:?}, restored {:?}", x.is_some(), y.is_some());
    }
    let some = before.groups.len() + before.docs.len() > 0;
    let rich = before.groups.values().chain(before.docs.values()).any(|m| !m.revoked.is_empty() || !m.rev_heads.is_empty() || m.transitive.len() > m.members.len());
    case.nontrivial = some && (rich || !before.pending.is_empty() || d1.iter().any(|x| x.is_some()));
    if !before.pending.is_empty() {
        case.label("restored-with-pending");
    }
    if d1.iter().any(|x| x.is_some()) {
        case.label("restored-with-readable-content");
    }

    // The same future: received events...
    for _ in 0..src.idx(3) {
        let miss: Vec<usize> = (0..w.pool.len()).filter(|x| !w.nodes[i].has.contains(x)).collect();
        if miss.is_empty() {
            break;
        }
        let mut pick: Vec<usize> = miss.iter().copied().filter(|_| src.chance(2, 3)).collect();
        src.shuffle(&mut pick);
        case.note(format!("both receive {pick:?}"));
        let p1 = w.deliver(i, &pick);
        let p2 = w.deliver(r, &pick);
        case.asserts += 2;
        ensure!(p1 == p2, "pending-differs-later", "the same events leave {} / {} pending", p1.len(), p2.len());
        let (v1, v2) = (w.view(i), w.view(r));
        ensure!(v1 == v2, "later-events-differ", "after receiving the same events: {}", diff(&w, &v1, &v2));
    }
    let (d1, d2) = (readable(&w, i), readable(&w, r));
    ensure!(d1 == d2, "decrypt-differs", "after the same events they open different contents");

    // ...and operations of its own, with its own randomness.
    for _ in 0..src.idx(4) {
        let ms = w.known_membereds(i);
        let cands = hist::candidates(&w, i, &cfg);
        let (what, o1, o2): (String, Result<(), String>, Result<(), String>) = match src.weighted(&[4, 4, 3, 2, 2]) {
            0 if !ms.is_empty() && !cands.is_empty() => {
                let (t, c, can) = (*src.pick(&ms), *src.pick(&cands), hist::access(src));
                if t == c || hist::would_cycle(&w, t, c) {
                    continue;
                }
                case.doing(format!("both add {} to {} as {can:?}", w.name(&c), w.name(&t)));
                let x = w.add(i, t, c, can).map(|_| ());
                let y = w.add(r, t, c, can).map(|_| ());
                (format!("both add {} to {} as {can:?}", w.name(&c), w.name(&t)), x, y)
            }
            1 if !ms.is_empty() => {
                let t = *src.pick(&ms);
                let v = hist::membered_view(&w, i, t);
                let mut who: Vec<Identifier> = v.map(|v| v.members.keys().copied().collect()).unwrap_or_default();
                who.sort_by_key(|x| w.name(x));
                if who.is_empty() {
                    continue;
                }
                let x = *src.pick(&who);
                let retain = src.chance(1, 3);
                case.doing(format!("both revoke {} from {} (retain={retain})", w.name(&x), w.name(&t)));
                let a = w.revoke(i, t, x, retain).map(|_| ());
                let b = w.revoke(r, t, x, retain).map(|_| ());
                (format!("both revoke {} from {} (retain={retain})", w.name(&x), w.name(&t)), a, b)
            }
            2 if !w.known_docs(i).is_empty() => {
                let ds = w.known_docs(i);
                let d = *src.pick(&ds);
                let plain = src.bytes(40);
                let x = w.encrypt(i, d, vec![], plain.clone());
                let y = w.encrypt(r, d, vec![], plain.clone());
                if let (Ok(_), Ok(c)) = (&x, &y) {
                    // somebody the restored peer counts as a reader can open what it made
                    let c = w.contents[*c].clone();
                    let j = src.idx(n);
                    let v = w.view(r).docs[&d.into()].clone();
                    let reads = v.transitive.get(&w.nodes[j].ident()).is_some_and(|a| a.is_reader())
                        && v.cgka_members.as_ref().is_some_and(|m| m.contains(&w.nodes[j].ident()));
                    if j != i && reads {
                        w.sync_pool(r, j);
                        if block_on(w.nodes[j].kh.pending_event_hashes()).is_empty() {
                            case.asserts += 1;
                            case.label("restored-encrypts");
                            let got = w.decrypt(j, &c);
                            ensure!(got.as_ref() == Ok(&plain), "unreadable-from-restored", "P{j} cannot open what restored P{i} encrypted: {got:?}");
                        }
                    }
                }
                (format!("both encrypt to {}", w.name(&d.into())), x.map(|_| ()), y.map(|_| ()))
            }
            3 => {
                w.expand_prekeys(i);
                w.expand_prekeys(r);
                ("both add a prekey".into(), Ok(()), Ok(()))
            }
            4 => {
                let k = src.idx(8);
                w.rotate_prekey(i, k);
                w.rotate_prekey(r, k);
                (format!("both rotate prekey {k}"), Ok(()), Ok(()))
            }
            _ => continue,
        };
        case.done(format!("{what} -> {o1:?} / {o2:?}"));
        case.asserts += 2;
        ensure!(o1 == o2, "later-operation-differs", "{what}: original {o1:?}, restored {o2:?}");
        let (v1, v2) = (blur(&w.view(i)), blur(&w.view(r)));
        ensure!(v1 == v2, "later-operation-differs", "after {what}: {}", diff(&w, &v1, &v2));
    }
    Ok(())
}

/// Merging the archive of one device into another one.
fn c16_merge(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(2);
    let mut w = World::new(src.below(1 << 20), n);
    let d2 = w.add_device(0);
    if src.chance(2, 3) {
        w.introduce_all();
    }
    let cfg = Cfg { w_prekey: 4, w_partial: 8, w_encrypt: 6, nest_docs: src.chance(1, 4), public: src.chance(1, 5), w_outsider: if src.chance(1, 5) { 5 } else { 0 }, ..Default::default() };
    let steps = 3 + src.idx(18);
    for _ in 0..steps {
        hist::step(src, case, &mut w, &cfg);
    }
    let (from, to) = if src.chance(1, 2) { (0, d2) } else { (d2, 0) };
    // What the merge has to amount to: everything both have been given, and the secrets of both.
    let a2 = w.archive(to);
    let refnode = match w.reload(to, &a2) {
        Ok(n) => n,
        Err(e) => return fail("restore-failed", e),
    };
    w.nodes.push(refnode);
    let rf = w.nodes.len() - 1;
    w.nodes[rf].name = "reference".into();
    let exp = block_on(w.nodes[from].kh.export_prekey_secrets()).expect("export");
    let _ = block_on(w.nodes[rf].kh.import_prekey_secrets(&exp));
    w.sync_pool(from, rf);
    let could = [readable(&w, from), readable(&w, to)];
    let had = w.view(to);
    let a = w.archive(from);
    let a = if src.chance(1, 2) { through_bytes(&a)? } else { a };
    case.doing(format!("the archive of {} is merged into {}", w.nodes[from].name, w.nodes[to].name));
    let res = block_on(w.nodes[to].kh.ingest_archive(a));
    w.collect(to);
    case.done(format!("the archive of {} is merged into {}", w.nodes[from].name, w.nodes[to].name));
    ensure!(res.is_ok(), "merge-archive-refused", "ingest_archive failed");
    let (v, e) = (no_pcs(&w.view(to)), no_pcs(&w.view(rf)));
    case.asserts += 2;
    if v != e {
        if nested_authority_order(&w, &v.pending.symmetric_difference(&e.pending).copied().collect()) {
            case.label("excluded:nested-authority-order");
            return Ok(());
        }
        return fail("archive-merge-not-union", format!("merged / given the events: {}", diff(&w, &v, &e)));
    }
    let ret: BTreeSet<Dg> = res.unwrap().iter().map(|x| dg(x)).collect();
    ensure!(ret == v.pending, "merge-archive-pending", "reports {} pending events, has {}", ret.len(), v.pending.len());
    let now = readable(&w, to);
    for (k, x) in now.iter().enumerate() {
        for (who, c) in could.iter().enumerate() {
            case.asserts += 1;
            if c[k].is_some() && c[k] != *x {
                return fail("archive-merge-loses-content", format!("content {k} could be opened by {} before, not by the merged peer", ["the archived one", "the one merged into"][who]));
            }
        }
    }
    let from_has: BTreeSet<usize> = w.nodes[from].has.difference(&w.nodes[to].has).copied().collect();
    case.nontrivial = from_has.iter().any(|x| !matches!(w.pool[*x].ev, StaticEvent::PrekeysExpanded(_))) && had.groups.len() + had.docs.len() > 0;
    case.label("archive-merged");
    Ok(())
}

// ---------------------------------------------------------------------------------------- C21

fn c21(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(3);
    let mut w = World::new(src.below(1 << 20), n);
    let start: Vec<Archive<Ref>> = (0..n).map(|i| w.archive(i)).collect();
    let cfg = Cfg {
        nest_docs: src.chance(1, 4),
        public: src.chance(1, 4),
        w_prekey: 4,
        w_partial: 6,
        w_encrypt: 5,
        w_update: 4,
        w_outsider: if src.chance(1, 5) { 5 } else { 0 },
        ..Default::default()
    };
    if src.chance(2, 3) {
        w.introduce_all();
    }
    let steps = 3 + src.idx(22);
    let mut attacks: Vec<BTreeSet<Dg>> = vec![BTreeSet::new(); n];
    for _ in 0..steps {
        hist::step(src, case, &mut w, &cfg);
        if src.chance(1, 6) {
            // something that nobody was entitled to say
            let (k, m) = (src.idx(n), src.idx(n));
            let l = accepted(&w, k);
            if let Some((e, _, what)) = craft_attack(src, &w, m, &l) {
                let len = w.nodes[k].emitted.len();
                let d = dg(&e);
                case.doing(format!("P{k} is told: {what}"));
                let pend = w.deliver_raw(k, vec![e]);
                w.collect(k);
                case.done(format!("P{k} is told: {what}"));
                if pend.contains(&d) {
                    case.asserts += 1;
                    ensure!(!w.nodes[k].emitted[len..].iter().any(|e| dg(e) == d), "refused-but-announced", "P{k} announced an event that it refused: {what}");
                    case.label("refused-event");
                }
                attacks[k].insert(d);
            }
        }
        if src.chance(1, 6) {
            // somebody sends again what is long known
            let k = src.idx(n);
            let known: Vec<usize> = w.nodes[k].has.iter().copied().collect();
            if !known.is_empty() {
                let again: Vec<SE> = (0..1 + src.idx(4)).map(|_| w.pool[known[src.idx(known.len())]].ev.clone()).collect();
                let told: BTreeSet<Dg> = w.nodes[k].emitted.iter().map(dg).collect();
                let len = w.nodes[k].emitted.len();
                case.doing(format!("P{k} gets {:?} again", again.iter().map(kind).collect::<Vec<_>>()));
                let _ = w.deliver_raw(k, again);
                case.done(format!("P{k} gets events again that it has"));
                for e in &w.nodes[k].emitted[len..] {
                    case.asserts += 1;
                    ensure!(!told.contains(&dg(e)), "announced-again", "P{k} announced a {} again that was sent to it a second time", kind(e));
                }
                case.label("redelivered");
            }
        }
    }
    let i = src.idx(n);
    let said: Vec<SE> = w.nodes[i].emitted.clone();
    if attacks[i].iter().any(|d| !w.view(i).pending.contains(d)) {
        // somebody has been given meanwhile what the attack took for granted
        case.label("excluded:attack-became-valid");
        return Ok(());
    }
    let mut seen: BTreeSet<Dg> = BTreeSet::new();
    for e in &said {
        seen.insert(dg(e));
    }
    let node = match w.reload(i, &start[i]) {
        Ok(n) => n,
        Err(e) => return fail("restore-failed", e),
    };
    w.nodes.push(node);
    let r = n;
    w.nodes[r].name = format!("P{i} rebuilt");
    let _ = block_on(w.nodes[r].kh.import_prekey_secrets(&block_on(w.nodes[i].kh.export_prekey_secrets()).expect("export")));
    let order: Vec<SE> = match src.weighted(&[2, 1]) {
        0 => said.clone(),
        _ => {
            let mut o = said.clone();
            src.shuffle(&mut o);
            o
        }
    };
    case.doing(format!("replaying {} announced events of P{i} into a fresh peer", order.len()));
    let pend = if src.chance(1, 2) {
        w.deliver_raw(r, order)
    } else {
        let mut p = BTreeSet::new();
        for e in order {
            p = w.deliver_raw(r, vec![e]);
        }
        p
    };
    case.done(format!("replayed the announced events of P{i} into a fresh peer"));
    let (orig, got) = (w.view(i), w.view(r));
    case.asserts += 3;
    if !pend.is_empty() && nested_authority_order(&w, &pend) {
        case.label("excluded:nested-authority-order");
        return Ok(());
    }
    let names = |s: &BTreeSet<Dg>| -> Vec<String> { w.pool.iter().enumerate().filter(|(_, e)| s.contains(&e.d)).map(|(k, e)| format!("#{k} {}", kind(&e.ev))).collect() };
    ensure!(pend.is_empty(), "announced-but-unusable", "announced events stay pending in a fresh peer: {:?}", names(&pend));
    ensure!(seen.is_disjoint(&orig.pending), "announced-while-pending", "announced although not accepted: {:?}", names(&seen.intersection(&orig.pending).copied().collect()));
    let (mut a, mut b) = (no_pcs(&orig), no_pcs(&got));
    a.pending.clear();
    b.pending.clear();
    ensure!(a == b, "log-incomplete", "rebuilt from the announced events: {}", diff(&w, &a, &b));
    let others = w.nodes[i].has.iter().filter(|x| w.pool[**x].by != i).count();
    let mine = said.iter().filter(|e| !matches!(e, StaticEvent::PrekeysExpanded(_) | StaticEvent::PrekeyRotated(_))).count();
    case.nontrivial = mine >= 3 && others > 0;
    if others > 0 && mine > 0 {
        case.label("mixed-log");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C27

/// CGKA updates of this document made by the given identity, within a set of pool events.
fn own_updates(w: &World, who: Identifier, d: DocumentId, within: &BTreeSet<usize>) -> usize {
    within
        .iter()
        .filter(|x| match &w.pool[**x].ev {
            StaticEvent::CgkaOperation(op) => {
                Identifier::from(*op.issuer()) == who
                    && matches!(op.payload(), CgkaOperation::Update { .. })
                    && DocumentId::from(*op.payload().doc_id()) == d
            }
            _ => false,
        })
        .count()
}

fn c27(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(2);
    let mut w = World::new(src.below(1 << 20), n);
    let d2 = w.add_device(0);
    w.introduce_all();
    let me = w.nodes[0].ident();
    let cfg = Cfg {
        w_group: 3,
        w_doc: 5,
        w_prekey: 4,
        w_partial: 4,
        w_encrypt: 8,
        w_sync: 10,
        public: src.chance(1, 6),
        w_outsider: if src.chance(1, 5) { 5 } else { 0 },
        ..Default::default()
    };
    let steps = 4 + src.idx(18);
    let mut waited = false;
    let mut opened = false;
    for _ in 0..steps {
        // the identity under test rarely acts itself, the others mostly do
        let mut c = cfg.clone();
        if src.chance(3, 4) {
            c.only = Some(1 + src.idx(n - 1));
        }
        hist::step(src, case, &mut w, &c);
        if src.chance(1, 3) {
            let k = src.idx(w.nodes.len());
            let j = src.idx(w.nodes.len());
            if k != j {
                w.sync_pool(k, j);
                case.note(format!("{} sends everything to {}", w.nodes[k].name, w.nodes[j].name));
            }
        }
        if src.chance(1, 8) {
            let (from, to) = if src.chance(1, 2) { (0, d2) } else { (d2, 0) };
            c27_import(src, case, &mut w, from, to)?;
        }
        // nothing is lost while it waits
        for d in [0, d2] {
            let v = w.view(d);
            let pk = secrets(&w, d);
            for x in w.nodes[d].has.clone() {
                if let StaticEvent::CgkaOperation(op) = &w.pool[x].ev {
                    if let CgkaOperation::Add { added_id, pk: k, .. } = op.payload() {
                        if IndividualId::from(*added_id) == w.nodes[0].id && !pk.contains_key(k) {
                            let doc = v.docs.get(&Identifier::from(DocumentId::from(*op.payload().doc_id())));
                            case.asserts += 1;
                            let has = doc.and_then(|m| m.cgka_ops.as_ref()).is_some_and(|o| o.contains(&op_digest(&w.pool[x].ev)));
                            ensure!(
                                v.pending.contains(&w.pool[x].d) || has,
                                "invitation-lost",
                                "{} cannot use invitation #{x} yet, but does not keep it either",
                                w.nodes[d].name
                            );
                            waited |= v.pending.contains(&w.pool[x].d);
                        }
                    }
                }
            }
        }
    }
    // Both devices get everything and each other's secrets.
    w.deliver_all();
    c27_import(src, case, &mut w, 0, d2)?;
    c27_import(src, case, &mut w, d2, 0)?;
    let (a, b) = (no_pcs(&w.view(0)), no_pcs(&w.view(d2)));
    case.asserts += 2;
    let pend: BTreeSet<Dg> = a.pending.union(&b.pending).copied().collect();
    if !pend.is_empty() && nested_authority_order(&w, &pend) {
        case.label("excluded:nested-authority-order");
        return Ok(());
    }
    ensure!(pend.is_empty(), "still-pending", "with all events and secrets something is still pending: {:?}", w.pool.iter().enumerate().filter(|(_, e)| pend.contains(&e.d)).map(|(k, e)| format!("#{k} {}", kind(&e.ev))).collect::<Vec<_>>());
    ensure!(a == b, "devices-differ", "the two devices differ: {}", diff(&w, &a, &b));
    for k in 0..w.contents.len() {
        let c = w.contents[k].clone();
        if own_updates(&w, me, c.doc, &c.at) > 0 {
            continue;
        }
        let (x, y) = (w.decrypt(0, &c), w.decrypt(d2, &c));
        case.asserts += 1;
        ensure!(x.is_ok() == y.is_ok() && (x.is_err() || x == y), "device-cannot-read", "content {k}: one device {x:?}, the other {y:?}");
        if x.is_ok() {
            opened = true;
            ensure!(x.as_ref() == Ok(&c.plain), "wrong-plaintext", "content {k} opens to other bytes");
        }
    }
    if waited {
        case.label("invitation-waited");
    }
    if opened {
        case.label("opened-with-imported-secrets");
    }
    case.nontrivial = waited || opened;
    Ok(())
}

fn c27_import(src: &mut Src, case: &mut Case, w: &mut World, from: usize, to: usize) -> Check {
    let (a, b) = (secrets(w, from), secrets(w, to));
    let bytes = block_on(w.nodes[from].kh.export_prekey_secrets()).expect("export");
    let before = w.view(to);
    if src.chance(1, 3) && !bytes.is_empty() {
        // a damaged export is refused and changes nothing, or at worst adds to what is there
        let cut = &bytes[..src.idx(bytes.len())];
        let r = block_on(w.nodes[to].kh.import_prekey_secrets(cut));
        w.collect(to);
        case.asserts += 1;
        ensure!(r.is_err(), "truncated-import", "a truncated export was accepted");
        ensure!(w.view(to) == before && secrets(w, to) == b, "truncated-import", "a refused import changed the device");
    }
    case.doing(format!("{} imports the prekey secrets of {}", w.nodes[to].name, w.nodes[from].name));
    for again in 0..2 {
        let r = block_on(w.nodes[to].kh.import_prekey_secrets(&bytes));
        w.collect(to);
        case.asserts += 2;
        let Ok(pend) = r else { return fail("import-refused", "an export was refused".to_string()) };
        let got = secrets(w, to);
        let mut want = b.clone();
        want.extend(a.clone());
        ensure!(got == want, "import-not-additive", "after the import the device holds {} secrets, not {}", got.len(), want.len());
        let v = w.view(to);
        let ret: BTreeSet<Dg> = pend.iter().map(|x| dg(x)).collect();
        ensure!(ret == v.pending, "import-pending", "import reports {} pending, has {}", ret.len(), v.pending.len());
        ensure!(v.pending.is_subset(&before.pending), "import-pending", "an import made more events pending");
        let _ = again;
    }
    case.done(format!("{} imports the prekey secrets of {}", w.nodes[to].name, w.nodes[from].name));
    Ok(())
}

// ---------------------------------------------------------------------------------------- C17

fn c17(src: &mut Src, case: &mut Case) -> Check {
    if src.chance(1, 5) {
        return c17_small(src, case);
    }
    let n = 2 + src.idx(2);
    let mut w = World::new(src.below(1 << 20), n);
    if src.chance(4, 5) {
        w.introduce_all();
    }
    let cfg = Cfg { w_prekey: 3, w_partial: 5, w_encrypt: 6, nest_docs: src.chance(1, 5), public: src.chance(1, 6), w_outsider: if src.chance(1, 5) { 5 } else { 0 }, ..Default::default() };
    for _ in 0..src.idx(14) {
        hist::step(src, case, &mut w, &cfg);
    }
    let t = src.idx(n);
    let trunk = Arc::new(AMutex::new(w.nodes[t].kh.clone()));
    let _ = readable(&w, t);
    let base = w.archive(t);
    let fail_it = src.chance(1, 3);
    let meanwhile = src.chance(1, 2);
    let drop_it = fail_it && src.chance(1, 3);
    let before = w.view(t);
    let announced = w.nodes[t].emitted.len();
    let had: BTreeSet<Dg> = w.nodes[t].has.iter().map(|x| w.pool[*x].d).collect();
    let mut acted = false;
    let mut trunk_acted = false;
    let mut fork_view = View::default();
    let f = w.nodes.len();
    case.doing(format!("P{t} starts a transaction"));
    let res: Result<(), Result<(), Failure>> = {
        let (w, src, case) = (&mut w, &mut *src, &mut *case);
        let (acted, trunk_acted, fork_view) = (&mut acted, &mut trunk_acted, &mut fork_view);
        let mut first = true;
        block_on(transact_async(&trunk, async |fork: K| {
            if !std::mem::replace(&mut first, false) {
                return Err(fail("transaction-repeated", "the work of a transaction was run twice".to_string()));
            }
            case.done(format!("P{t} starts a transaction, its fork is P{t}^"));
            let r = c17_inside(src, case, w, t, &fork, &cfg, meanwhile, (acted, trunk_acted));
            if let Err(e) = r {
                return Err(Err(e));
            }
            *fork_view = w.view(f);
            if drop_it {
                drop(fork);
                return Err(Ok(()));
            }
            if fail_it {
                Err(Ok(()))
            } else {
                Ok(fork)
            }
        }))
    };
    if let Err(r) = &res {
        r.clone()?;
    }
    ensure!(res.is_err() == fail_it, "outcome", "the transaction returned {}, its work {}", res.is_err(), fail_it);
    case.note(format!("the transaction {}", if fail_it { "fails" } else { "succeeds" }));
    let outside: Vec<usize> = w.collect(t);
    case.nontrivial = acted;
    case.label(if fail_it { "failed" } else { "committed" });
    if trunk_acted {
        case.label("concurrent-with-trunk");
    }
    if fail_it {
        case.asserts += 2;
        ensure!(outside.is_empty(), "failed-announced", "a failed transaction announced {} events", outside.len());
        if !trunk_acted {
            let v = w.view(t);
            ensure!(v == before, "failed-left-traces", "after the failed transaction: {}", diff(&w, &before, &v));
            ensure!(w.archive(t) == base, "failed-left-traces", "after the failed transaction the archive of the peer differs");
        }
        return Ok(());
    }
    // What it has to amount to: the peer as it was, given all that both did and both their secrets.
    let node = match w.reload(t, &base) {
        Ok(n) => n,
        Err(e) => return fail("restore-failed", e),
    };
    w.nodes.push(node);
    let rf = w.nodes.len() - 1;
    w.nodes[rf].name = "reference".into();
    w.nodes[rf].has.clear();
    for who in [t, f] {
        let b = block_on(w.nodes[who].kh.export_prekey_secrets()).expect("export");
        let _ = block_on(w.nodes[rf].kh.import_prekey_secrets(&b));
    }
    let both: Vec<usize> = w.nodes[t].has.union(&w.nodes[f].has).copied().collect();
    w.deliver(rf, &both);
    let (v, e) = (no_pcs(&w.view(t)), no_pcs(&w.view(rf)));
    case.asserts += 6;
    if v != e {
        if nested_authority_order(&w, &v.pending.symmetric_difference(&e.pending).copied().collect()) {
            case.label("excluded:nested-authority-order");
            return Ok(());
        }
        return fail("commit-not-union", format!("after the commit / given all events: {}", diff(&w, &v, &e)));
    }
    ensure!(secrets(&w, t) == secrets(&w, rf), "commit-secrets", "after the commit the peer holds other prekey secrets than both together");
    for k in 0..w.contents.len() {
        let c = w.contents[k].clone();
        let now = w.decrypt(t, &c);
        for who in [f, rf] {
            case.asserts += 1;
            let x = w.decrypt(who, &c);
            ensure!(x.is_err() || x == now, "commit-loses-content", "content {k} (by P{}) opens for {}, not for the peer it was merged into: {now:?}", c.by, w.nodes[who].name);
        }
    }
    if !trunk_acted {
        // nothing else happened: as if the work had been done on the original
        let me = w.nodes[t].ident();
        let (mut v, mut e) = (w.view(t), fork_view);
        // a peer that may not read a document need not be able to use its key
        for x in [&mut v, &mut e] {
            for d in x.docs.values_mut() {
                if !d.transitive.get(&me).is_some_and(|a| a.is_reader()) {
                    d.pcs = None;
                }
            }
        }
        ensure!(v == e, "commit-differs-from-fork", "the peer after the commit / the fork: {}", diff(&w, &v, &e));
        let (a, b) = (w.archive(t), w.archive(f));
        ensure!(through_bytes(&a)? == a && through_bytes(&b)? == b, "archive-bytes", "the archive after the commit does not survive encoding");
    }
    let said: BTreeSet<Dg> = w.nodes[t].emitted[announced..].iter().map(dg).collect();
    for e in &w.nodes[f].emitted {
        ensure!(said.contains(&dg(e)) || had.contains(&dg(e)), "commit-not-announced", "the {} the fork announced was not announced by the peer it was merged into", kind(e));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn c17_inside(src: &mut Src, case: &mut Case, w: &mut World, t: usize, fork: &K, cfg: &Cfg, meanwhile: bool, (acted, trunk_acted): (&mut bool, &mut bool)) -> Check {
    let f = w.nodes.len();
    let o = w.nodes[t].clone();
    w.nodes.push(Node {
        name: format!("P{t}^"),
        kh: fork.clone(),
        log: fork.event_listener().clone(),
        emitted: vec![],
        keep_log: true,
        ..o
    });
    let (a, b) = (w.view(t), w.view(f));
    case.asserts += 4;
    ensure!(a == b, "fork-differs", "a fork differs from the peer it was made of: {}", diff(w, &a, &b));
    ensure!(secrets(w, t) == secrets(w, f), "fork-differs", "a fork has other prekey secrets");
    ensure!(readable(w, t) == readable(w, f), "fork-differs", "a fork opens other contents");
    ensure!(w.archive(t) == w.archive(f), "fork-differs", "the archive of a fork differs");
    for _ in 0..1 + src.idx(6) {
        let on_fork = !meanwhile || src.chance(1, 2);
        let who = if on_fork {
            f
        } else if src.chance(2, 3) {
            t
        } else {
            src.idx(f)
        };
        let quiet = if on_fork { t } else { f };
        let (v0, s0) = (w.view(quiet), secrets(w, quiet));
        let log0 = block_on(w.nodes[quiet].log.0.lock()).len();
        let n0 = w.pool.len();
        let has0 = w.nodes[who].has.len();
        if src.chance(1, 3) {
            // something arrives, but not from inside the transaction
            let miss: Vec<usize> = (0..w.pool.len()).filter(|x| !w.nodes[who].has.contains(x) && w.pool[*x].by != f && w.pool[*x].by != t).collect();
            let pick: Vec<usize> = miss.into_iter().filter(|_| src.chance(2, 3)).collect();
            w.deliver(who, &pick);
            case.note(format!("{} receives {pick:?}", w.nodes[who].name));
        } else {
            let c = Cfg { only: Some(who), w_sync: 0, w_partial: 0, w_restart: 0, linear: false, ..cfg.clone() };
            hist::step(src, case, w, &c);
        }
        let did = w.pool.len() > n0 || w.nodes[who].has.len() > has0;
        if who == f {
            *acted |= did;
        }
        *trunk_acted |= who == t && did;
        case.asserts += 3;
        let v1 = w.view(quiet);
        ensure!(v1 == v0, "not-isolated", "{} changed when {} acted: {}", w.nodes[quiet].name, w.nodes[who].name, diff(w, &v0, &v1));
        ensure!(secrets(w, quiet) == s0, "not-isolated", "the prekey secrets of {} changed when {} acted", w.nodes[quiet].name, w.nodes[who].name);
        let log1 = block_on(w.nodes[quiet].log.0.lock()).len();
        ensure!(log1 == log0, "not-isolated", "{} announced events when {} acted", w.nodes[quiet].name, w.nodes[who].name);
    }
    Ok(())
}

/// Transactions on the plain collections, on an identity's prekeys and on a group key.
fn c17_small(src: &mut Src, case: &mut Case) -> Check {
    use keyhive_core::transact::transact_blocking;
    use std::collections::{HashMap, HashSet};
    let fail_it = src.chance(1, 3);
    case.label(if fail_it { "failed" } else { "committed" });
    let out = |r: Result<(), ()>| -> Check {
        ensure!(r.is_err() == fail_it, "outcome", "the transaction returned {r:?}");
        Ok(())
    };
    case.nontrivial = true;
    case.asserts += 3;
    match src.idx(6) {
        0 => {
            case.label("set");
            let mut s: HashSet<u64> = (0..src.idx(8)).map(|_| src.below(12)).collect();
            let s0 = s.clone();
            let mut inner = s.clone();
            let ops: Vec<(bool, u64)> = (0..src.idx(10)).map(|_| (src.chance(2, 3), src.below(12))).collect();
            case.note(format!("set {s0:?}, transaction {ops:?}, fails: {fail_it}"));
            let r = transact_blocking(&mut s, |f| {
                for (ins, x) in &ops {
                    if *ins {
                        f.insert(*x);
                    } else {
                        f.remove(x);
                    }
                }
                inner = f.clone();
                if fail_it {
                    Err(())
                } else {
                    Ok(())
                }
            });
            out(r)?;
            let want: HashSet<u64> = if fail_it { s0 } else { s0.union(&inner).copied().collect() };
            ensure!(s == want, "set-merge", "set after the transaction is {s:?}, not {want:?}");
        }
        1 => {
            case.label("map");
            let mut m: HashMap<u64, u64> = (0..src.idx(8)).map(|_| (src.below(10), src.below(4))).collect();
            let m0 = m.clone();
            let mut inner = m.clone();
            let ops: Vec<(bool, u64, u64)> = (0..src.idx(10)).map(|_| (src.chance(2, 3), src.below(10), 10 + src.below(4))).collect();
            case.note(format!("map {m0:?}, transaction {ops:?}, fails: {fail_it}"));
            let r = transact_blocking(&mut m, |f| {
                for (ins, k, v) in &ops {
                    if *ins {
                        f.entry(*k).or_insert(*v);
                    } else {
                        f.remove(k);
                    }
                }
                inner = f.clone();
                if fail_it {
                    Err(())
                } else {
                    Ok(())
                }
            });
            out(r)?;
            let mut want = inner.clone();
            want.extend(m0.clone());
            if fail_it {
                want = m0;
            }
            ensure!(m == want, "map-merge", "map after the transaction is {m:?}, not {want:?}");
        }
        2 => {
            case.label("content-addressed-map");
            use keyhive_core::util::content_addressed_map::CaMap;
            let mut m: CaMap<u64> = CaMap::from_iter((0..src.idx(8)).map(|_| src.below(20)));
            let mut model: BTreeSet<u64> = m.values().map(|x| **x).collect();
            let ops: Vec<u64> = (0..src.idx(8)).map(|_| src.below(20)).collect();
            let r = transact_blocking(&mut m, |f| {
                for x in &ops {
                    f.insert(Arc::new(*x));
                }
                if fail_it {
                    Err(())
                } else {
                    Ok(())
                }
            });
            out(r)?;
            if !fail_it {
                model.extend(&ops);
            }
            let got: BTreeSet<u64> = m.values().map(|x| **x).collect();
            ensure!(got == model && m.len() == model.len(), "camap-merge", "map after the transaction holds {got:?}, not {model:?}");
            for x in &model {
                ensure!(m.get(&keyhive_crypto::digest::Digest::hash(x)).map(|v| **v) == Some(*x), "camap-merge", "{x} is not found under its digest");
            }
        }
        3 => {
            // a public identity's prekeys, merged while the original learns other ones
            case.label("individual");
            let mut w = World::new(src.below(1 << 20), 1);
            for k in 0..src.idx(5) {
                if src.chance(1, 2) {
                    w.rotate_prekey(0, k);
                } else {
                    w.expand_prekeys(0);
                }
            }
            let evs: Vec<_> = w.pool.iter().filter_map(|e| match &e.ev {
                StaticEvent::PrekeysExpanded(o) => Some(keyhive_core::principal::individual::op::KeyOp::from(Arc::new((**o).clone()))),
                StaticEvent::PrekeyRotated(o) => Some(keyhive_core::principal::individual::op::KeyOp::from(Arc::new((**o).clone()))),
                _ => None,
            }).collect();
            let start = src.idx(evs.len());
            let mk = |ixs: &BTreeSet<usize>| {
                let mut it = ixs.iter();
                let mut x = keyhive_core::principal::individual::Individual::new(evs[*it.next().unwrap()].clone());
                for k in it {
                    x.receive_prekey_op(evs[*k].clone()).expect("own op");
                }
                x
            };
            let mut have: BTreeSet<usize> = (0..=start).collect();
            let mut t = mk(&have);
            let mut inside = BTreeSet::new();
            for k in 0..evs.len() {
                if src.chance(1, 2) {
                    inside.insert(k);
                }
            }
            let two = Arc::new(AMutex::new(t.clone()));
            let r = transact_blocking(&mut t, |f| {
                for k in &inside {
                    f.receive_prekey_op(evs[*k].clone()).expect("own op");
                }
                if fail_it {
                    Err(())
                } else {
                    Ok(())
                }
            });
            out(r)?;
            let have0 = have.clone();
            if !fail_it {
                have.extend(&inside);
            }
            let same = |a: &keyhive_core::principal::individual::Individual, b: &keyhive_core::principal::individual::Individual| {
                live_prekeys(a) == live_prekeys(b) && a.prekey_ops().keys().collect::<BTreeSet<_>>() == b.prekey_ops().keys().collect::<BTreeSet<_>>()
            };
            ensure!(same(&t, &mk(&have)), "individual-merge", "the identity after the transaction does not have the prekeys of both");
            // the same asynchronously, the original receiving something meanwhile
            let late = src.idx(evs.len());
            let r: Result<(), ()> = block_on(transact_async(&two, async |mut f: keyhive_core::principal::individual::Individual| {
                for k in &inside {
                    f.receive_prekey_op(evs[*k].clone()).expect("own op");
                }
                two.lock().await.receive_prekey_op(evs[late].clone()).expect("own op");
                if fail_it {
                    Err(())
                } else {
                    Ok(f)
                }
            }));
            out(r)?;
            let mut want = have0;
            want.insert(late);
            if !fail_it {
                want.extend(&inside);
            }
            let got = block_on(two.lock()).clone();
            ensure!(same(&got, &mk(&want)), "individual-merge", "the identity after the asynchronous transaction does not have the prekeys of both");
        }
        4 => {
            // the peer's own identity: what the fork of it does stays in the fork
            case.label("active");
            let mut w = World::new(src.below(1 << 20), 1);
            let act = block_on(w.nodes[0].kh.active().lock()).clone();
            let rng = Arc::new(AMutex::new(<rand_chacha::ChaCha20Rng as rand::SeedableRng>::seed_from_u64(src.u64())));
            let steps: Vec<bool> = (0..1 + src.idx(4)).map(|_| src.chance(1, 2)).collect();
            let v0 = w.view(0);
            let s0 = secrets(&w, 0);
            let (mut vi, mut si) = (BTreeSet::new(), BTreeMap::new());
            let mut leaked = false;
            let r: Result<(), ()> = block_on(transact_async(&act, async |mut f| {
                for rot in &steps {
                    if *rot {
                        let k = *live_prekeys(&*f.individual().lock().await).iter().min().expect("has prekeys");
                        f.rotate_prekey(k, rng.dupe()).await.expect("rotate");
                    } else {
                        f.expand_prekeys(rng.dupe()).await.expect("expand");
                    }
                }
                vi = live_prekeys(&*f.individual().lock().await);
                si = bincode::deserialize(&f.export_prekey_secrets().await.expect("export")).expect("secrets");
                leaked = w.view(0) != v0 || secrets(&w, 0) != s0;
                if fail_it {
                    Err(())
                } else {
                    Ok(f)
                }
            }));
            out(r)?;
            ensure!(!leaked, "active-not-isolated", "prekeys made on the fork of an identity show on the original before the commit");
            w.collect(0);
            let me = w.nodes[0].ident();
            if fail_it {
                ensure!(w.view(0) == v0 && secrets(&w, 0) == s0, "active-not-isolated", "a failed transaction changed the identity");
            } else {
                ensure!(secrets(&w, 0) == si, "active-merge", "the secrets after the commit are not those of the fork");
                ensure!(live_prekeys(&*block_on(act.individual().lock())) == vi && w.view(0).individuals[&me].1.len() == vi.len(), "active-merge", "the prekeys after the commit are not those of the fork");
            }
        }
        _ => {
            // a group key: update, add and remove on the fork while the original does the same
            case.label("group-key");
            return c17_cgka(src, case, fail_it);
        }
    }
    Ok(())
}

fn c17_cgka(src: &mut Src, case: &mut Case, fail_it: bool) -> Check {
    use keyhive_core::transact::transact_blocking;
    let mut w = World::new(src.below(1 << 20), 3);
    w.introduce_all();
    let others = [w.nodes[1].ident(), w.nodes[2].ident()];
    let Some(d) = w.new_doc(0, &others[..1]) else { return Ok(()) };
    w.deliver_all();
    let n0 = w.pool.len();
    for _ in 0..1 + src.idx(6) {
        let i = 1 + src.idx(2);
        match src.weighted(&[3, 2, 1, 3]) {
            0 => {
                let _ = w.pcs_update(i, d);
            }
            1 => {
                let plain = src.bytes(20);
                let _ = w.encrypt(i, d, vec![], plain);
            }
            2 => {
                let _ = w.add(1, d.into(), others[1], Access::Edit);
            }
            _ => {
                w.sync_pool(1, 2);
            }
        }
    }
    // a causally closed part of what the other peers did (the pool is in causal order)
    let mut given: Vec<usize> = vec![];
    let mut have: BTreeSet<Dg> = w.pool[..n0].iter().map(|e| op_digest(&e.ev)).collect();
    for x in n0..w.pool.len() {
        if let StaticEvent::CgkaOperation(op) = &w.pool[x].ev {
            if op.payload().predecessors().iter().all(|p| have.contains(&raw(p))) && src.chance(4, 5) {
                have.insert(op_digest(&w.pool[x].ev));
                given.push(x);
            }
        }
    }
    let update = src.chance(1, 2);
    case.note(format!("inside the transaction the group key receives {given:?}, updates: {update}, fails: {fail_it}"));
    let doc = w.doc(0, d).expect("own document");
    let mut rng = <rand_chacha::ChaCha20Rng as rand::SeedableRng>::seed_from_u64(src.u64());
    let signer = w.nodes[0].signer.clone();
    let mut l = block_on(doc.lock());
    let c = l.cgka_mut().expect("cgka");
    let before = c.clone();
    let mut inner = c.clone();
    let r = transact_blocking(c, |f| {
        for x in &given {
            if let StaticEvent::CgkaOperation(op) = &w.pool[*x].ev {
                f.merge_concurrent_operation(Arc::new((**op).clone())).expect("causal order");
            }
        }
        if update {
            let sk = ShareSecretKey::generate(&mut rng);
            let _ = block_on(f.update::<future_form::Sendable, _, _>(sk.share_key(), sk, &signer, &mut rng));
        }
        inner = f.clone();
        if fail_it {
            Err(())
        } else {
            Ok(())
        }
    });
    ensure!(r.is_err() == fail_it, "outcome", "the transaction returned {r:?}");
    case.nontrivial = update || !given.is_empty();
    if fail_it {
        ensure!(*c == before, "cgka-left-traces", "a failed transaction changed the group key");
        return Ok(());
    }
    let ops = |c: &keyhive_core::cgka::Cgka| -> BTreeSet<Dg> { c.ops().map(|o| o.iter().flat_map(|e| e.iter().map(|x| raw(&keyhive_crypto::digest::Digest::hash(x.as_ref()))).collect::<Vec<_>>()).collect()).unwrap_or_default() };
    ensure!(ops(c) == ops(&inner), "cgka-merge", "the operations after the commit are not those of the fork");
    if inner.has_pcs_key() {
        ensure!(c.group_size() == inner.group_size(), "cgka-merge", "{} members after the commit, {} in the fork", c.group_size(), inner.group_size());
        let (a, b) = (c.try_pcs_key_hash(), inner.try_pcs_key_hash());
        ensure!(a.is_ok() == b.is_ok() && a.as_ref().ok() == b.as_ref().ok() && c.has_pcs_key(), "cgka-merge", "the key after the commit is not that of the fork: {a:?} / {b:?}");
    }
    for x in &w.contents {
        case.asserts += 1;
        let (a, b) = (c.decryption_key_for(&x.enc), inner.decryption_key_for(&x.enc));
        ensure!(b.is_err() || a.as_ref().ok() == b.as_ref().ok(), "cgka-merge", "after the commit a content the fork opened does not open: {a:?}");
    }
    Ok(())
}
