//! What peers offer one another, and what they do with what they are given: C13, C14, C15, C26.
use super::membership::{diff, nested_authority, nested_authority_order, shared};
use crate::engine::*;
use crate::hist::{self, Cfg};
use crate::model::{may_issue, Ledger};
use crate::world::*;
use dupe::Dupe;
use keyhive_core::{
    event::{static_event::StaticEvent, Event},
    principal::{identifier::Identifier, individual::op::KeyOp, membered::id::MemberedId, public::Public},
};
use keyhive_crypto::signed::Signed;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    const FIN: &[&str] = &["finite histories of at most 30 operations by at most 5 peers; no cyclic memberships; histories that meet the listed finding of C08 (nested authority, order) are skipped"];
    vec![
        Prop {
            id: "C13",
            run: c13,
            quick: 5000,
            thorough: 150000,
            scripted: &[],
            rule: "the sender had at least one group or document to offer, and it has a revocation, a nested group or somebody the receiver did not know",
            assumptions: FIN,
        },
        Prop {
            id: "C14",
            run: c14,
            quick: 12000,
            thorough: 150000,
            scripted: &[],
            rule: "at least 3 agents compared, one of them reaching a membership through nesting, or a revocation in the history",
            assumptions: FIN,
        },
        Prop {
            id: "C15",
            run: c15,
            quick: 8000,
            thorough: 150000,
            scripted: &[],
            rule: "at least 6 events delivered, in at least 2 different splittings, with some event before its dependencies or an invalid event among them",
            assumptions: FIN,
        },
        Prop {
            id: "C26",
            run: c26,
            quick: 12000,
            thorough: 150000,
            scripted: &[],
            rule: "at least one group or document, one grant beyond its creation, and a pending event, a revocation or a restart",
            assumptions: FIN,
        },
    ]
}

#[derive(Debug, Default, PartialEq, Eq)]
struct Offered {
    membership: BTreeSet<Dg>,
    prekeys: BTreeMap<Identifier, BTreeSet<Dg>>,
    cgka: BTreeSet<Dg>,
}

fn ev_dg(e: &Event<future_form::Sendable, keyhive_crypto::signer::memory::MemorySigner, Ref, Lg>) -> Dg {
    dg(&StaticEvent::from(e.clone()))
}

fn in_order(ops: &[std::sync::Arc<KeyOp>]) -> bool {
    let news: Vec<_> = ops.iter().map(|o| *o.new_key()).collect();
    ops.iter().enumerate().all(|(i, o)| match o.as_ref() {
        KeyOp::Add(_) => true,
        KeyOp::Rotate(r) => !news[i..].contains(&r.payload.old) || news[..i].contains(&r.payload.old),
    })
}

fn single(kh: &K, a: &Ag, case: &mut Case) -> Result<Offered, Failure> {
    let mut o = Offered::default();
    for (_, op) in block_on(kh.membership_ops_for_agent(a)) {
        let e: Event<_, _, _, _> = op.into();
        o.membership.insert(ev_dg(&e));
    }
    for (id, ops) in block_on(kh.reachable_prekey_ops_for_agent(a)) {
        case.asserts += 1;
        if !in_order(&ops) {
            return Err(Failure { sig: "prekey-order".into(), msg: "a rotation is offered before the prekey it replaces".into() });
        }
        let set: BTreeSet<Dg> = ops.iter().map(|k| dg(&key_event(k))).collect();
        if !set.is_empty() {
            o.prekeys.insert(id, set);
        }
    }
    for op in block_on(kh.cgka_ops_reachable_by_agent(a)) {
        o.cgka.insert(ev_dg(&Event::from(op)));
    }
    Ok(o)
}

fn c14(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(3);
    let mut w = World::new(src.below(1 << 20), n);
    if src.chance(1, 2) {
        w.introduce_all();
    }
    let cfg = Cfg {
        nest_docs: src.chance(1, 3),
        public: src.chance(1, 3),
        w_prekey: 4,
        w_restart: if src.chance(1, 4) { 2 } else { 0 },
        w_outsider: if src.chance(1, 5) { 5 } else { 0 },
        ..Default::default()
    };
    let steps = 4 + src.idx(20);
    for _ in 0..steps {
        hist::step(src, case, &mut w, &cfg);
    }
    hist::label_pool(case, &w);
    let mut nested = false;
    for i in 0..n {
        let kh = w.nodes[i].kh.clone();
        let all_m = block_on(kh.membership_ops_for_all_agents());
        let all_k = block_on(kh.reachable_prekey_ops_for_all_agents());
        let all_c = block_on(kh.cgka_ops_for_all_agents());
        let mut ids: Vec<Identifier> = w.nodes.iter().map(|x| x.ident()).collect();
        ids.extend(w.groups.iter().map(|g| Identifier::from(*g)));
        ids.extend(w.docs.iter().map(|d| Identifier::from(*d)));
        ids.push(Public.id());
        for id in ids {
            let Some(a) = w.agent(i, id) else { continue };
            let one = single(&kh, &a, case)?;
            let mut bulk = Offered::default();
            if let Some(ops) = all_m.ops_for_agent(&id) {
                for (_, op) in ops {
                    bulk.membership.insert(ev_dg(&Event::from(op.clone())));
                }
            }
            if let Some(ids) = all_k.index.get(&id) {
                for k in ids {
                    let ops = all_k.ops.get(k).cloned().unwrap_or_default();
                    case.asserts += 1;
                    ensure!(in_order(&ops), "prekey-order", "P{i}: bulk prekey ops of {} have a rotation before the prekey it replaces", w.name(k));
                    let set: BTreeSet<Dg> = ops.iter().map(|k| dg(&key_event(k))).collect();
                    if !set.is_empty() {
                        bulk.prekeys.insert(*k, set);
                    }
                }
            }
            if let Some(ops) = all_c.ops_for_agent(&id) {
                for op in ops {
                    bulk.cgka.insert(ev_dg(&Event::from(op.dupe())));
                }
            }
            case.asserts += 3;
            case.doing(format!("P{i} compares queries for {}", w.name(&id)));
            let why = |a: &BTreeSet<Dg>, b: &BTreeSet<Dg>| {
                let nm = |x: &Dg| w.index.get(x).map(|i| format!("#{i} {}", kind(&w.pool[*i].ev))).unwrap_or("?".into());
                format!("single only {:?}, bulk only {:?}", a.difference(b).map(nm).collect::<Vec<_>>(), b.difference(a).map(nm).collect::<Vec<_>>())
            };
            ensure!(one.membership == bulk.membership, "membership-differs", "P{i}, membership operations for {}: {}", w.name(&id), why(&one.membership, &bulk.membership));
            // Groups and documents that are members of nothing are not in the bulk result.
            if all_k.index.contains_key(&id) || matches!(a, Ag::Active(..) | Ag::Individual(..)) {
                let f = |o: &Offered| o.prekeys.values().flatten().copied().collect::<BTreeSet<_>>();
                ensure!(f(&one) == f(&bulk), "prekeys-differ", "P{i}, prekey operations for {}: {}", w.name(&id), why(&f(&one), &f(&bulk)));
                ensure!(one.prekeys == bulk.prekeys, "prekey-owners-differ", "P{i}, prekey operations for {} are listed under different owners", w.name(&id));
            } else {
                let v = block_on(kh.membered_reachable_by_agent(&a));
                ensure!(v.is_empty(), "agent-missing-in-bulk", "P{i}: {} reaches {} memberships but is absent from the bulk prekey result", w.name(&id), v.len());
            }
            ensure!(one.cgka == bulk.cgka, "cgka-differs", "P{i}, group-key operations for {}: {}", w.name(&id), why(&one.cgka, &bulk.cgka));

            // the combined queries
            let evs = block_on(kh.events_for_agent(&a));
            let st = block_on(kh.static_events_for_agent(&a));
            let mut want: BTreeSet<Dg> = one.membership.union(&one.cgka).copied().collect();
            want.extend(one.prekeys.values().flatten().copied());
            let got: BTreeSet<Dg> = evs.values().map(ev_dg).collect();
            let got_s: BTreeSet<Dg> = st.values().map(dg).collect();
            case.asserts += 4;
            ensure!(got == want, "events-differ", "P{i}, events for {}: {}", w.name(&id), why(&want, &got));
            ensure!(got_s == want, "static-events-differ", "P{i}, static events for {}: {}", w.name(&id), why(&want, &got_s));
            ensure!(evs.iter().all(|(k, e)| raw(k) == ev_dg(e)), "event-key", "P{i}: an event offered to {} is not listed under its own digest", w.name(&id));
            ensure!(st.iter().all(|(k, e)| raw(k) == dg(e)), "static-event-key", "P{i}: a static event offered to {} is not listed under its own digest", w.name(&id));
            // per document
            let mut by_doc = BTreeSet::new();
            for (d, _) in block_on(kh.docs_reachable_by_agent(&a)) {
                if let Ok(Some(ops)) = block_on(kh.cgka_ops_for_doc(&d)) {
                    by_doc.extend(ops.into_iter().map(|o| ev_dg(&Event::from(o))));
                }
            }
            case.asserts += 1;
            ensure!(by_doc == one.cgka, "cgka-per-doc", "P{i}, group-key operations for {} by document: {}", w.name(&id), why(&one.cgka, &by_doc));
            nested |= one.membership.len() > 1;
        }
    }
    let revs = w.pool.iter().any(|e| matches!(e.ev, StaticEvent::Revoked(_)));
    case.nontrivial = nested || revs;
    Ok(())
}

// ------------------------------------------------------------------------- C13

/// The part of a view both sides must agree on after a sync.
fn reach(w: &World, by: usize, to: usize) -> Vec<Identifier> {
    let Some(a) = w.agent(by, w.nodes[to].ident()) else { return vec![] };
    let mut v: Vec<Identifier> = block_on(w.nodes[by].kh.membered_reachable_by_agent(&a))
        .keys()
        .map(|m| match m {
            MemberedId::GroupId(g) => Identifier::from(*g),
            MemberedId::DocumentId(d) => Identifier::from(*d),
        })
        .collect();
    v.sort();
    v
}

fn restrict(v: &View, ids: &[Identifier]) -> View {
    let mut v = shared(v);
    v.groups.retain(|k, _| ids.contains(k));
    v.docs.retain(|k, _| ids.contains(k));
    let mut people = BTreeSet::new();
    for m in v.groups.values().chain(v.docs.values()) {
        people.extend(m.transitive.keys().copied());
    }
    v.individuals.retain(|k, _| people.contains(k));
    v.pending.clear();
    v
}

fn c13(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(3);
    let mut w = World::new(src.below(1 << 20), n);
    let all = src.chance(1, 3);
    if all {
        w.introduce_all();
    } else {
        let pre = w.pool.len();
        for i in 0..n {
            for j in 0..n {
                if i != j && src.chance(1, 2) {
                    let ixs: Vec<usize> = (0..pre).filter(|x| w.pool[*x].by == j).collect();
                    w.deliver(i, &ixs);
                }
            }
        }
    }
    let cfg = Cfg {
        nest_docs: src.chance(1, 4),
        public: src.chance(1, 5),
        w_prekey: 3,
        w_partial: if src.chance(1, 2) { 3 } else { 0 },
        w_outsider: if src.chance(1, 5) { 5 } else { 0 },
        ..Default::default()
    };
    let steps = 4 + src.idx(20);
    for _ in 0..steps {
        hist::step(src, case, &mut w, &cfg);
    }
    hist::label_pool(case, &w);

    // One way, into a device that starts from nothing.
    let mut pairs: Vec<(usize, usize)> = vec![];
    for s in 0..n {
        for r in 0..n {
            if s != r && w.agent(s, w.nodes[r].ident()).is_some() && !w.known_membereds(s).is_empty() {
                pairs.push((s, r));
            }
        }
    }
    src.shuffle(&mut pairs);
    for (s, r) in pairs.into_iter().take(3) {
        {
            let ids = reach(&w, s, r);
            let evs = w.events_for(s, r);
            let f = w.add_device(r);
            let secrets = block_on(w.nodes[r].kh.export_prekey_secrets()).expect("export");
            let _ = block_on(w.nodes[f].kh.import_prekey_secrets(&secrets));
            let pend = w.deliver_raw(f, evs.clone());
            case.asserts += 1;
            let desc = |p: &BTreeSet<Dg>| {
                let v: Vec<String> = p.iter().filter_map(|d| w.index.get(d)).map(|i| format!("#{i} {}", kind(&w.pool[*i].ev))).collect();
                format!("{v:?}")
            };
            if !pend.is_empty() {
                if nested_authority_order(&w, &pend) {
                    case.label("excluded:nested-authority-order");
                    return Ok(());
                }
                let sig = "pending-after-sync";
                case.raise(sig, format!("P{s} sent P{r} everything for it ({} events), {} stay pending", evs.len(), desc(&pend)))?;
            }
            // what the sender itself still waits for it cannot pass on
            let a = restrict(&w.view(s), &ids);
            let mut b = restrict(&w.view(f), &ids);
            // the fresh device's own prekeys
            let me = w.nodes[r].ident();
            b.individuals.remove(&me);
            let mut a2 = a.clone();
            a2.individuals.remove(&me);
            case.asserts += 1;
            ensure!(a2 == b, "view-after-sync", "P{s} to a fresh P{r}: {}", diff(&w, &a2, &b));
            if !ids.is_empty() {
                case.nontrivial = true;
            }
            w.nodes.pop();
        }
    }
    // Gossip: any connected pattern of exchanges, repeated until nothing changes.
    let mut edges: Vec<(usize, usize)> = (1..n).map(|i| (src.idx(i), i)).collect();
    src.shuffle(&mut edges);
    // everybody on an edge can name the other
    for (a, b) in &edges {
        for (x, y) in [(*a, *b), (*b, *a)] {
            let pre: Vec<usize> = (0..w.pool.len()).filter(|ix| w.pool[*ix].by == y && kind(&w.pool[*ix].ev).starts_with("prekey")).collect();
            w.deliver(x, &pre);
        }
    }
    for _ in 0..6 {
        for (a, b) in edges.clone() {
            w.sync_api(a, b);
            w.sync_api(b, a);
        }
    }
    let excluded = (0..n).any(|i| {
        let p = w.view(i).pending;
        !p.is_empty() && nested_authority_order(&w, &p)
    });
    if excluded {
        case.label("excluded:nested-authority-order");
        return Ok(());
    }
    for (a, b) in edges {
        let ra = reach(&w, a, b);
        let rb = reach(&w, b, a);
        let me_a = reach(&w, a, a);
        let me_b = reach(&w, b, b);
        let ids: Vec<Identifier> = ra.iter().filter(|x| rb.contains(x) && me_a.contains(x) && me_b.contains(x)).copied().collect();
        let va = restrict(&w.view(a), &ids);
        let vb = restrict(&w.view(b), &ids);
        case.asserts += 1;
        ensure!(va == vb, "gossip-differs", "after repeated exchange P{a} and P{b} differ: {}", diff(&w, &va, &vb));
        // and each agrees on what the other can reach at all, unless neither was ever told of the other
        let lost: Vec<String> = me_a.iter().filter(|x| ra.contains(x) && !me_b.contains(x)).map(|x| w.name(x)).collect();
        let stale: Vec<String> = me_b.iter().filter(|x| rb.contains(x) && me_a.contains(x) && !ra.contains(x)).map(|x| w.name(x)).collect();
        case.asserts += 2;
        ensure!(stale.is_empty(), "gossip-stale-access", "P{b} believes it can reach {stale:?}, P{a} knows it cannot and exchanged everything with it");
        ensure!(lost.is_empty(), "gossip-not-reached", "P{a} counts P{b} as able to reach {lost:?}, P{b} does not know after repeated exchange");
    }
    Ok(())
}

// ------------------------------------------------------------------------- C15

/// Which of these events has a receiver accepted, once it has been given exactly these (and
/// knows itself and the public agent)? Least fixed point of "everything it names is accepted".
fn admissible(w: &World, given: &BTreeSet<usize>, me: Identifier) -> BTreeSet<usize> {
    let mut acc: BTreeSet<usize> = BTreeSet::new();
    let mut ops: BTreeSet<Dg> = BTreeSet::new();
    let mut known: BTreeSet<Identifier> = [me, Public.id()].into();
    let mut docs: BTreeSet<Identifier> = BTreeSet::new();
    loop {
        let before = acc.len();
        let l = Ledger::from_pool(w, &acc);
        for ix in given {
            if acc.contains(ix) {
                continue;
            }
            let e = &w.pool[*ix].ev;
            let ok = match e {
                StaticEvent::PrekeysExpanded(s) => {
                    known.insert(Identifier::from(*s.issuer()));
                    true
                }
                StaticEvent::PrekeyRotated(s) => {
                    known.insert(Identifier::from(*s.issuer()));
                    true
                }
                StaticEvent::Delegated(s) => {
                    let p = s.payload();
                    let ok = p.proof.map(|x| ops.contains(&raw(&x))).unwrap_or(true)
                        && p.after_revocations.iter().all(|x| ops.contains(&raw(x)))
                        && known.contains(&p.delegate);
                    if ok && p.proof.is_none() {
                        let subj = Identifier::from(*s.issuer());
                        known.insert(subj);
                        if w.is_doc(&subj) {
                            docs.insert(subj);
                        }
                    }
                    ok
                }
                StaticEvent::Revoked(s) => {
                    let p = s.payload();
                    ops.contains(&raw(&p.revoke)) && p.proof.map(|x| ops.contains(&raw(&x))).unwrap_or(true)
                }
                StaticEvent::CgkaOperation(s) => {
                    let p = s.payload();
                    docs.contains(&Identifier(p.doc_id().0)) && p.predecessors().iter().all(|x| ops.contains(&raw(x))) && may_issue(&l, s)
                }
            };
            if ok {
                acc.insert(*ix);
                ops.insert(op_digest(e));
            }
        }
        if acc.len() == before {
            return acc;
        }
    }
}

/// Events nobody should accept: broken signatures, and grants and revocations signed by somebody
/// else than the proof's holder.
fn spoil(src: &mut Src, w: &World) -> Option<SE> {
    let ix = src.idx(w.pool.len());
    let liar = src.idx(w.nodes.len());
    Some(match w.pool[ix].ev.clone() {
        StaticEvent::Delegated(s) => {
            let mut p = s.payload().clone();
            if src.chance(1, 2) {
                p.can = LEVELS[src.idx(4)];
                if p.can == s.payload().can {
                    return None;
                }
                StaticEvent::Delegated(Signed::new(p, *s.issuer(), *s.signature()))
            } else if w.nodes[liar].id.verifying_key_() == s.issuer() {
                return None;
            } else {
                StaticEvent::Delegated(Signed::new(p, *w.nodes[liar].id.verifying_key_(), *s.signature()))
            }
        }
        StaticEvent::Revoked(s) => {
            if w.nodes[liar].id.verifying_key_() == s.issuer() {
                return None;
            }
            StaticEvent::Revoked(Signed::new(s.payload().clone(), *w.nodes[liar].id.verifying_key_(), *s.signature()))
        }
        StaticEvent::PrekeysExpanded(s) => {
            if w.nodes[liar].id.verifying_key_() == s.issuer() {
                return None;
            }
            StaticEvent::PrekeysExpanded(Box::new(Signed::new(s.payload().clone(), *w.nodes[liar].id.verifying_key_(), *s.signature())))
        }
        StaticEvent::PrekeyRotated(s) => {
            if w.nodes[liar].id.verifying_key_() == s.issuer() {
                return None;
            }
            StaticEvent::PrekeyRotated(Box::new(Signed::new(s.payload().clone(), *w.nodes[liar].id.verifying_key_(), *s.signature())))
        }
        StaticEvent::CgkaOperation(s) => {
            if w.nodes[liar].id.verifying_key_() == s.issuer() {
                return None;
            }
            StaticEvent::CgkaOperation(Box::new(Signed::new(s.payload().clone(), *w.nodes[liar].id.verifying_key_(), *s.signature())))
        }
    })
}

trait KeyOf {
    fn verifying_key_(&self) -> &ed25519_dalek::VerifyingKey;
}
impl KeyOf for keyhive_core::principal::individual::id::IndividualId {
    fn verifying_key_(&self) -> &ed25519_dalek::VerifyingKey {
        &self.0 .0
    }
}

fn c15(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(2);
    let mut w = World::new(src.below(1 << 20), n);
    w.introduce_all();
    let cfg = Cfg { nest_docs: src.chance(1, 5), public: src.chance(1, 5), w_prekey: 3, w_outsider: if src.chance(1, 5) { 5 } else { 0 }, ..Default::default() };
    let steps = 3 + src.idx(16);
    for _ in 0..steps {
        hist::step(src, case, &mut w, &cfg);
    }
    hist::label_pool(case, &w);
    let total = w.pool.len();
    // a subset of everything, so that some dependencies may be missing for good
    let missing = src.weighted(&[3, 1, 1]);
    let mut order: Vec<usize> = (0..total).filter(|_| missing == 0 || !src.chance(missing as u64, 8)).collect();
    src.shuffle(&mut order);
    let given: BTreeSet<usize> = order.iter().copied().collect();
    let r = src.idx(n);
    let secrets = block_on(w.nodes[r].kh.export_prekey_secrets()).expect("export");
    let mut devs = vec![];
    for _ in 0..2 {
        let d = w.add_device(r);
        let _ = block_on(w.nodes[d].kh.import_prekey_secrets(&secrets));
        devs.push(d);
    }
    let (whole, split) = (devs[0], devs[1]);
    let me = w.nodes[r].ident();
    // devices make prekeys of their own; both get both
    let own: Vec<usize> = (total..w.pool.len()).collect();
    w.deliver(whole, &own);
    w.deliver(split, &own);

    let pend_whole = w.deliver(whole, &order);
    case.note(format!("whole batch of {} events: {} pending", order.len(), pend_whole.len()));

    let mut k = 0;
    let mut early = 0;
    let mut lies = 0;
    let mut so_far: BTreeSet<usize> = own.iter().copied().collect();
    let mut bad: BTreeSet<Dg> = BTreeSet::new();
    while k < order.len() {
        let m = match src.weighted(&[1, 3, 3]) {
            0 => order.len() - k,
            1 => 1,
            _ => 1 + src.idx(order.len() - k),
        };
        let mut chunk: Vec<SE> = order[k..k + m].iter().map(|x| w.pool[*x].ev.clone()).collect();
        so_far.extend(order[k..k + m].iter().copied());
        k += m;
        if src.chance(1, 3) {
            // again, from before
            let x = order[src.idx(k)];
            chunk.push(w.pool[x].ev.clone());
        }
        for _ in 0..src.weighted(&[3, 2, 1]) {
            if let Some(e) = spoil(src, &w) {
                bad.insert(dg(&e));
                let at = src.idx(chunk.len() + 1);
                chunk.insert(at, e);
                lies += 1;
            }
        }
        let ret = w.deliver_raw(split, chunk);
        w.collect(split);
        let pend: BTreeSet<Dg> = block_on(w.nodes[split].kh.pending_event_hashes()).iter().map(raw).collect();
        case.asserts += 2;
        ensure!(ret == pend, "reported-pending", "ingestion returned {} pending events, the peer holds {}", ret.len(), pend.len());
        let acc = admissible(&w, &so_far, me);
        let want: BTreeSet<Dg> = so_far.difference(&acc).map(|x| w.pool[*x].d).collect();
        early += want.len();
        let have: BTreeSet<Dg> = pend.iter().filter(|d| !bad.contains(*d)).copied().collect();
        if have != want {
            let extra: BTreeSet<Dg> = have.difference(&want).copied().collect();
            // (a signer's membership of the nested group it signs for may not have arrived yet)
            if want.is_subset(&have) && nested_authority(&w, &extra, false) {
                case.label("nested-authority-not-yet-known");
                continue;
            }
            let nm = |s: &BTreeSet<Dg>, t: &BTreeSet<Dg>| s.difference(t).map(|d| w.index.get(d).map(|i| format!("#{i} {}", kind(&w.pool[*i].ev))).unwrap_or("?".into())).collect::<Vec<_>>();
            return fail("pending-set", format!("after {k} events: pending though complete {:?}; accepted (or lost) though incomplete {:?}", nm(&have, &want), nm(&want, &have)));
        }
    }
    let mut vw = shared(&w.view(whole));
    let mut vs = shared(&w.view(split));
    if nested_authority_order(&w, &vw.pending) && !vw.pending.is_empty() {
        case.label("excluded:nested-authority-order");
        return Ok(());
    }
    vs.pending.retain(|d| !bad.contains(d));
    case.asserts += 1;
    ensure!(vw == vs, "split-differs", "whole batch / split with invalid events: {}", diff(&w, &vw, &vs));
    // once more, everything
    let evs: Vec<SE> = order.iter().map(|x| w.pool[*x].ev.clone()).collect();
    w.collect(whole);
    let before = w.nodes[whole].emitted.len();
    let ret = w.deliver_raw(whole, evs);
    w.collect(whole);
    let said: Vec<&'static str> = w.nodes[whole].emitted[before..].iter().map(kind).collect();
    case.asserts += 3;
    ensure!(ret == pend_whole, "again-pending", "delivered again: {} pending instead of {}", ret.len(), pend_whole.len());
    let va = shared(&w.view(whole));
    ensure!(va == vw, "again-changes", "delivered again: {}", diff(&w, &vw, &va));
    ensure!(said.is_empty(), "again-announced", "delivered again, the peer announced {said:?}");
    // what was missing arrives: everything is applied
    let rest: Vec<usize> = (0..total).filter(|x| !given.contains(x)).collect();
    let p1 = w.deliver(whole, &rest);
    let p2 = w.deliver(split, &rest);
    let p2: BTreeSet<Dg> = p2.into_iter().filter(|d| !bad.contains(d)).collect();
    if (!p1.is_empty() && nested_authority_order(&w, &p1)) || (!p2.is_empty() && nested_authority_order(&w, &p2)) {
        case.label("excluded:nested-authority-order");
        return Ok(());
    }
    case.asserts += 2;
    ensure!(p1.is_empty() && p2.is_empty(), "still-pending", "everything was delivered, {} and {} events stay pending", p1.len(), p2.len());
    vw = shared(&w.view(whole));
    vs = shared(&w.view(split));
    vw.pending.clear();
    vs.pending.clear();
    ensure!(vw == vs, "completed-differs", "whole / split after the missing events: {}", diff(&w, &vw, &vs));
    case.nontrivial = order.len() >= 6 && (early > 0 || lies > 0);
    if lies > 0 {
        case.label("invalid-events");
    }
    if early > 0 {
        case.label("early-events");
    }
    if missing > 0 {
        case.label("missing-at-first");
    }
    Ok(())
}

// ------------------------------------------------------------------------- C26

fn check_stats(w: &World, i: usize, case: &mut Case) -> Check {
    let kh = &w.nodes[i].kh;
    let s = block_on(kh.stats());
    let s2 = block_on(kh.stats());
    case.asserts += 1;
    ensure!(format!("{s:?}") == format!("{s2:?}"), "stats-unstable", "reading the statistics changes them");
    let pending: BTreeSet<Dg> = block_on(kh.pending_event_hashes()).iter().map(raw).collect();
    let me = w.nodes[i].ident();
    let own = Public.individual();
    let mut people: BTreeSet<Identifier> = [me, Public.id()].into();
    let mut adds = own.prekey_ops().len() as u64;
    let (mut rots, mut dl, mut rv, mut cg, mut mine) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut groups = BTreeSet::new();
    let mut docs = BTreeSet::new();
    let mut pk: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
    for ix in &w.nodes[i].has {
        let e = &w.pool[*ix];
        let issuer = match &e.ev {
            StaticEvent::PrekeysExpanded(s) => Identifier::from(*s.issuer()),
            StaticEvent::PrekeyRotated(s) => Identifier::from(*s.issuer()),
            StaticEvent::CgkaOperation(s) => Identifier::from(*s.issuer()),
            StaticEvent::Delegated(s) => Identifier::from(*s.issuer()),
            StaticEvent::Revoked(s) => Identifier::from(*s.issuer()),
        };
        if pending.contains(&e.d) {
            let c = pk.entry(kind(&e.ev)).or_default();
            c.0 += 1;
            if issuer == me {
                c.1 += 1;
            }
            continue;
        }
        match &e.ev {
            StaticEvent::PrekeysExpanded(_) => {
                people.insert(issuer);
                adds += 1;
                mine += (issuer == me) as u64;
            }
            StaticEvent::PrekeyRotated(_) => {
                people.insert(issuer);
                rots += 1;
                mine += (issuer == me) as u64;
            }
            StaticEvent::CgkaOperation(_) => cg += 1,
            StaticEvent::Delegated(s) => {
                dl += 1;
                if s.payload().proof.is_none() {
                    if w.is_doc(&issuer) {
                        docs.insert(issuer);
                    } else {
                        groups.insert(issuer);
                    }
                }
            }
            StaticEvent::Revoked(_) => rv += 1,
        }
    }
    let p = |k: &str| pk.get(k).copied().unwrap_or((0, 0));
    let rows: Vec<(&str, u64, u64)> = vec![
        ("individuals", s.individuals, people.len() as u64),
        ("groups", s.groups, groups.len() as u64),
        ("docs", s.docs, docs.len() as u64),
        ("delegations", s.delegations, dl),
        ("revocations", s.revocations, rv),
        ("prekeys_expanded", s.prekeys_expanded, adds),
        ("prekey_rotations", s.prekey_rotations, rots),
        ("cgka_operations", s.cgka_operations, cg),
        ("active_prekey_count", s.active_prekey_count, mine),
        ("pending_prekeys_expanded", s.pending_prekeys_expanded, p("prekey+").0),
        ("pending_prekeys_expanded_by_active", s.pending_prekeys_expanded_by_active, p("prekey+").1),
        ("pending_prekey_rotated", s.pending_prekey_rotated, p("prekey~").0),
        ("pending_prekey_rotated_by_active", s.pending_prekey_rotated_by_active, p("prekey~").1),
        ("pending_cgka_operation", s.pending_cgka_operation, p("cgka").0),
        ("pending_cgka_operation_by_active", s.pending_cgka_operation_by_active, p("cgka").1),
        ("pending_delegated", s.pending_delegated, p("dlg").0),
        ("pending_delegated_by_active", s.pending_delegated_by_active, p("dlg").1),
        ("pending_revoked", s.pending_revoked, p("rev").0),
        ("pending_revoked_by_active", s.pending_revoked_by_active, p("rev").1),
    ];
    for (name, got, want) in rows {
        case.asserts += 1;
        ensure!(got == want, name, "P{i}: {name} is {got}, counted {want}");
    }
    Ok(())
}

fn c26(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(3);
    let mut w = World::new(src.below(1 << 20), n);
    if src.chance(1, 2) {
        w.introduce_all();
    }
    let cfg = Cfg {
        nest_docs: src.chance(1, 4),
        public: src.chance(1, 4),
        w_prekey: 5,
        w_partial: 8,
        w_restart: 2,
        ..Default::default()
    };
    let steps = 3 + src.idx(20);
    let mut nt = false;
    for _ in 0..steps {
        let d = hist::step(src, case, &mut w, &cfg);
        nt |= matches!(d, hist::Done::Restarted(_) | hist::Done::Revoked { .. });
        if src.chance(1, 4) {
            let i = src.idx(n);
            let again: Vec<usize> = w.nodes[i].has.iter().copied().filter(|_| src.chance(1, 2)).collect();
            w.deliver(i, &again);
            case.note(format!("P{i} is given {} events again", again.len()));
        }
        let i = src.idx(n);
        check_stats(&w, i, case)?;
        nt |= !block_on(w.nodes[i].kh.pending_event_hashes()).is_empty();
    }
    for i in 0..n {
        check_stats(&w, i, case)?;
    }
    let dl = w.pool.iter().filter(|e| matches!(e.ev, StaticEvent::Delegated(_))).count();
    hist::label_pool(case, &w);
    case.nontrivial = nt && dl > w.groups.len() + w.docs.len();
    Ok(())
}
