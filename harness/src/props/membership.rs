//! Groups, delegations, revocations: C08, C09, C12 ...
use crate::engine::*;
use crate::hist::{self, Cfg};
use crate::hist::Done;
use crate::model::{self, Grant, Ledger, Revoc};
use crate::world::*;
use keyhive_core::{
    access::Access,
    event::static_event::StaticEvent,
    principal::{
        group::{delegation::StaticDelegation, revocation::StaticRevocation},
        identifier::Identifier,
        membered::id::MemberedId,
        public::Public,
    },
};
use keyhive_crypto::{digest::Digest, signed::Signed};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    const FIN: &[&str] = &["finite histories of at most 30 operations by at most 5 peers, delivered without loss of integrity; no cyclic memberships (see KNOWN_FINDINGS.json, C24)"];
    vec![
        Prop {
            id: "C08",
            run: c08,
            quick: 8000,
            thorough: 300000,
            scripted: &[c08_nested],
            rule: "history has at least 2 grants beyond group/document creation and at least one pair of concurrent membership events or a revocation; observers got it in at least 2 different orders",
            assumptions: FIN,
        },
        Prop {
            id: "C09",
            run: c09,
            quick: 6000,
            thorough: 300000,
            scripted: &[],
            rule: "some peer's membership graph has a group or document nested in another and somebody with two different paths or an indirect path whose weakest link is not its last",
            assumptions: FIN,
        },
        Prop {
            id: "C10",
            run: c10,
            quick: 6000,
            thorough: 300000,
            scripted: &[],
            rule: "at least 2 crafted attack events were delivered to a peer that has the attacked group, or at least 2 unauthorised local calls were made by a peer that has the group",
            assumptions: FIN,
        },
        Prop {
            id: "C11",
            run: c11,
            quick: 6000,
            thorough: 300000,
            scripted: &[],
            rule: "at least one successful revocation of a member, with other members present",
            assumptions: FIN,
        },
        Prop {
            id: "C12",
            run: c12,
            quick: 6000,
            thorough: 300000,
            scripted: &[],
            rule: "at least 3 grants, at least one of them resting on another grant (a chain of 2 or more), and partial delivery or a revocation",
            assumptions: FIN,
        },
    ]
}

/// Everything about memberships that has to be the same at every replica (drops what depends
/// on which private keys a replica holds).
pub fn shared(v: &View) -> View {
    let mut v = v.clone();
    for d in v.docs.values_mut() {
        d.pcs = None;
    }
    v
}

pub fn diff(w: &World, a: &View, b: &View) -> String {
    let mut out = vec![];
    for (k, x) in a.groups.iter().chain(a.docs.iter()) {
        let y = b.groups.get(k).or_else(|| b.docs.get(k));
        match y {
            None => out.push(format!("{} unknown on the other side", w.name(k))),
            Some(y) if y != x => {
                let mut what = vec![];
                if x.members != y.members { what.push("members") }
                if x.transitive != y.transitive { what.push("transitive") }
                if x.revoked != y.revoked { what.push("revoked") }
                if x.dlg_heads != y.dlg_heads { what.push("dlg_heads") }
                if x.rev_heads != y.rev_heads { what.push("rev_heads") }
                if x.cgka_members != y.cgka_members { what.push("cgka_members") }
                if x.cgka_ops != y.cgka_ops { what.push("cgka_ops") }
                if x.heads != y.heads { what.push("content_heads") }
                if x.pcs != y.pcs { what.push("pcs") }
                out.push(format!("{} differs in {what:?}: {} / {}", w.name(k), w.describe(x), w.describe(y)))
            }
            _ => {}
        }
    }
    for k in b.groups.keys().chain(b.docs.keys()) {
        if !a.groups.contains_key(k) && !a.docs.contains_key(k) {
            out.push(format!("{} known only to the second", w.name(k)));
        }
    }
    for (k, x) in &a.individuals {
        match b.individuals.get(k) {
            None => out.push(format!("individual {} unknown on the other side", w.name(k))),
            Some(y) if x != y => out.push(format!("individual {} differs", w.name(k))),
            _ => {}
        }
    }
    if a.pending != b.pending {
        out.push(format!("pending {} / {}", a.pending.len(), b.pending.len()));
    }
    out.join("; ")
}

pub fn feed(src: &mut Src, w: &mut World, i: usize, order: &[usize], dup: bool) {
    let mut k = 0;
    while k < order.len() {
        let n = match src.weighted(&[3, 2, 2]) {
            0 => order.len() - k,
            1 => 1,
            _ => 1 + src.idx(order.len() - k),
        };
        let mut chunk: Vec<usize> = order[k..k + n].to_vec();
        if dup && src.chance(1, 3) && k > 0 {
            chunk.push(order[src.idx(k)]);
        }
        w.deliver(i, &chunk);
        k += n;
    }
}

fn c08(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(3);
    let mut w = World::new(src.below(1 << 20), n);
    w.introduce_all();
    let cfg = Cfg { nest_docs: src.chance(1, 4), public: src.chance(1, 4), w_outsider: if src.chance(1, 5) { 5 } else { 0 }, ..Default::default() };
    let steps = 4 + src.idx(22);
    for _ in 0..steps {
        hist::step(src, case, &mut w, &cfg);
    }
    // Everything everywhere.
    w.deliver_all();
    w.deliver_all();
    let base: Vec<View> = (0..n).map(|i| shared(&w.view(i))).collect();
    hist::label_pool(case, &w);
    let orders = 3;
    for o in 0..orders {
        let i = w.add_node();
        let own: BTreeSet<usize> = w.nodes[i].has.clone();
        let mut order: Vec<usize> = (0..w.pool.len()).filter(|x| !own.contains(x) && w.pool[*x].by < n).collect();
        src.shuffle(&mut order);
        feed(src, &mut w, i, &order, true);
        case.note(format!("observer {o} received all events in order {order:?}"));
    }
    let obs: Vec<View> = (n..n + orders).map(|i| {
        let mut v = shared(&w.view(i));
        for j in n..n + orders { v.individuals.remove(&w.nodes[j].ident()); }
        v
    }).collect();
    let dl = w.pool.iter().filter(|e| matches!(e.ev, StaticEvent::Delegated(_))).count();
    let rv = w.pool.iter().filter(|e| matches!(e.ev, StaticEvent::Revoked(_))).count();
    case.nontrivial = dl >= w.groups.len() + w.docs.len() + 2 && (rv > 0 || dl > 4);
    for (i, v) in base.iter().chain(obs.iter()).enumerate() {
        case.asserts += 1;
        if !v.pending.is_empty() {
            let names: Vec<String> = w.pool.iter().enumerate().filter(|(_, e)| v.pending.contains(&e.d)).map(|(i, e)| format!("#{i} {}", kind(&e.ev))).collect();
            let sig = if nested_authority_order(&w, &v.pending) { NESTED } else { "pending-after-all" };
            case.raise(sig, format!("replica {i} has everything but keeps {names:?} pending"))?;
            // A listed finding: what follows from the missing events is part of it.
            case.label("excluded:nested-authority-order");
            return Ok(());
        }
    }
    for (i, v) in base.iter().chain(obs.iter()).enumerate().skip(1) {
        case.asserts += 1;
        if *v != base[0] {
            case.raise("diverged", format!("replica 0 vs replica {i}: {}", diff(&w, &base[0], v)))?;
        }
    }
    Ok(())
}

pub const NESTED: &str = "nested-authority-order";

/// Are all these pending events explained by the listed finding: a grant or revocation whose
/// signer holds the authority it cites only as a member of a nested group or document (so that
/// it is judged by the receiver's current view of that group), or an event waiting for one?
pub fn nested_authority_order(w: &World, pending: &BTreeSet<Dg>) -> bool {
    nested_authority(w, pending, true)
}

/// As above; without `was_lost`, also where the signer's membership of the nested group may
/// merely not have arrived yet.
pub fn nested_authority(w: &World, pending: &BTreeSet<Dg>, was_lost: bool) -> bool {
    let mut by_op = std::collections::BTreeMap::new();
    for e in &w.pool {
        by_op.insert(op_digest(&e.ev), &e.ev);
    }
    let dlg = |d: &Dg| match by_op.get(d) {
        Some(StaticEvent::Delegated(s)) => Some(s.clone()),
        _ => None,
    };
    let pend: Vec<&SE> = w.pool.iter().filter(|e| pending.contains(&e.d)).map(|e| &e.ev).collect();
    let pend_ops: BTreeSet<Dg> = pend.iter().map(|e| op_digest(e)).collect();
    if pend.len() != pending.len() {
        return false;
    }
    // memberships somebody was removed from
    let led = crate::model::Ledger::from_pool(w, &(0..w.pool.len()).collect());
    let removed: BTreeSet<Identifier> = led.revs.values().map(|r| r.subject).collect();
    let lost = |d: &Identifier| {
        if !was_lost {
            return true;
        }
        let mut todo = vec![*d];
        let mut seen = BTreeSet::new();
        while let Some(x) = todo.pop() {
            if removed.contains(&x) {
                return true;
            }
            if seen.insert(x) {
                todo.extend(led.grants.values().filter(|g| g.subject == x).map(|g| g.delegate));
            }
        }
        false
    };
    let mut any = false;
    for e in pend {
        let (nested, deps): (bool, Vec<Dg>) = match e {
            StaticEvent::Delegated(s) => {
                let p = s.payload();
                let proof = p.proof.map(|x| raw(&x));
                let n = proof.and_then(|x| dlg(&x)).map(|pr| pr.payload().delegate != Identifier::from(*s.issuer()) && lost(&pr.payload().delegate)).unwrap_or(false);
                (n, proof.into_iter().chain(p.after_revocations.iter().map(raw)).collect())
            }
            StaticEvent::Revoked(s) => {
                let p = s.payload();
                let proof = p.proof.map(|x| raw(&x));
                let target = raw(&p.revoke);
                let n = proof
                    .and_then(|x| dlg(&x).map(|pr| (x, pr)))
                    .map(|(x, pr)| {
                        let mut up = Some(target);
                        let mut on_path = false;
                        while let Some(u) = up {
                            on_path |= u == x;
                            up = led.grants.get(&u).and_then(|g| g.proof);
                        }
                        pr.payload().delegate != Identifier::from(*s.issuer())
                            && !(on_path && pr.issuer() == s.issuer())
                            && lost(&pr.payload().delegate)
                    })
                    .unwrap_or(false);
                (n, proof.into_iter().chain([raw(&p.revoke)]).collect())
            }
            // group-key operations may wait for a document that waits for its grants
            StaticEvent::CgkaOperation(_) => (false, pend_ops.iter().copied().collect()),
            _ => (false, vec![]),
        };
        any |= nested;
        if !nested && !deps.iter().any(|d| pend_ops.contains(d)) {
            return false;
        }
    }
    any
}

/// Witness: P0's authority in G2 is only its membership of G1. P1 hears that P0 left G1 before
/// it hears what P0 did to G2 earlier.
fn c08_nested(_src: &mut Src, case: &mut Case) -> Check {
    let mut w = World::new(77, 2);
    w.introduce_all();
    let p0 = w.nodes[0].ident();
    let g1 = w.new_group(0, &[]).expect("G1");
    let g2 = w.new_group(0, &[g1.into()]).expect("G2");
    let _ = w.revoke(0, g2.into(), p0, false);
    w.deliver_all();
    let n0 = w.pool.len();
    // through G1, P0 removes G1 from G2 ...
    let a = w.revoke(0, g2.into(), g1.into(), false);
    let n1 = w.pool.len();
    // ... and then leaves G1.
    let b = w.revoke(0, g1.into(), p0, false);
    case.note(format!("P0 revokes G1 from G2: {a:?}; P0 revokes itself from G1: {b:?}; P1 hears the second first"));
    let late: Vec<usize> = (n1..w.pool.len()).collect();
    let early: Vec<usize> = (n0..n1).collect();
    w.deliver(1, &late);
    w.deliver(1, &early);
    let v = w.view(1);
    case.asserts += 1;
    if !v.pending.is_empty() {
        let sig = if nested_authority_order(&w, &v.pending) { NESTED } else { "pending-after-all" };
        case.raise(sig, format!("P1 has everything but keeps {} events pending", v.pending.len()))?;
    }
    Ok(())
}

// ------------------------------------------------------------------------- C09

/// Name used in messages.
fn nm(w: &World, id: &Identifier) -> String {
    w.name(id)
}

fn fmt_map(w: &World, m: &BTreeMap<Identifier, Access>) -> String {
    m.iter().map(|(k, v)| format!("{}:{v:?}", nm(w, k))).collect::<Vec<_>>().join(" ")
}

/// All access answers of node `i` agree with the max-min path model over its direct members.
pub fn check_access(w: &World, i: usize, case: &mut Case) -> Check {
    let v = w.view(i);
    let dm = model::direct_map(&v);
    let mut by_model: BTreeMap<Identifier, BTreeMap<Identifier, Access>> = BTreeMap::new();
    for (id, m) in v.groups.iter().chain(v.docs.iter()) {
        let t = model::transitive(&dm, *id);
        case.asserts += 1;
        ensure!(
            t == m.transitive,
            "transitive-differs",
            "P{i}: {} transitive members {{{}}}, by definition {{{}}}",
            nm(w, id), fmt_map(w, &m.transitive), fmt_map(w, &t)
        );
        // direct capability is the best of the live grants
        for (who, best) in model::direct_of(m) {
            let cap = match w.membered(i, *id) {
                Some(Mb::Group(_, g)) => block_on(async { g.lock().await.get_capability(&who).map(|d| d.payload().can()) }),
                Some(Mb::Document(_, d)) => block_on(async { d.lock().await.get_capability(&who).map(|d| d.payload().can()) }),
                None => None,
            };
            case.asserts += 1;
            ensure!(cap == Some(best), "capability-differs", "P{i}: capability of {} on {} is {cap:?}, best live grant is {best:?}", nm(w, &who), nm(w, id));
        }
        if let Some(mb) = w.membered(i, *id) {
            let got: BTreeMap<Identifier, Access> =
                block_on(w.nodes[i].kh.reachable_members(mb)).into_iter().map(|(k, x)| (k, x.1)).collect();
            case.asserts += 1;
            ensure!(got == t, "reachable-members-differs", "P{i}: reachable_members({}) = {{{}}}, by definition {{{}}}", nm(w, id), fmt_map(w, &got), fmt_map(w, &t));
        }
        by_model.insert(*id, t);
    }
    // the reverse direction, for every agent the peer knows
    let mut agents: Vec<Identifier> = w.nodes.iter().map(|n| n.ident()).collect();
    agents.push(Public.id());
    agents.extend(v.groups.keys().chain(v.docs.keys()).copied());
    for a in agents {
        let Some(ag) = w.agent(i, a) else { continue };
        let want: BTreeMap<Identifier, Access> =
            by_model.iter().filter_map(|(t, ms)| ms.get(&a).map(|x| (*t, *x))).collect();
        let got: BTreeMap<Identifier, Access> = block_on(w.nodes[i].kh.membered_reachable_by_agent(&ag))
            .into_iter()
            .map(|(k, x)| (membered_ident(&k), x.1))
            .collect();
        case.asserts += 2;
        ensure!(got == want, "membered-reachable-differs", "P{i}: membered_reachable_by_agent({}) = {{{}}}, by definition {{{}}}", nm(w, &a), fmt_map(w, &got), fmt_map(w, &want));
        let want_docs: BTreeMap<Identifier, Access> =
            want.iter().filter(|(t, _)| v.docs.contains_key(t)).map(|(t, x)| (*t, *x)).collect();
        let got: BTreeMap<Identifier, Access> = block_on(w.nodes[i].kh.docs_reachable_by_agent(&ag))
            .into_iter()
            .map(|(k, x)| (Identifier::from(k), x.can()))
            .collect();
        ensure!(got == want_docs, "docs-reachable-differs", "P{i}: docs_reachable_by_agent({}) = {{{}}}, by definition {{{}}}", nm(w, &a), fmt_map(w, &got), fmt_map(w, &want_docs));
        if a == w.nodes[i].ident() {
            let got: BTreeMap<Identifier, Access> = block_on(w.nodes[i].kh.reachable_docs())
                .into_iter()
                .map(|(k, x)| (Identifier::from(k), x.can()))
                .collect();
            case.asserts += 1;
            ensure!(got == want_docs, "reachable-docs-differs", "P{i}: reachable_docs = {{{}}}, by definition {{{}}}", fmt_map(w, &got), fmt_map(w, &want_docs));
        }
    }
    Ok(())
}

fn membered_ident(m: &MemberedId) -> Identifier {
    match m {
        MemberedId::GroupId(g) => Identifier::from(*g),
        MemberedId::DocumentId(d) => Identifier::from(*d),
    }
}

fn interesting_graph(v: &View) -> bool {
    let dm = model::direct_map(v);
    dm.iter().any(|(_, ms)| {
        ms.iter().any(|(m, a)| match dm.get(m) {
            Some(sub) => sub.iter().any(|(x, b)| b > a || ms.contains_key(x)),
            None => false,
        })
    })
}

fn c09(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(3);
    let mut w = World::new(src.below(1 << 20), n);
    w.introduce_all();
    let cfg = Cfg {
        nest_docs: src.chance(1, 2),
        public: src.chance(1, 3),
        linear: src.chance(1, 2),
        w_encrypt: 0,
        w_update: 0,
        w_prekey: 0,
        w_add: 24,
        max_groups: 5,
        ..Default::default()
    };
    let steps = 6 + src.idx(24);
    for k in 0..steps {
        hist::step(src, case, &mut w, &cfg);
        if k % 4 == 3 || k + 1 == steps {
            for i in 0..n {
                if interesting_graph(&w.view(i)) {
                    case.nontrivial = true;
                    case.label("graph:interesting");
                }
                check_access(&w, i, case)?;
            }
        }
    }
    hist::label_pool(case, &w);
    Ok(())
}

// ------------------------------------------------------------------------- liveness by definition

/// Grants alive by definition at a node that has accepted `l`, if exactly the grants in
/// `revoked` are revoked: the least set that contains every unrevoked root and every unrevoked
/// grant whose proof is in it or whose proof's holder has a grant in it of at least the access.
pub fn live(l: &Ledger, revoked: &BTreeSet<Dg>) -> BTreeSet<Dg> {
    let mut live: BTreeSet<Dg> = BTreeSet::new();
    loop {
        let before = live.len();
        for (d, g) in &l.grants {
            if live.contains(d) || revoked.contains(d) {
                continue;
            }
            let ok = match g.proof {
                None => g.issuer == g.subject,
                Some(p) => {
                    live.contains(&p)
                        || l.grants.get(&p).is_some_and(|pg| {
                            live.iter().any(|x| {
                                let a = &l.grants[x];
                                a.subject == g.subject && a.delegate == pg.delegate && a.can >= g.can
                            })
                        })
                }
            };
            if ok {
                live.insert(*d);
            }
        }
        if live.len() == before {
            return live;
        }
    }
}

fn descends(l: &Ledger, mut d: Dg, from: Dg) -> bool {
    loop {
        if d == from {
            return true;
        }
        match l.grants.get(&d).and_then(|g| g.proof) {
            Some(p) => d = p,
            None => return false,
        }
    }
}

/// What the node has accepted, by definition: given to it and not reported as pending.
pub fn accepted(w: &World, i: usize) -> Ledger {
    let v = w.view(i);
    let has: BTreeSet<usize> =
        w.nodes[i].has.iter().copied().filter(|ix| !v.pending.contains(&w.pool[*ix].d)).collect();
    Ledger::from_pool(w, &has)
}

/// The grants in force: every accepted revocation counts, wherever it came from, and a grant
/// needs its proof, or another grant to its proof's holder that is no weaker than itself.
pub fn in_force(l: &Ledger) -> BTreeSet<Dg> {
    live(l, &l.revs.values().map(|r| r.target).collect())
}

fn materialised(v: &View) -> BTreeMap<Identifier, BTreeSet<Dg>> {
    v.groups
        .iter()
        .chain(v.docs.iter())
        .map(|(id, m)| (*id, m.members.values().flatten().map(|x| x.0).collect()))
        .collect()
}

fn show_grant(w: &World, l: &Ledger, d: &Dg) -> String {
    match l.grants.get(d) {
        Some(g) => format!("#{} {} -> {} on {} as {:?} proof {:?}", g.ix, nm(w, &g.issuer), nm(w, &g.delegate), nm(w, &g.subject), g.can,
            g.proof.and_then(|p| l.grants.get(&p)).map(|p| p.ix)),
        None => "unknown grant".into(),
    }
}

pub fn check_in_force(w: &World, i: usize, case: &mut Case) -> Check {
    let v = w.view(i);
    let l = accepted(w, i);
    let b = in_force(&l);
    let mat = materialised(&v);
    for (id, ds) in &mat {
        for d in ds {
            case.asserts += 1;
            if !b.contains(d) {
                return case.raise(
                    "dead-grant-counts",
                    format!("P{i} counts a grant on {} that cannot be alive: {}", nm(w, id), show_grant(w, &l, d)),
                );
            }
            let g = &l.grants[d];
            ensure!(g.subject == *id, "wrong-subject", "P{i} counts on {} a grant for something else: {}", nm(w, id), show_grant(w, &l, d));
        }
    }
    for d in &b {
        let g = &l.grants[d];
        case.asserts += 1;
        let known = mat.get(&g.subject).map(|ds| ds.contains(d));
        if known != Some(true) {
            return case.raise(
                "live-grant-missing",
                format!("P{i} has accepted a grant nothing revokes, but does not count it: {}", show_grant(w, &l, d)),
            );
        }
    }
    // those revoked: the holder of any revoked grant without a live one, at the best access lost
    let mut gone: BTreeMap<Identifier, BTreeMap<Identifier, Access>> = BTreeMap::new();
    for r in l.revs.values() {
        if let Some(g) = l.grants.get(&r.target) {
            let e = gone.entry(r.subject).or_default().entry(g.delegate).or_insert(g.can);
            *e = (*e).max(g.can);
        }
    }
    for (id, m) in v.groups.iter().chain(v.docs.iter()) {
        let mut want = gone.remove(id).unwrap_or_default();
        want.retain(|who, _| !m.members.contains_key(who));
        case.asserts += 1;
        ensure!(m.revoked == want, "wrong-revoked-list", "P{i} lists as revoked from {}: {:?}, not {:?}", nm(w, id), names_of(w, &m.revoked), names_of(w, &want));
    }
    Ok(())
}

fn names_of(w: &World, m: &BTreeMap<Identifier, Access>) -> Vec<String> {
    m.iter().map(|(k, a)| format!("{}:{a:?}", nm(w, k))).collect()
}

// ------------------------------------------------------------------------- C11

fn membership_cfg(src: &mut Src) -> Cfg {
    // one group, and everybody does what they may: chains of grants that rest on each other
    let narrow = src.chance(2, 5);
    Cfg {
        nest_docs: src.chance(1, 4),
        public: src.chance(1, 5),
        linear: src.chance(1, 3),
        w_encrypt: 0,
        w_update: 0,
        w_prekey: 0,
        w_group: if narrow { 30 } else { 4 },
        w_add: 20,
        w_revoke: 9,
        retain_pct: 40,
        max_groups: if narrow { 1 } else { 3 },
        max_docs: if narrow { 0 } else { 2 },
        able_pct: if narrow { 80 } else { 25 },
        ..Default::default()
    }
}

fn c11(src: &mut Src, case: &mut Case) -> Check {
    let n = 3 + src.idx(2);
    let mut w = World::new(src.below(1 << 20), n);
    w.introduce_all();
    let cfg = membership_cfg(src);
    let steps = 8 + src.idx(22);
    let mut revoked_ok = 0;
    for _ in 0..steps {
        let before: Vec<View> = (0..n).map(|i| w.view(i)).collect();
        let done = hist::step(src, case, &mut w, &cfg);
        match &done {
            Done::Revoked { by, target, who, retain, evs } => {
                let i = *by;
                let b = before[i].groups.get(target).or_else(|| before[i].docs.get(target));
                let after = hist::membered_view(&w, i, *target);
                let (Some(b), Some(a)) = (b, after) else { continue };
                if b.members.contains_key(who) {
                    revoked_ok += 1;
                    if b.members.len() > 1 {
                        case.nontrivial = true;
                    }
                    // every grant the member had is the target of a revocation that was announced
                    let targets: BTreeSet<Dg> = evs
                        .iter()
                        .filter_map(|ix| match &w.pool[*ix].ev {
                            StaticEvent::Revoked(r) => Some(raw(&r.payload().revoke)),
                            _ => None,
                        })
                        .collect();
                    for g in &b.members[who] {
                        case.asserts += 1;
                        ensure!(targets.contains(&g.0), "grant-not-revoked", "P{i} revoked {} from {} but issued no revocation for one of its grants", nm(&w, who), nm(&w, target));
                    }
                    case.asserts += 1;
                    ensure!(
                        !a.members.contains_key(who),
                        "still-member",
                        "P{i} revoked {} from {}: still a direct member with {:?}", nm(&w, who), nm(&w, target), a.members.get(who).map(|x| x.iter().map(|y| y.1).collect::<Vec<_>>())
                    );
                    ensure!(a.revoked.contains_key(who), "not-listed-revoked", "P{i} revoked {} from {}: not among the revoked members", nm(&w, who), nm(&w, target));
                    if *retain {
                        for (m, ds) in &b.members {
                            if m == who {
                                continue;
                            }
                            let had = ds.iter().map(|d| d.1).max().unwrap();
                            let has = a.members.get(m).map(|ds| ds.iter().map(|d| d.1).max().unwrap());
                            case.asserts += 1;
                            ensure!(
                                has >= Some(had),
                                "not-retained",
                                "P{i} revoked {} from {} retaining the others, but {} went from {had:?} to {has:?}", nm(&w, who), nm(&w, target), nm(&w, m)
                            );
                        }
                        case.label("revoke:retain");
                    } else {
                        case.label("revoke:cascade");
                    }
                    // nobody else loses a grant that did not rest on the revoked ones
                    let l = accepted(&w, i);
                    let force = in_force(&l);
                    for (m, ds) in &b.members {
                        for d in ds {
                            case.asserts += 1;
                            ensure!(
                                m == who || !force.contains(&d.0) || a.members.get(m).is_some_and(|x| x.contains(d)),
                                "bystander-lost-access",
                                "P{i} revoked {} from {}: {} lost {}", nm(&w, who), nm(&w, target), nm(&w, m), show_grant(&w, &l, &d.0)
                            );
                        }
                    }
                }
            }
            Done::Added { by, target, who, can, .. } => {
                let a = hist::membered_view(&w, *by, *target);
                if let Some(a) = a {
                    case.asserts += 1;
                    let has = a.members.get(who).map(|ds| ds.iter().map(|d| d.1).max().unwrap());
                    let was = before[*by].groups.get(target).or_else(|| before[*by].docs.get(target)).map(|b| b.revoked.contains_key(who));
                    if was == Some(true) {
                        case.label("add:after-revocation");
                    }
                    ensure!(has >= Some(*can), "grant-without-effect", "P{by} added {} to {} as {can:?}, but its access there is {has:?}", nm(&w, who), nm(&w, target));
                }
            }
            _ => {}
        }
        for i in 0..n {
            if w.view(i) != before[i] {
                check_in_force(&w, i, case)?;
            }
        }
    }
    // Everything everywhere: the revocations made along the way are in force at every peer.
    w.deliver_all();
    for i in 0..n {
        check_in_force(&w, i, case)?;
    }
    if revoked_ok > 0 {
        case.label("history:revoked-member");
    }
    // Late repeats of old events bring nobody back.
    let order = src.perm(w.pool.len());
    for i in 0..n {
        let v = w.view(i);
        let own: Vec<usize> = order.iter().copied().filter(|ix| w.nodes[i].has.contains(ix)).collect();
        w.deliver(i, &own);
        case.asserts += 1;
        let v2 = w.view(i);
        ensure!(shared(&v) == shared(&v2), "old-events-changed-state", "P{i}: repeating events it has changes its state: {}", diff(&w, &v, &v2));
    }
    Ok(())
}

// ------------------------------------------------------------------------- C12

/// Re-validate a materialised grant from the raw signed events.
fn check_chain(w: &World, i: usize, l: &Ledger, d: &Dg, case: &mut Case) -> Check {
    let mut d = *d;
    let mut hops = 0;
    loop {
        let Some(g) = l.grants.get(&d) else {
            return fail("chain-broken", format!("P{i}: a live grant rests on one that was never accepted"));
        };
        let StaticEvent::Delegated(s) = &w.pool[g.ix].ev else { unreachable!() };
        case.asserts += 1;
        ensure!(s.try_verify().is_ok(), "chain-signature", "P{i}: live grant {} has a bad signature", show_grant(w, l, &d));
        match g.proof {
            None => {
                ensure!(g.issuer == g.subject, "chain-root", "P{i}: chain does not end at its group: {}", show_grant(w, l, &d));
                return Ok(());
            }
            Some(p) => {
                let Some(pg) = l.grants.get(&p) else {
                    return fail("chain-broken", format!("P{i}: proof of {} was never accepted", show_grant(w, l, &d)));
                };
                ensure!(g.can <= pg.can, "chain-escalates", "P{i}: {} grants more than its proof {}", show_grant(w, l, &d), show_grant(w, l, &p));
                ensure!(
                    g.issuer == pg.delegate || ever_member(l, pg.delegate, g.issuer, g.can),
                    "chain-holder",
                    "P{i}: {} is not signed by a holder of its proof {}", show_grant(w, l, &d), show_grant(w, l, &p)
                );
                d = p;
            }
        }
        hops += 1;
        ensure!(hops < 10_000, "chain-endless", "endless chain");
    }
}

/// Was there ever a path of grants of at least `can` from `of` to `who`?
fn ever_member(l: &Ledger, of: Identifier, who: Identifier, can: Access) -> bool {
    let mut todo = vec![of];
    let mut seen = BTreeSet::new();
    while let Some(x) = todo.pop() {
        for g in l.grants.values().filter(|g| g.subject == x && g.can >= can) {
            if g.delegate == who {
                return true;
            }
            if seen.insert(g.delegate) {
                todo.push(g.delegate);
            }
        }
    }
    false
}

fn c12(src: &mut Src, case: &mut Case) -> Check {
    let n = 3 + src.idx(2);
    let mut w = World::new(src.below(1 << 20), n);
    if src.chance(4, 5) {
        w.introduce_all();
    } else {
        case.label("not-introduced");
    }
    let mut cfg = membership_cfg(src);
    cfg.w_partial = 8;
    cfg.w_restart = 1;
    let steps = 8 + src.idx(22);
    for _ in 0..steps {
        let before: Vec<View> = (0..n).map(|i| w.view(i)).collect();
        hist::step(src, case, &mut w, &cfg);
        for i in 0..n {
            let v = w.view(i);
            if v == before[i] {
                continue;
            }
            let l = accepted(&w, i);
            if l.grants.len() >= 3 && l.grants.values().any(|g| g.proof.is_some()) && (!l.revs.is_empty() || w.nodes[i].has.len() < w.pool.len()) {
                case.nontrivial = true;
            }
            for ds in materialised(&v).values() {
                for d in ds {
                    check_chain(&w, i, &l, d, case)?;
                }
            }
            check_in_force(&w, i, case)?;
        }
    }
    hist::label_pool(case, &w);
    Ok(())
}

// ------------------------------------------------------------------------- C10

/// By definition: may `issuer` issue this grant, with respect to everything ever accepted?
pub fn grant_authorised(l: &Ledger, issuer: Identifier, can: Access, proof: Option<Dg>) -> Option<Identifier> {
    match proof {
        None => Some(issuer),
        Some(p) => {
            let pg = l.grants.get(&p)?;
            (can <= pg.can && (issuer == pg.delegate || ever_member(l, pg.delegate, issuer, can))).then_some(pg.subject)
        }
    }
}

pub fn revocation_authorised(l: &Ledger, issuer: Identifier, target: Dg, proof: Option<Dg>) -> bool {
    let Some(t) = l.grants.get(&target) else { return false };
    match proof {
        None => issuer == t.subject,
        Some(p) => {
            let Some(pg) = l.grants.get(&p) else { return false };
            if pg.subject != t.subject && !(issuer == pg.delegate && t.delegate == issuer) {
                return false;
            }
            (descends(l, target, p) && (issuer == pg.issuer || issuer == pg.delegate))
                || (issuer == pg.delegate && t.delegate == issuer)
                || (pg.can >= t.can && ever_member(l, pg.delegate, issuer, t.can))
        }
    }
}

fn dig<T: serde::Serialize>(d: &Dg) -> Digest<T> {
    Digest::from(*d)
}

/// One crafted event signed with `m`'s key (or pretending to be somebody else's) that by
/// definition must not have any effect. None if the random combination happens to be allowed.
pub fn craft_attack(src: &mut Src, w: &World, m: usize, l: &Ledger) -> Option<(SE, &'static str, String)> {
    let me = w.nodes[m].ident();
    let grants: Vec<&Grant> = {
        let mut v: Vec<&Grant> = l.grants.values().collect();
        v.sort_by_key(|g| g.ix);
        v
    };
    let revs: Vec<&Revoc> = {
        let mut v: Vec<&Revoc> = l.revs.values().collect();
        v.sort_by_key(|g| g.ix);
        v
    };
    if grants.is_empty() {
        return None;
    }
    let mut people: Vec<Identifier> = w.nodes.iter().map(|n| n.ident()).collect();
    people.extend(w.groups.iter().map(|g| Identifier::from(*g)));
    let kind = src.weighted(&[4, 4, 2, 2, 2, 2, 3]);
    match kind {
        // a grant of one's own, ordinary but for revocations taken from elsewhere
        6 => {
            let mine: Vec<&&Grant> = grants.iter().filter(|g| g.delegate == me).collect();
            if mine.is_empty() || revs.is_empty() {
                return None;
            }
            let pg = **src.pick(&mine);
            let foreign: Vec<&&Revoc> = revs.iter().filter(|r| r.subject != pg.subject).collect();
            if foreign.is_empty() {
                return None;
            }
            let delegate = if src.chance(1, 3) { me } else { *src.pick(&people) };
            let p = StaticDelegation {
                can: pg.can,
                proof: Some(dig(&pg.d)),
                delegate,
                after_revocations: vec![dig(&src.pick(&foreign).d)],
                after_content: BTreeMap::new(),
            };
            let s = w.nodes[m].signer.try_sign_sync(p).ok()?;
            Some((StaticEvent::Delegated(s), "foreign-revocations", format!("P{m} grants {} {:?} on {} citing {} and another group's revocation", nm(w, &delegate), pg.can, nm(w, &pg.subject), show_grant(w, l, &pg.d))))
        }
        // a grant citing some proof
        0 => {
            let mine: Vec<&&Grant> = grants.iter().filter(|g| g.delegate == me).collect();
            let pg = if !mine.is_empty() && src.chance(1, 2) { **src.pick(&mine) } else { *src.pick(&grants) };
            let can = hist::access(src);
            let delegate = if src.chance(1, 3) { me } else { *src.pick(&people) };
            let after = if !revs.is_empty() && src.chance(1, 3) { vec![dig(&src.pick(&revs).d)] } else { vec![] };
            if grant_authorised(l, me, can, Some(pg.d)).is_some() {
                return None;
            }
            let p = StaticDelegation {
                can,
                proof: Some(dig(&pg.d)),
                delegate,
                after_revocations: after,
                after_content: BTreeMap::new(),
            };
            let s = w.nodes[m].signer.try_sign_sync(p).ok()?;
            Some((StaticEvent::Delegated(s), "grant", format!("P{m} grants {} {can:?} on {} citing {}", nm(w, &delegate), nm(w, &pg.subject), show_grant(w, l, &pg.d))))
        }
        // a revocation citing some proof or none
        1 => {
            let t = *src.pick(&grants);
            let mine: Vec<&&Grant> = grants.iter().filter(|g| g.delegate == me).collect();
            let proof = match src.weighted(&[3, 3, 2, 1]) {
                0 if !mine.is_empty() => Some(src.pick(&mine).d),
                1 => Some(t.d),
                2 => Some(src.pick(&grants).d),
                _ => None,
            };
            if revocation_authorised(l, me, t.d, proof) {
                return None;
            }
            let p = StaticRevocation { revoke: dig(&t.d), proof: proof.map(|x| dig(&x)), after_content: BTreeMap::new() };
            let s = w.nodes[m].signer.try_sign_sync(p).ok()?;
            Some((
                StaticEvent::Revoked(s),
                "revocation",
                format!("P{m} revokes {} citing {}", show_grant(w, l, &t.d), proof.map(|p| show_grant(w, l, &p)).unwrap_or("nothing".into())),
            ))
        }
        // somebody else's name on it
        2 => {
            let t = *src.pick(&grants);
            let StaticEvent::Delegated(orig) = &w.pool[t.ix].ev else { return None };
            let mut p = orig.payload().clone();
            p.can = hist::access(src);
            p.delegate = me;
            let s = w.nodes[m].signer.try_sign_sync(p).ok()?;
            if *orig.issuer() == *s.issuer() {
                return None;
            }
            let forged = Signed::new(s.payload().clone(), *orig.issuer(), s.signature);
            Some((StaticEvent::Delegated(forged), "false-issuer", format!("P{m} grants itself with {}'s name on {}", nm(w, &t.issuer), nm(w, &t.subject))))
        }
        // somebody's signature on another payload
        3 => {
            let t = *src.pick(&grants);
            let StaticEvent::Delegated(orig) = &w.pool[t.ix].ev else { return None };
            let mut p = orig.payload().clone();
            match src.idx(3) {
                0 => p.delegate = me,
                1 => p.can = Access::Admin,
                _ => p.after_revocations = revs.iter().map(|r| dig(&r.d)).collect(),
            }
            if p == *orig.payload() {
                return None;
            }
            let forged = Signed::new(p, *orig.issuer(), orig.signature);
            Some((StaticEvent::Delegated(forged), "changed-payload", format!("{} with its payload changed", show_grant(w, l, &t.d))))
        }
        // a forged revocation in the name of somebody entitled
        4 => {
            let t = *src.pick(&grants);
            let StaticEvent::Delegated(orig) = &w.pool[t.ix].ev else { return None };
            if t.issuer == me {
                return None;
            }
            let p = StaticRevocation {
                revoke: dig(&t.d),
                proof: if t.issuer == t.subject { None } else { Some(dig(&t.d)) },
                after_content: BTreeMap::new(),
            };
            let s = w.nodes[m].signer.try_sign_sync(p).ok()?;
            let forged = Signed::new(s.payload().clone(), *orig.issuer(), s.signature);
            Some((StaticEvent::Revoked(forged), "false-revoker", format!("P{m} revokes {} in the name of {}", show_grant(w, l, &t.d), nm(w, &t.issuer))))
        }
        // any honest event with one byte changed that still decodes
        _ => {
            let ix = src.idx(w.pool.len());
            let bytes = bincode::serialize(&w.pool[ix].ev).ok()?;
            let at = src.idx(bytes.len());
            let bit = src.idx(8);
            let mut b = bytes.clone();
            b[at] ^= 1 << bit;
            let e: SE = bincode::deserialize(&b).ok()?;
            if w.index.contains_key(&dg(&e)) {
                return None;
            }
            Some((e, "flipped-bit", format!("event #{ix} ({}) with byte {at} changed", kind_of(&w.pool[ix].ev))))
        }
    }
}

fn kind_of(e: &SE) -> &'static str {
    crate::world::kind(e)
}

fn c10(src: &mut Src, case: &mut Case) -> Check {
    let n = 3 + src.idx(2);
    let mut w = World::new(src.below(1 << 20), n);
    w.introduce_all();
    let mut cfg = membership_cfg(src);
    cfg.w_prekey = 1;
    let steps = 5 + src.idx(18);
    let mut local = 0;
    for _ in 0..steps {
        hist::step(src, case, &mut w, &cfg);
        if src.chance(1, 3) {
            local += unauthorised_call(src, &mut w, case)? as u64;
        }
    }
    w.deliver_all();
    hist::label_pool(case, &w);
    // The same history at two strangers, one of which also gets the attacks.
    let a = w.add_node();
    let b = w.add_node();
    let own: BTreeSet<usize> = w.nodes[a].has.union(&w.nodes[b].has).copied().collect();
    let mut order: Vec<usize> = (0..w.pool.len()).filter(|x| !own.contains(x)).collect();
    if src.chance(1, 2) {
        src.shuffle(&mut order);
    }
    let l = Ledger::from_pool(&w, &(0..w.pool.len()).collect());
    let mut k = 0;
    let mut attacks = 0;
    loop {
        let len = if k < order.len() { 1 + src.idx(order.len() - k) } else { 0 };
        let chunk: Vec<usize> = order[k..k + len].to_vec();
        k += len;
        let mut evs: Vec<SE> = chunk.iter().map(|ix| w.pool[*ix].ev.clone()).collect();
        w.deliver(a, &chunk);
        let tries = src.idx(5);
        for _ in 0..tries {
            let m = src.idx(n);
            if let Some((e, kind, what)) = craft_attack(src, &w, m, &l) {
                case.note(format!("attack (before/with chunk ending at {k}/{}): {what}", order.len()));
                case.label(format!("attack:{kind}"));
                let at = src.idx(evs.len() + 1);
                evs.insert(at, e);
                attacks += 1;
            }
        }
        w.deliver_raw(b, evs);
        w.nodes[b].has.extend(chunk);
        w.collect(b);
        if k >= order.len() && len == 0 {
            break;
        }
    }
    if attacks >= 2 || local >= 2 {
        case.nontrivial = true;
    }
    let clean = |w: &World, i: usize| {
        let mut v = shared(&w.view(i));
        v.pending.clear();
        v.individuals.remove(&w.nodes[a].ident());
        v.individuals.remove(&w.nodes[b].ident());
        v
    };
    let (va, vb) = (clean(&w, a), clean(&w, b));
    case.asserts += 1;
    if va != vb {
        // listed under C08: what a nested signer did may wait for ever, whatever else arrives
        let pa = w.view(a).pending;
        if nested_authority_order(&w, &pa) || nested_authority_order(&w, &w.view(b).pending.intersection(&w.index.keys().copied().collect()).copied().collect()) {
            case.label("excluded:nested-authority-order");
            return Ok(());
        }
        return case.raise("attack-changed-state", format!("with and without the attacks: {}", diff(&w, &va, &vb)));
    }
    Ok(())
}

/// A local call its caller is, by definition, not entitled to: refused, without any effect.
fn unauthorised_call(src: &mut Src, w: &mut World, case: &mut Case) -> Result<bool, Failure> {
    let n = w.nodes.len();
    let i = src.idx(n);
    let me = w.nodes[i].ident();
    let ms = w.known_membereds(i);
    if ms.is_empty() {
        return Ok(false);
    }
    let t = *src.pick(&ms);
    let Some(v) = hist::membered_view(w, i, t) else { return Ok(false) };
    let full = w.view(i);
    let acc = model::transitive(&model::direct_map(&full), t).get(&me).copied();
    if src.chance(1, 2) {
        let can = hist::access(src);
        let cands = hist::candidates(w, i, &Cfg::default());
        let c = *src.pick(&cands);
        if c == t || acc >= Some(can) || hist::would_cycle(w, t, c) {
            return Ok(false);
        }
        let len = w.pool.len();
        let r = w.add(i, t, c, can);
        case.note(format!("P{i} (access {acc:?}) tries to add {} to {} as {can:?} -> {r:?}", nm(w, &c), nm(w, &t)));
        case.asserts += 3;
        ensure!(r.is_err(), "unauthorised-add-allowed", "P{i} with access {acc:?} to {} granted {can:?}", nm(w, &t));
        ensure!(w.pool.len() == len, "refused-add-announced", "P{i}'s refused grant was announced");
        let after = w.view(i);
        ensure!(after == full, "refused-add-changed-state", "P{i}'s refused grant changed its state: {}", diff(w, &full, &after));
        case.label("call:add");
        Ok(true)
    } else {
        let l = accepted(w, i);
        let mut who: Vec<Identifier> = v.members.keys().copied().collect();
        who.sort_by_key(|x| w.name(x));
        if who.is_empty() {
            return Ok(false);
        }
        let x = *src.pick(&who);
        // no proof among everything ever accepted speaks for me for any of the grants
        let entitled = v.members[&x].iter().any(|(d, _)| {
            l.grants.keys().any(|p| l.grants[p].subject == t && revocation_authorised(&l, me, *d, Some(*p)))
        });
        if entitled {
            return Ok(false);
        }
        let len = w.pool.len();
        let retain = src.chance(1, 2);
        let r = w.revoke(i, t, x, retain);
        case.note(format!("P{i} (access {acc:?}) tries to revoke {} from {} -> {r:?}", nm(w, &x), nm(w, &t)));
        case.asserts += 3;
        ensure!(r.is_err(), "unauthorised-revoke-allowed", "P{i} with access {acc:?} revoked {} from {}", nm(w, &x), nm(w, &t));
        ensure!(w.pool.len() == len, "refused-revoke-announced", "P{i}'s refused revocation was announced");
        let after = w.view(i);
        ensure!(after == full, "refused-revoke-changed-state", "P{i}'s refused revocation changed its state: {}", diff(w, &full, &after));
        case.label("call:revoke");
        Ok(true)
    }
}
