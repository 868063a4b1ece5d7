//! Reference model of membership: plain sets of grants and revocations read from the signed
//! events, materialised by definition rather than incrementally.
use crate::world::*;
use beekem::operation::CgkaOperation;
use keyhive_core::{
    access::Access,
    event::static_event::StaticEvent,
    principal::{identifier::Identifier, public::Public},
};
use keyhive_crypto::signed::Signed;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone)]
pub struct Grant {
    pub d: Dg,
    pub subject: Identifier,
    pub issuer: Identifier,
    pub delegate: Identifier,
    pub can: Access,
    pub proof: Option<Dg>,
    pub after_revs: Vec<Dg>,
    pub ix: usize,
}

#[derive(Debug, Clone)]
pub struct Revoc {
    pub d: Dg,
    pub subject: Identifier,
    pub issuer: Identifier,
    pub target: Dg,
    pub proof: Option<Dg>,
    pub ix: usize,
}

#[derive(Debug, Clone, Default)]
pub struct Ledger {
    pub grants: BTreeMap<Dg, Grant>,
    pub revs: BTreeMap<Dg, Revoc>,
}

impl Ledger {
    pub fn from_pool(w: &World, has: &BTreeSet<usize>) -> Ledger {
        let mut l = Ledger::default();
        // proofs first: a grant's subject is its root's issuer
        let mut todo: Vec<usize> = has.iter().copied().collect();
        loop {
            let mut rest = vec![];
            let before = todo.len();
            for ix in todo {
                match &w.pool[ix].ev {
                    StaticEvent::Delegated(s) => {
                        let p = s.payload();
                        let subject = match p.proof {
                            None => Some(Identifier::from(*s.issuer())),
                            Some(pd) => l.grants.get(&raw(&pd)).map(|g| g.subject),
                        };
                        match subject {
                            Some(subject) => {
                                let d = op_digest(&w.pool[ix].ev);
                                l.grants.insert(
                                    d,
                                    Grant {
                                        d,
                                        subject,
                                        issuer: Identifier::from(*s.issuer()),
                                        delegate: p.delegate,
                                        can: p.can,
                                        proof: p.proof.map(|x| raw(&x)),
                                        after_revs: p.after_revocations.iter().map(raw).collect(),
                                        ix,
                                    },
                                );
                            }
                            None => rest.push(ix),
                        }
                    }
                    StaticEvent::Revoked(s) => {
                        let p = s.payload();
                        match l.grants.get(&raw(&p.revoke)).map(|g| g.subject) {
                            Some(subject) => {
                                let d = op_digest(&w.pool[ix].ev);
                                l.revs.insert(
                                    d,
                                    Revoc {
                                        d,
                                        subject,
                                        issuer: Identifier::from(*s.issuer()),
                                        target: raw(&p.revoke),
                                        proof: p.proof.map(|x| raw(&x)),
                                        ix,
                                    },
                                );
                            }
                            None => rest.push(ix),
                        }
                    }
                    _ => {}
                }
            }
            if rest.is_empty() || rest.len() == before {
                break;
            }
            todo = rest;
        }
        l
    }
}

/// Effective access to every membered's transitive members, by definition: the best path, a
/// path being worth its weakest link. `direct` maps a group/document to its direct grants.
pub fn transitive(
    direct: &BTreeMap<Identifier, BTreeMap<Identifier, Access>>,
    of: Identifier,
) -> BTreeMap<Identifier, Access> {
    let mut best: BTreeMap<Identifier, Access> = BTreeMap::new();
    // Bellman-Ford style relaxation until nothing improves.
    let mut changed = true;
    if let Some(ms) = direct.get(&of) {
        for (m, a) in ms {
            if *m != of {
                best.insert(*m, *a);
            }
        }
    }
    while changed {
        changed = false;
        let snapshot = best.clone();
        for (via, va) in &snapshot {
            if let Some(ms) = direct.get(via) {
                for (m, a) in ms {
                    if *m == of {
                        continue;
                    }
                    let p = (*a).min(*va);
                    let better = best.get(m).map(|x| p > *x).unwrap_or(true);
                    if better {
                        best.insert(*m, p);
                        changed = true;
                    }
                }
            }
        }
    }
    best
}

/// Direct members with their best live access, as one node materialises them.
pub fn direct_of(v: &MemberedView) -> BTreeMap<Identifier, Access> {
    v.members
        .iter()
        .map(|(id, ds)| (*id, ds.iter().map(|d| d.1).max().unwrap()))
        .collect()
}

pub fn direct_map(v: &View) -> BTreeMap<Identifier, BTreeMap<Identifier, Access>> {
    v.groups.iter().chain(v.docs.iter()).map(|(id, m)| (*id, direct_of(m))).collect()
}

/// Who has ever been given access to `top`, directly or through what was given access to it, and
/// the best access any such path carries. Revocations do not count.
pub fn ever_granted(l: &Ledger, top: Identifier) -> BTreeMap<Identifier, Access> {
    let mut best: BTreeMap<Identifier, Access> = [(top, Access::Admin)].into();
    loop {
        let mut more = false;
        for g in l.grants.values() {
            let Some(from) = best.get(&g.subject).copied() else { continue };
            let can = from.min(g.can);
            if best.get(&g.delegate).is_none_or(|b| *b < can) {
                best.insert(g.delegate, can);
                more = true;
            }
        }
        if !more {
            return best;
        }
    }
}

/// Whether the signer of a group key operation was ever given the part in the document that the
/// operation needs.
pub fn may_issue(l: &Ledger, op: &Signed<CgkaOperation>) -> bool {
    let p = op.payload();
    let doc = Identifier(p.doc_id().0);
    let who = Identifier::from(*op.issuer());
    let has = ever_granted(l, doc);
    let reads = |i: &Identifier| has.get(i).is_some_and(|a| *a >= Access::Read);
    let parent = l.grants.values().any(|g| g.issuer == doc && g.proof.is_none() && g.delegate == who);
    match p {
        CgkaOperation::Add { added_id, pk, predecessors, .. } => {
            let added = Identifier(added_id.0);
            if predecessors.is_empty() {
                added == doc && parent
            } else {
                has.contains_key(&who) && reads(&added) && (added != Public.id() || *pk == Public.share_key())
            }
        }
        CgkaOperation::Remove { .. } => has.contains_key(&who),
        CgkaOperation::Update { id, .. } => {
            let id = Identifier(id.0);
            if id == doc {
                parent
            } else if id == Public.id() {
                has.contains_key(&who) || reads(&id)
            } else {
                id == who && reads(&id)
            }
        }
    }
}
