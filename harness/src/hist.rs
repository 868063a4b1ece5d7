//! Random operation histories over a `World`.
use crate::engine::{Case, Src};
use crate::world::*;
use keyhive_core::{
    access::Access,
    event::static_event::StaticEvent,
    principal::{
        document::id::DocumentId,
        group::{delegation::StaticDelegation, id::GroupId},
        identifier::Identifier,
        individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp},
        public::Public,
    },
};
use keyhive_crypto::verifiable::Verifiable;

#[derive(Clone)]
pub struct Cfg {
    /// everybody sees every event before the next operation
    pub linear: bool,
    pub w_group: u64,
    pub w_doc: u64,
    pub w_add: u64,
    pub w_revoke: u64,
    pub w_encrypt: u64,
    pub w_update: u64,
    pub w_prekey: u64,
    pub w_sync: u64,
    pub w_partial: u64,
    pub w_restart: u64,
    /// chance (out of 100) that a revocation retains other members
    pub retain_pct: u64,
    pub public: bool,
    /// may groups / documents be delegates
    pub nest_groups: bool,
    pub nest_docs: bool,
    pub max_groups: usize,
    pub max_docs: usize,
    /// may groups/documents contain each other (known to deadlock, see KNOWN_FINDINGS.json)
    pub cycles: bool,
    /// somebody who is no peer here publishes prekeys and makes themselves a group
    pub w_outsider: u64,
    /// only this peer acts
    pub only: Option<usize>,
    /// chance (out of 100) that membership changes are left to somebody entitled to them
    pub able_pct: u64,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            linear: false,
            w_group: 4,
            w_doc: 4,
            w_add: 16,
            w_revoke: 6,
            w_encrypt: 4,
            w_update: 3,
            w_prekey: 2,
            w_sync: 8,
            w_partial: 4,
            w_restart: 0,
            w_outsider: 0,
            retain_pct: 30,
            public: false,
            nest_groups: true,
            nest_docs: false,
            max_groups: 4,
            max_docs: 3,
            cycles: false,
            only: None,
            able_pct: 0,
        }
    }
}

#[derive(Debug, Clone)]
pub enum Done {
    Nothing,
    Group(Identifier),
    Doc(Identifier),
    Added { by: usize, target: Identifier, who: Identifier, can: Access, evs: Vec<usize> },
    AddRefused { by: usize, target: Identifier, who: Identifier, can: Access, why: String },
    Revoked { by: usize, target: Identifier, who: Identifier, retain: bool, evs: Vec<usize> },
    RevokeRefused { by: usize, target: Identifier, who: Identifier, why: String },
    Encrypted(usize),
    EncryptRefused { by: usize, doc: DocumentId, why: String },
    Updated { by: usize, doc: DocumentId, evs: Vec<usize> },
    Prekey(usize),
    Synced(usize, usize),
    Restarted(usize),
}

pub fn access(src: &mut Src) -> Access {
    [Access::Read, Access::Edit, Access::Admin, Access::Relay][src.weighted(&[4, 3, 4, 2])]
}

/// Agents node `i` could name as a delegate.
pub fn candidates(w: &World, i: usize, cfg: &Cfg) -> Vec<Identifier> {
    let mut out: Vec<Identifier> = vec![];
    for n in &w.nodes {
        if !out.contains(&n.ident()) && w.agent(i, n.ident()).is_some() {
            out.push(n.ident());
        }
    }
    for o in &w.outsiders {
        let id: Identifier = o.0.verifying_key().into();
        if w.agent(i, id).is_some() && !w.groups.iter().any(|g| Identifier::from(*g) == id) {
            out.push(id);
        }
    }
    if cfg.nest_groups {
        for g in &w.groups {
            if w.group(i, *g).is_some() {
                out.push((*g).into());
            }
        }
    }
    if cfg.nest_docs {
        for d in &w.docs {
            if w.doc(i, *d).is_some() {
                out.push((*d).into());
            }
        }
    }
    if cfg.public {
        out.push(Public.id());
    }
    out
}

/// Would making `c` a member of `t` close a cycle among all grants ever issued by anybody?
pub fn would_cycle(w: &World, t: Identifier, c: Identifier) -> bool {
    let l = crate::model::Ledger::from_pool(w, &(0..w.pool.len()).collect());
    let mut todo = vec![c];
    let mut seen = std::collections::BTreeSet::new();
    while let Some(x) = todo.pop() {
        if x == t {
            return true;
        }
        if seen.insert(x) {
            todo.extend(l.grants.values().filter(|g| g.subject == x).map(|g| g.delegate));
        }
    }
    false
}

/// Somebody who is no peer of this history, and known by what they signed only: an individual
/// with prekeys, a group, or one after the other.
fn outsider(src: &mut Src, case: &mut Case, w: &mut World, i: usize, cfg: &Cfg) -> Done {
    if w.outsiders.is_empty() || (w.outsiders.len() < 2 && src.chance(1, 3)) {
        let s = signer_from(w.seed.wrapping_mul(1000).wrapping_add(700 + w.outsiders.len() as u64));
        w.names.insert(s.verifying_key().into(), format!("X{}", w.outsiders.len()));
        w.outsiders.push((s, vec![]));
    }
    let k = src.idx(w.outsiders.len());
    let (signer, keys) = w.outsiders[k].clone();
    let id: Identifier = signer.verifying_key().into();
    let what;
    let ev: SE = match src.weighted(&[2, 1, 2]) {
        0 => {
            let share_key = w.fresh_share_key();
            w.outsiders[k].1.push(share_key);
            what = "publishes a prekey".to_string();
            StaticEvent::PrekeysExpanded(Box::new(signer.try_sign_sync(AddKeyOp { share_key }).expect("sign")))
        }
        1 if !keys.is_empty() => {
            let old = *src.pick(&keys);
            let new = w.fresh_share_key();
            w.outsiders[k].1.push(new);
            what = "rotates a prekey".to_string();
            StaticEvent::PrekeyRotated(Box::new(signer.try_sign_sync(RotateKeyOp { old, new }).expect("sign")))
        }
        _ => {
            let cands: Vec<Identifier> = candidates(w, i, cfg).into_iter().filter(|c| *c != id && !would_cycle(w, id, *c)).collect();
            if cands.is_empty() {
                return Done::Nothing;
            }
            let delegate = *src.pick(&cands);
            let can = access(src);
            what = format!("makes {} a {can:?} member of itself", w.name(&delegate));
            let g = GroupId::new(id);
            if !w.groups.contains(&g) {
                w.groups.push(g);
            }
            let d = StaticDelegation { can, proof: None, delegate, after_revocations: vec![], after_content: Default::default() };
            StaticEvent::Delegated(signer.try_sign_sync(d).expect("sign"))
        }
    };
    let ix = w.push_event(i, ev);
    case.doing(format!("{} {what}, heard by P{i} [{ix}]", w.name(&id)));
    w.deliver(i, &[ix]);
    case.done(format!("{} {what}, heard by P{i} [{ix}]", w.name(&id)));
    Done::Nothing
}

/// Somebody, a group or document and the access they have there as far as they know; revocations
/// take an admin or somebody who has delegated.
fn able(src: &mut Src, w: &World, cfg: &Cfg, revoke: bool) -> Option<(usize, Identifier, Access)> {
    if cfg.able_pct == 0 || cfg.only.is_some() || !src.chance(cfg.able_pct, 100) {
        return None;
    }
    let mut all = vec![];
    for i in 0..w.nodes.len() {
        for t in w.known_membereds(i) {
            if let Some(can) = membered_view(w, i, t).and_then(|v| v.transitive.get(&w.nodes[i].ident()).copied()) {
                if !revoke || can >= Access::Edit {
                    all.push((i, t, can));
                }
            }
        }
    }
    if all.is_empty() {
        return None;
    }
    Some(*src.pick(&all))
}

pub fn step(src: &mut Src, case: &mut Case, w: &mut World, cfg: &Cfg) -> Done {
    let n = w.nodes.len();
    let room_g = if w.groups.len() < cfg.max_groups { cfg.w_group } else { 0 };
    let room_d = if w.docs.len() < cfg.max_docs { cfg.w_doc } else { 0 };
    let ws = [
        1,
        room_g,
        room_d,
        cfg.w_add,
        cfg.w_revoke,
        cfg.w_encrypt,
        cfg.w_update,
        cfg.w_prekey,
        if cfg.linear { 0 } else { cfg.w_sync },
        if cfg.linear { 0 } else { cfg.w_partial },
        cfg.w_restart,
        cfg.w_outsider,
    ];
    let choice = src.weighted(&ws);
    let i = match cfg.only {
        Some(i) => i,
        None => src.idx(n),
    };
    let done = match choice {
        1 | 2 => {
            let cands: Vec<Identifier> =
                candidates(w, i, cfg).into_iter().filter(|c| *c != w.nodes[i].ident()).collect();
            let mut co = vec![];
            if !cands.is_empty() && src.chance(1, 3) {
                let c = *src.pick(&cands);
                co.push(c);
                if src.chance(1, 3) {
                    let c2 = *src.pick(&cands);
                    if c2 != c {
                        co.push(c2);
                    }
                }
            }
            let cn: Vec<String> = co.iter().map(|c| w.name(c)).collect();
            if choice == 1 {
                match w.new_group(i, &co) {
                    Some(g) => {
                        case.note(format!("P{i} creates {} with co-parents {cn:?}", w.name(&g.into())));
                        Done::Group(g.into())
                    }
                    None => Done::Nothing,
                }
            } else {
                match w.new_doc(i, &co) {
                    Some(d) => {
                        case.note(format!("P{i} creates {} with co-parents {cn:?}", w.name(&d.into())));
                        Done::Doc(d.into())
                    }
                    None => Done::Nothing,
                }
            }
        }
        3 => {
            let able = able(src, w, cfg, false);
            let i = able.map_or(i, |a| a.0);
            let ms = w.known_membereds(i);
            let cs = candidates(w, i, cfg);
            if ms.is_empty() || cs.is_empty() {
                Done::Nothing
            } else {
                let t = able.map_or_else(|| *src.pick(&ms), |a| a.1);
                let c = *src.pick(&cs);
                let can = access(src);
                let can = able.map_or(can, |a| can.min(a.2));
                if t == c || (!cfg.cycles && would_cycle(w, t, c)) {
                    Done::Nothing
                } else {
                    case.doing(format!("P{i} adds {} to {} as {can:?}", w.name(&c), w.name(&t)));
                    let r = w.add(i, t, c, can);
                    case.done(format!(
                        "P{i} adds {} to {} as {can:?} -> {}",
                        w.name(&c),
                        w.name(&t),
                        match &r {
                            Ok(v) => format!("ok {v:?}"),
                            Err(e) => format!("refused: {e}"),
                        }
                    ));
                    match r {
                        Ok(evs) => Done::Added { by: i, target: t, who: c, can, evs },
                        Err(why) => Done::AddRefused { by: i, target: t, who: c, can, why },
                    }
                }
            }
        }
        4 => {
            let able = able(src, w, cfg, true);
            let i = able.map_or(i, |a| a.0);
            let ms = w.known_membereds(i);
            if ms.is_empty() {
                Done::Nothing
            } else {
                let t = able.map_or_else(|| *src.pick(&ms), |a| a.1);
                let v = membered_view(w, i, t);
                // creation order of names, so that choices do not depend on key bytes
                let mut who: Vec<Identifier> = v.map(|v| v.members.keys().copied().collect()).unwrap_or_default();
                who.sort_by_key(|x| w.name(x));
                if who.is_empty() {
                    Done::Nothing
                } else {
                    let x = *src.pick(&who);
                    let retain = src.chance(cfg.retain_pct, 100);
                    case.doing(format!("P{i} revokes {} from {} (retain={retain})", w.name(&x), w.name(&t)));
                    let r = w.revoke(i, t, x, retain);
                    case.done(format!(
                        "P{i} revokes {} from {} (retain={retain}) -> {}",
                        w.name(&x),
                        w.name(&t),
                        match &r {
                            Ok(v) => format!("ok {v:?}"),
                            Err(e) => format!("refused: {e}"),
                        }
                    ));
                    match r {
                        Ok(evs) => Done::Revoked { by: i, target: t, who: x, retain, evs },
                        Err(why) => Done::RevokeRefused { by: i, target: t, who: x, why },
                    }
                }
            }
        }
        5 => {
            let ds = w.known_docs(i);
            if ds.is_empty() {
                Done::Nothing
            } else {
                let d = *src.pick(&ds);
                let plain = src.bytes(200);
                let r = w.encrypt(i, d, vec![], plain);
                case.note(format!("P{i} encrypts to {} -> {:?}", w.name(&d.into()), r));
                match r {
                    Ok(c) => Done::Encrypted(c),
                    Err(why) => Done::EncryptRefused { by: i, doc: d, why },
                }
            }
        }
        6 => {
            let ds = w.known_docs(i);
            if ds.is_empty() {
                Done::Nothing
            } else {
                let d = *src.pick(&ds);
                let r = w.pcs_update(i, d);
                case.note(format!("P{i} updates key of {} -> {:?}", w.name(&d.into()), r));
                match r {
                    Ok(evs) => Done::Updated { by: i, doc: d, evs },
                    Err(_) => Done::Nothing,
                }
            }
        }
        7 => {
            if src.chance(1, 2) {
                let k = src.idx(8);
                w.rotate_prekey(i, k);
                case.note(format!("P{i} rotates prekey {k}"));
            } else {
                w.expand_prekeys(i);
                case.note(format!("P{i} adds a prekey"));
            }
            Done::Prekey(i)
        }
        8 => {
            let j = src.idx(n);
            if i != j {
                w.sync_pool(i, j);
                case.note(format!("P{i} sends everything it has to P{j}"));
                Done::Synced(i, j)
            } else {
                Done::Nothing
            }
        }
        9 => {
            let miss: Vec<usize> =
                (0..w.pool.len()).filter(|ix| !w.nodes[i].has.contains(ix)).collect();
            if miss.is_empty() {
                Done::Nothing
            } else {
                let pick: Vec<usize> = miss.iter().copied().filter(|_| src.chance(1, 2)).collect();
                w.deliver(i, &pick);
                case.note(format!("P{i} receives events {pick:?} only"));
                Done::Nothing
            }
        }
        10 => {
            let a = w.archive(i);
            match w.reload(i, &a) {
                Ok(node) => {
                    let mut node = node;
                    node.has = w.nodes[i].has.clone();
                    w.nodes[i] = node;
                    case.note(format!("P{i} restarts from its archive"));
                    Done::Restarted(i)
                }
                Err(e) => panic!("archive reload failed: {e}"),
            }
        }
        11 => outsider(src, case, w, i, cfg),
        _ => Done::Nothing,
    };
    if cfg.linear {
        w.deliver_all();
    }
    done
}

pub fn membered_view(w: &World, i: usize, t: Identifier) -> Option<MemberedView> {
    if let Some(d) = w.doc(i, DocumentId::from(t)) {
        return Some(doc_view(&d, &w.nodes[i].signer, &w.names));
    }
    w.group(i, keyhive_core::principal::group::id::GroupId::new(t)).map(|g| group_view(&g))
}

/// Label what a pool contains (for the evidence).
pub fn label_pool(case: &mut Case, w: &World) {
    for e in &w.pool {
        case.label(kind(&e.ev));
    }
    let revs = w.pool.iter().filter(|e| matches!(e.ev, StaticEvent::Revoked(_))).count();
    if revs > 0 {
        case.label("history:has-revocation");
    }
}
