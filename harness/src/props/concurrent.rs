//! C29: calls running at the same time on one peer.
//!
//! The calls of a batch are futures on one peer, polled in a generated order by an executor that knows
//! which of them can run. An uncontended lock never yields, so the batch comes with *contenders*: futures
//! that take one of the peer's locks (those its public interface hands out, and the listener's), hold it
//! for a few polls and let go, one lock at a time. Whatever call wants that lock meanwhile is suspended
//! right there, holding what it holds, and the others go on.
use super::membership::{diff, nested_authority_order, shared};
use crate::engine::*;
use crate::hist::{self, Cfg};
use crate::world::*;
use dupe::Dupe;
use futures::lock::Mutex as AMutex;
use keyhive_core::{
    contact_card::ContactCard,
    event::static_event::StaticEvent,
    principal::{
        document::id::DocumentId,
        group::id::GroupId,
        identifier::Identifier,
        individual::{op::KeyOp, Individual},
    },
};
use std::{
    cell::RefCell,
    collections::{BTreeSet, HashMap},
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        run: c29,
        quick: 3000,
        thorough: 150000,
        scripted: &[],
        rule: "at least two calls that change something were under way at once, one of the calls suspended in the middle at least twice",
        assumptions: &["calls are suspended where they wait for a lock, which is where other calls can come between; finite histories of at most 14 operations before, and at most three batches of at most four calls; no cyclic memberships"],
    }]
}

// ---------------------------------------------------------------- executor

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Task<'a> {
    name: String,
    fut: Option<Pin<Box<dyn Future<Output = ()> + 'a>>>,
    flag: Arc<Flag>,
    helper: bool,
    polls: usize,
}

impl<'a> Task<'a> {
    fn new(name: String, helper: bool, fut: impl Future<Output = ()> + 'a) -> Self {
        Task { name, fut: Some(Box::pin(fut)), flag: Arc::new(Flag(AtomicBool::new(true))), helper, polls: 0 }
    }
}

/// Give the others a chance.
struct Yield(usize);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// Polls of the most interrupted call, and of how many calls there was more than one.
fn run(src: &mut Src, case: &mut Case, tasks: &mut [Task]) -> Check {
    let mut rounds = 0;
    loop {
        if tasks.iter().all(|t| t.helper || t.fut.is_none()) {
            return Ok(());
        }
        let ready: Vec<usize> = (0..tasks.len()).filter(|k| tasks[*k].fut.is_some() && tasks[*k].flag.0.load(Ordering::SeqCst)).collect();
        case.asserts += 1;
        if ready.is_empty() {
            let stuck: Vec<&str> = tasks.iter().filter(|t| t.fut.is_some() && !t.helper).map(|t| t.name.as_str()).collect();
            return fail("calls-deadlock", format!("waiting for each other: {stuck:?}"));
        }
        rounds += 1;
        if rounds > 200_000 {
            return fail("calls-livelock", "no end to it");
        }
        let k = ready[src.idx(ready.len())];
        let t = &mut tasks[k];
        t.flag.0.store(false, Ordering::SeqCst);
        t.polls += 1;
        let waker = Waker::from(t.flag.clone());
        if t.fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker)).is_ready() {
            t.fut = None;
            if !t.helper {
                case.note(format!("  done: {}", t.name));
            }
        }
    }
}

// ---------------------------------------------------------------- contenders

#[derive(Clone)]
enum Lock {
    Active(Arc<AMutex<keyhive_core::principal::active::Active<future_form::Sendable, keyhive_crypto::signer::memory::MemorySigner, Ref, Lg>>>),
    Groups(Arc<AMutex<HashMap<GroupId, Grp>>>),
    Docs(Arc<AMutex<HashMap<DocumentId, Doc>>>),
    Group(Grp),
    Doc(Doc),
    Indie(Arc<AMutex<Individual>>),
    Log(Lg),
}

fn locks(w: &World, i: usize) -> Vec<Lock> {
    let kh = &w.nodes[i].kh;
    let mut v = vec![
        Lock::Log(w.nodes[i].log.clone()),
        Lock::Active(kh.active().dupe()),
        Lock::Groups(kh.groups().dupe()),
        Lock::Docs(kh.documents().dupe()),
        Lock::Indie(block_on(kh.individual())),
    ];
    v.extend(w.groups.iter().filter_map(|g| w.group(i, *g)).map(Lock::Group));
    v.extend(w.docs.iter().filter_map(|d| w.doc(i, *d)).map(Lock::Doc));
    for n in &w.nodes {
        if let Some(x) = block_on(kh.get_individual(n.id)) {
            v.push(Lock::Indie(x));
        }
    }
    v
}

async fn hold(l: Lock, n: usize) {
    match l {
        Lock::Active(m) => {
            let _g = m.lock().await;
            Yield(n).await
        }
        Lock::Groups(m) => {
            let _g = m.lock().await;
            Yield(n).await
        }
        Lock::Docs(m) => {
            let _g = m.lock().await;
            Yield(n).await
        }
        Lock::Group(m) => {
            let _g = m.lock().await;
            Yield(n).await
        }
        Lock::Doc(m) => {
            let _g = m.lock().await;
            Yield(n).await
        }
        Lock::Indie(m) => {
            let _g = m.lock().await;
            Yield(n).await
        }
        Lock::Log(m) => {
            let _g = m.0.lock().await;
            Yield(n).await
        }
    }
}

async fn contend(script: Vec<(Lock, usize, usize)>) {
    for (l, gap, n) in script {
        Yield(gap).await;
        hold(l, n).await;
    }
}

// ---------------------------------------------------------------- the check

enum Out {
    Said(String),
    Group(GroupId),
    Doc(DocumentId),
    Enc(Content),
}

fn c29(src: &mut Src, case: &mut Case) -> Check {
    let n = 2 + src.idx(2);
    let mut w = World::new(src.below(1 << 20), n);
    let cfg = Cfg {
        nest_docs: src.chance(1, 4),
        public: src.chance(1, 6),
        w_outsider: if src.chance(1, 4) { 4 } else { 0 },
        w_prekey: 3,
        w_partial: 6,
        w_doc: 6,
        able_pct: [0, 60][src.idx(2)],
        ..Default::default()
    };
    if src.chance(4, 5) {
        w.introduce_all();
    }
    for _ in 0..2 + src.idx(12) {
        hist::step(src, case, &mut w, &cfg);
    }
    let mut busy = false;
    for _ in 0..1 + src.idx(3) {
        let i = src.idx(n);
        busy |= batch(src, case, &mut w, i, &cfg)?;
        for _ in 0..src.idx(3) {
            hist::step(src, case, &mut w, &cfg);
        }
    }
    case.nontrivial = busy;
    Ok(())
}

fn batch(src: &mut Src, case: &mut Case, w: &mut World, i: usize, cfg: &Cfg) -> Result<bool, Failure> {
    let out: Rc<RefCell<Vec<Out>>> = Rc::new(RefCell::new(vec![]));
    let given: Rc<RefCell<BTreeSet<usize>>> = Rc::new(RefCell::new(BTreeSet::new()));
    let count = 2 + src.idx(3);
    let refs: Vec<Ref> = (0..count).map(|_| w.next_ref()).collect();
    let first = w.contents.len();
    let mut changing = 0;
    let polls;
    {
        let w: &World = w;
        let kh = &w.nodes[i].kh;
        let mut tasks: Vec<Task> = vec![];
        for r in &refs {
            let mut it = None;
            for _ in 0..4 {
                it = call(src, w, i, kh, cfg, *r, &out, &given);
                if it.is_some() {
                    break;
                }
            }
            if let Some((t, changes)) = it {
                changing += changes as usize;
                tasks.push(t);
            }
        }
        let all = locks(w, i);
        for c in 0..1 + src.idx(4) {
            let script: Vec<(Lock, usize, usize)> = (0..3 + src.idx(14)).map(|_| (src.pick(&all).clone(), src.idx(2), 1 + src.idx(3))).collect();
            tasks.push(Task::new(format!("contender {c}"), true, contend(script)));
        }
        let names: Vec<String> = tasks.iter().filter(|t| !t.helper).map(|t| t.name.clone()).collect();
        case.note(format!("P{i}, at the same time: {names:?}"));
        for t in &names {
            case.label(format!("call:{}", t.split(' ').next().unwrap_or("")));
        }
        run(src, case, &mut tasks)?;
        polls = tasks.iter().filter(|t| !t.helper).map(|t| t.polls).max().unwrap_or(0);
    }
    for o in out.take() {
        match o {
            Out::Said(s) => case.note(format!("  {s}")),
            Out::Group(g) => {
                w.names.insert(g.into(), format!("G{}", w.groups.len()));
                w.groups.push(g);
            }
            Out::Doc(d) => {
                w.names.insert(d.into(), format!("D{}", w.docs.len()));
                w.docs.push(d);
            }
            Out::Enc(mut c) => {
                c.at = w.nodes[i].has.clone();
                w.contents.push(c);
            }
        }
    }
    w.nodes[i].has.extend(given.take());
    w.collect(i);
    for c in first..w.contents.len() {
        let c = w.contents[c].clone();
        case.asserts += 1;
        let got = w.decrypt(i, &c);
        ensure!(got.as_ref() == Ok(&c.plain), "own-content-lost", "P{i} cannot open what it encrypted while other calls were running: {got:?}");
        case.label("encrypted-meanwhile");
    }
    // what arrived while something else was going on may be looked at with the next events
    w.deliver_raw(i, vec![]);
    w.collect(i);
    let v1 = w.view(i);
    let evs: Vec<SE> = w.nodes[i].has.iter().map(|x| w.pool[*x].ev.clone()).collect();
    case.doing(format!("P{i} gets all its events again"));
    w.deliver_raw(i, evs);
    w.collect(i);
    case.done(format!("P{i} gets all its events again"));
    let v2 = w.view(i);
    case.asserts += 1;
    if v1 != v2 {
        return case.raise("effect-lost", format!("after the calls / after getting the same events again: {}", diff(w, &v1, &v2))).map(|_| false);
    }
    // somebody else with the same events
    let o = w.add_node();
    let has: Vec<usize> = w.nodes[i].has.iter().copied().collect();
    w.deliver(o, &has);
    let (mut a, mut b) = (shared(&w.view(i)), shared(&w.view(o)));
    let oid = w.nodes[o].ident();
    for v in [&mut a, &mut b] {
        v.individuals.remove(&oid);
    }
    w.nodes.pop();
    case.asserts += 1;
    if a != b {
        if nested_authority_order(w, &v2.pending) || nested_authority_order(w, &b.pending) {
            case.label("excluded:nested-authority-order");
            return Ok(false);
        }
        return case.raise("calls-differ", format!("P{i} / somebody given the same events one after the other: {}", diff(w, &a, &b))).map(|_| false);
    }
    Ok(changing >= 2 && polls >= 3)
}

/// One call, its parameters chosen before.
#[allow(clippy::too_many_arguments)]
fn call<'a>(
    src: &mut Src,
    w: &'a World,
    i: usize,
    kh: &'a K,
    cfg: &Cfg,
    r: Ref,
    out: &Rc<RefCell<Vec<Out>>>,
    given: &Rc<RefCell<BTreeSet<usize>>>,
) -> Option<(Task<'a>, bool)> {
    let ms = w.known_membereds(i);
    let ds = w.known_docs(i);
    let out = out.clone();
    let say = move |o: &Rc<RefCell<Vec<Out>>>, s: String| o.borrow_mut().push(Out::Said(s));
    Some(match src.weighted(&[6, 4, 5, 3, 8, 2, 2, 2, 3, 3, 2, 2]) {
        0 if !ms.is_empty() => {
            let t = *src.pick(&ms);
            let cs = hist::candidates(w, i, cfg);
            let c = *src.pick(&cs);
            let can = hist::access(src);
            if t == c || hist::would_cycle(w, t, c) {
                return None;
            }
            let (m, a) = (w.membered(i, t)?, w.agent(i, c)?);
            let name = format!("add {} to {} as {can:?}", w.name(&c), w.name(&t));
            let n2 = name.clone();
            (
                Task::new(name, false, async move {
                    let res = kh.add_member(a, &m, can, &[]).await.map(|_| ()).map_err(|e| format!("{e}"));
                    say(&out, format!("{n2} -> {res:?}"));
                }),
                true,
            )
        }
        1 if !ms.is_empty() => {
            let t = *src.pick(&ms);
            let mut who: Vec<Identifier> = hist::membered_view(w, i, t)?.members.keys().copied().collect();
            who.sort_by_key(|x| w.name(x));
            if who.is_empty() {
                return None;
            }
            let x = *src.pick(&who);
            let retain = src.chance(1, 3);
            let m = w.membered(i, t)?;
            let name = format!("revoke {} from {} (retain={retain})", w.name(&x), w.name(&t));
            let n2 = name.clone();
            (
                Task::new(name, false, async move {
                    let res = kh.revoke_member(x, retain, &m).await.map(|_| ()).map_err(|e| format!("{e}"));
                    say(&out, format!("{n2} -> {res:?}"));
                }),
                true,
            )
        }
        2 if !ds.is_empty() => {
            let d = *src.pick(&ds);
            let doc = w.doc(i, d)?;
            let plain = src.bytes(50);
            let name = format!("encrypt to {}", w.name(&d.into()));
            let n2 = name.clone();
            (
                Task::new(name, false, async move {
                    match kh.try_encrypt_content(doc, &r, &vec![], &plain).await {
                        Ok(e) => out.borrow_mut().push(Out::Enc(Content {
                            doc: d,
                            by: i,
                            r,
                            preds: vec![],
                            plain,
                            enc: e.encrypted_content().clone(),
                            at: BTreeSet::new(),
                        })),
                        Err(e) => say(&out, format!("{n2} -> {e}")),
                    }
                }),
                true,
            )
        }
        3 if !ds.is_empty() => {
            let d = *src.pick(&ds);
            let doc = w.doc(i, d)?;
            let name = format!("update the key of {}", w.name(&d.into()));
            let n2 = name.clone();
            (
                Task::new(name, false, async move {
                    let res = kh.force_pcs_update(doc).await.map(|_| ()).map_err(|e| format!("{e}"));
                    say(&out, format!("{n2} -> {res:?}"));
                }),
                true,
            )
        }
        4 => {
            let miss: Vec<usize> = (0..w.pool.len()).filter(|x| !w.nodes[i].has.contains(x)).collect();
            let part = src.chance(1, 2);
            let mut pick: Vec<usize> = miss.into_iter().filter(|_| !part || src.chance(1, 2)).collect();
            if src.chance(1, 4) {
                pick.extend((0..w.pool.len()).filter(|_| src.chance(1, 8)));
            }
            if pick.is_empty() {
                return None;
            }
            let evs: Vec<SE> = pick.iter().map(|x| w.pool[*x].ev.clone()).collect();
            given.borrow_mut().extend(pick.iter().copied());
            let name = format!("ingest {pick:?}");
            let n2 = name.clone();
            (
                Task::new(name, false, async move {
                    let p = kh.ingest_unsorted_static_events(evs).await;
                    say(&out, format!("{n2} -> {} pending", p.len()));
                }),
                true,
            )
        }
        5 => (
            Task::new("expand prekeys".into(), false, async move {
                let _ = kh.expand_prekeys().await;
            }),
            true,
        ),
        6 => (
            Task::new("contact card".into(), false, async move {
                let _ = kh.contact_card().await;
            }),
            true,
        ),
        7 => {
            let ops: Vec<(usize, KeyOp)> = w
                .pool
                .iter()
                .enumerate()
                .filter_map(|(x, e)| match &e.ev {
                    StaticEvent::PrekeysExpanded(a) => Some((x, KeyOp::Add(Arc::new(a.as_ref().clone())))),
                    StaticEvent::PrekeyRotated(a) => Some((x, KeyOp::Rotate(Arc::new(a.as_ref().clone())))),
                    _ => None,
                })
                .collect();
            let (x, op) = src.pick(&ops).clone();
            given.borrow_mut().insert(x);
            let card = ContactCard::from(op);
            (
                Task::new(format!("receive card [{x}]"), false, async move {
                    let _ = kh.receive_contact_card(&card).await;
                }),
                true,
            )
        }
        8 => {
            let ids: Vec<Identifier> = w.nodes.iter().map(|n| n.ident()).collect();
            let id = *src.pick(&ids);
            let a = w.agent(i, id)?;
            let which = src.idx(5);
            (
                Task::new(format!("ask {which} about {}", w.name(&id)), false, async move {
                    match which {
                        0 => drop(kh.static_events_for_agent(&a).await),
                        1 => drop(kh.membership_ops_for_all_agents().await),
                        2 => drop(kh.reachable_prekey_ops_for_all_agents().await),
                        3 => drop(kh.cgka_ops_for_all_agents().await),
                        _ => {
                            let _ = kh.docs_reachable_by_agent(&a).await;
                            let _ = kh.stats().await;
                            let _ = kh.reachable_docs().await;
                        }
                    }
                }),
                false,
            )
        }
        9 if !w.contents.is_empty() => {
            let c = src.pick(&w.contents).clone();
            let doc = w.doc(i, c.doc)?;
            (
                Task::new("decrypt".into(), false, async move {
                    let _ = kh.try_decrypt_content(doc.clone(), &c.enc).await;
                    let _ = kh.try_causal_decrypt_content(doc, &c.enc).await;
                }),
                false,
            )
        }
        10 => {
            let mut peers = vec![];
            let cs: Vec<Identifier> = hist::candidates(w, i, cfg).into_iter().filter(|c| *c != w.nodes[i].ident()).collect();
            if !cs.is_empty() && src.chance(1, 2) {
                peers.extend(block_on(kh.get_peer(*src.pick(&cs))));
            }
            if src.chance(1, 2) {
                (
                    Task::new("generate document".into(), false, async move {
                        if let Ok(d) = kh.generate_doc(peers, nonempty::NonEmpty { head: r, tail: vec![] }).await {
                            let id = d.lock().await.doc_id();
                            out.borrow_mut().push(Out::Doc(id));
                        }
                    }),
                    true,
                )
            } else {
                (
                    Task::new("generate group".into(), false, async move {
                        if let Ok(g) = kh.generate_group(peers).await {
                            let id = g.lock().await.group_id();
                            out.borrow_mut().push(Out::Group(id));
                        }
                    }),
                    true,
                )
            }
        }
        _ => (
            Task::new("archive".into(), false, async move {
                let _ = kh.into_archive().await;
                let _ = kh.export_prekey_secrets().await;
            }),
            false,
        ),
    })
}
