//! C03: encodings round-trip, corrupted bytes are harmless.
use crate::engine::{block_on, fail, largest_alloc, Case, Check, Failure, Prop, Src};

use crate::hist::{step, Cfg, Done};
use crate::world::*;
use beekem::{encrypted::EncryptedContent, operation::CgkaOperation};
use keyhive_core::{
    archive::Archive,
    contact_card::ContactCard,
    crypto::envelope::Envelope,
    event::static_event::StaticEvent,
    principal::{
        group::{delegation::StaticDelegation, revocation::StaticRevocation},
        individual::{
            op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp},
            Individual,
        },
    },
};
use keyhive_crypto::{digest::Digest, signed::Signed, symmetric_key::SymmetricKey};
use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use serde::{de::DeserializeOwned, Serialize};
use keyhive_core::principal::public::Public;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        run: c03,
        quick: 3000,
        thorough: 120_000,
        scripted: &[],
        rule: "a value produced by a history was encoded, altered and decoded, or a corrupted event was handed to a peer",
        assumptions: &["bincode and serde are correct"],
    }]
}

fn e2f(sig: &str) -> impl Fn(bincode::Error) -> Failure + '_ {
    move |e| Failure { sig: sig.into(), msg: format!("{e}") }
}

/// Decoding must come back, without panicking (the runner reports panics) and without asking for
/// memory out of proportion to the input.
fn decode<T: DeserializeOwned>(case: &mut Case, what: &str, bytes: &[u8]) -> Result<Option<T>, Failure> {
    let mark = largest_alloc(true);
    let _ = mark;
    let r = bincode::deserialize::<T>(bytes).ok();
    let big = largest_alloc(false);
    case.asserts += 1;
    if big > (8 << 20) + 64 * bytes.len() {
        return fail("decode-memory", format!("decoding {} bytes of {what} asked for {big} bytes at once", bytes.len()));
    }
    Ok(r)
}

fn round_trip<T>(case: &mut Case, what: &str, v: &T, ordered: bool) -> Result<Vec<u8>, Failure>
where
    T: Serialize + DeserializeOwned + PartialEq + Debug,
{
    let b = bincode::serialize(v).map_err(e2f("cannot-encode"))?;
    let Some(w) = decode::<T>(case, what, &b)? else {
        return fail("no-round-trip", format!("{what} does not decode again"));
    };
    ensure!(w == *v, "no-round-trip", "{what} decodes to something else: {w:?} instead of {v:?}");
    if ordered {
        let b2 = bincode::serialize(&w).map_err(e2f("cannot-encode"))?;
        ensure!(b2 == b, "encoding-not-deterministic", "{what}: encoding the decoded value differs");
    }
    case.asserts += 2;
    if let Ok(j) = serde_json::to_vec(v) {
        match serde_json::from_slice::<T>(&j) {
            Ok(w) => {
                ensure!(w == *v, "no-round-trip", "{what} decodes from JSON to something else");
                if ordered {
                    ensure!(bincode::serialize(&w).map_err(e2f("cannot-encode"))? == b, "no-round-trip", "{what} via JSON encodes differently");
                }
            }
            Err(e) => return fail("no-round-trip", format!("{what} does not decode from its JSON: {e}")),
        }
    }
    Ok(b)
}

fn mutate(src: &mut Src, bytes: &[u8], other: &[u8]) -> (Vec<u8>, String) {
    let mut m = bytes.to_vec();
    let n = m.len();
    if n == 0 {
        return (vec![src.below(256) as u8], "one byte".into());
    }
    match src.idx(8) {
        0 => {
            let i = src.idx(n * 8);
            m[i / 8] ^= 1 << (i % 8);
            (m, format!("bit {i} flipped"))
        }
        1 => {
            let i = src.idx(n);
            let b = src.below(256) as u8;
            m[i] = b;
            (m, format!("byte {i} set to {b}"))
        }
        2 => {
            let k = src.idx(n);
            m.truncate(k);
            (m, format!("truncated to {k}"))
        }
        3 => {
            let i = src.idx(n + 1);
            let b = src.below(256) as u8;
            m.insert(i, b);
            (m, format!("byte inserted at {i}"))
        }
        4 => {
            let i = src.idx(n);
            let k = (1 + src.idx(40)).min(n - i);
            m.drain(i..i + k);
            (m, format!("{k} bytes removed at {i}"))
        }
        5 => {
            // a length field gone wild
            let i = src.idx(n);
            for (j, b) in [0xffu8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f].iter().enumerate() {
                if i + j < n {
                    m[i + j] = *b;
                }
            }
            (m, format!("large number at {i}"))
        }
        6 => {
            // splice in part of another message
            let i = src.idx(n);
            let j = src.idx(other.len().max(1)).min(other.len());
            let k = (1 + src.idx(64)).min(other.len() - j).min(n - i);
            m[i..i + k].copy_from_slice(&other[j..j + k]);
            (m, format!("{k} bytes of another message from {j} copied to {i}"))
        }
        _ => {
            let mut r = vec![0u8; src.idx(400)];
            ChaCha20Rng::seed_from_u64(src.u64()).fill_bytes(&mut r);
            let k = src.idx(9).min(n).min(r.len());
            r[..k].copy_from_slice(&bytes[..k]);
            (r, "random bytes".into())
        }
    }
}

fn c03(src: &mut Src, case: &mut Case) -> Check {
    let mut w = World::new(src.u64(), 2 + src.idx(2));
    w.introduce_all();
    let cfg = Cfg { public: src.chance(1, 4), nest_docs: src.chance(1, 4), w_encrypt: 6, w_sync: 10, ..Cfg::default() };
    let n = 4 + src.idx(14);
    for _ in 0..n {
        if let Done::Encrypted(_) = step(src, case, &mut w, &cfg) {
            case.label("history:content");
        }
    }
    // content with ancestors
    if let Some(c) = w.contents.last().cloned() {
        let _ = w.encrypt(c.by, c.doc, vec![c.r], vec![1, 2, 3]);
    }
    crate::hist::label_pool(case, &w);
    let evs: Vec<SE> = w.pool.iter().map(|e| e.ev.clone()).collect();

    // ---- round trips of everything the history produced
    let mut wires: Vec<Vec<u8>> = vec![];
    let mut addresses: BTreeMap<Dg, usize> = BTreeMap::new();
    for (ix, e) in evs.iter().enumerate() {
        let b = round_trip(case, kind(e), e, true)?;
        ensure!(*blake3::hash(&b).as_bytes() == dg(e), "content-address", "#{ix}: address is not the hash of the encoding");
        if let Some(o) = addresses.insert(dg(e), ix) {
            return fail("content-address", format!("#{ix} and #{o} share an address"));
        }
        fn each<T: Serialize + DeserializeOwned + Debug>(case: &mut Case, s: &Signed<T>) -> Check {
            let b = round_trip(case, "signed value", s, true)?;
            let t: Signed<T> = bincode::deserialize(&b).map_err(e2f("no-round-trip"))?;
            ensure!(t.try_verify().is_ok() && s.try_verify().is_ok(), "signature-lost", "signature does not survive the round trip");
            ensure!(t.digest() == s.digest() && Digest::hash(&t) == s.digest(), "content-address", "address changes in transit");
            Ok(())
        }
        match e {
            StaticEvent::PrekeysExpanded(s) => each::<AddKeyOp>(case, s)?,
            StaticEvent::PrekeyRotated(s) => each::<RotateKeyOp>(case, s)?,
            StaticEvent::CgkaOperation(s) => each::<CgkaOperation>(case, s)?,
            StaticEvent::Delegated(s) => each::<StaticDelegation<Ref>>(case, s)?,
            StaticEvent::Revoked(s) => each::<StaticRevocation<Ref>>(case, s)?,
        }
        wires.push(b);
    }
    // what a peer hands out for an event it received is what was sent
    let i = src.idx(w.nodes.len());
    let j = src.idx(w.nodes.len());
    for e in w.events_for(i, j) {
        // everybody makes the public agent's own events for itself
        let public = match &e {
            StaticEvent::PrekeysExpanded(s) => Public.id() == s.issuer.into(),
            StaticEvent::PrekeyRotated(s) => Public.id() == s.issuer.into(),
            _ => false,
        };
        ensure!(public || w.index.contains_key(&dg(&e)), "re-encoded-differently", "{} hands out an event nobody made: {}", w.nodes[i].name, kind(&e));
    }
    for c in w.contents.clone() {
        round_trip(case, "encrypted content", &c.enc, true)?;
    }
    let k = src.idx(w.nodes.len());
    let card = block_on(w.nodes[k].kh.contact_card()).map_err(|e| Failure { sig: "no-contact-card".into(), msg: format!("{e}") })?;
    w.collect(k);
    let card_wire = round_trip(case, "contact card", &card, true)?;
    round_trip(case, "key operation", card.op(), true)?;
    let arch = w.archive(k);
    let arch_wire = round_trip(case, "archive", &arch, false)?;
    {
        let mut anc: HashMap<Ref, SymmetricKey> = HashMap::new();
        for _ in 0..src.idx(5) {
            anc.insert(w.next_ref(), SymmetricKey::from(w.next_ref()));
        }
        let env: Envelope<Ref, Vec<u8>> = Envelope { plaintext: src.bytes(100), ancestors: anc };
        let b = round_trip(case, "envelope", &env, true)?;
        // the order of insertion does not matter
        let mut pairs: Vec<(Ref, SymmetricKey)> = env.ancestors.iter().map(|(k, v)| (*k, *v)).collect();
        src.shuffle(&mut pairs);
        let env2: Envelope<Ref, Vec<u8>> = Envelope { plaintext: env.plaintext.clone(), ancestors: pairs.into_iter().collect() };
        ensure!(bincode::serialize(&env2).unwrap() == b, "encoding-not-deterministic", "envelope encoding depends on map order");
        let (m, _) = mutate(src, &b, &card_wire);
        decode::<Envelope<Ref, Vec<u8>>>(case, "envelope", &m)?;
    }

    // ---- corrupted bytes
    let victim = w.add_node();
    w.introduce_all();
    // the victim has some of the history
    let some: Vec<usize> = (0..evs.len()).filter(|_| src.chance(2, 3)).collect();
    w.deliver(victim, &some);
    case.note(format!("observer has {some:?}"));
    for _ in 0..8 {
        let t = src.idx(evs.len());
        let o = src.idx(evs.len());
        let (m, how) = mutate(src, &wires[t], &wires[o]);
        let Some(x) = decode::<SE>(case, "event", &m)? else {
            case.label("corrupt:does not decode");
            continue;
        };
        case.nontrivial = true;
        if bincode::serialize(&x).map_err(e2f("cannot-encode"))? == wires[t] {
            case.label("corrupt:unchanged");
            continue;
        }
        if addresses.contains_key(&dg(&x)) {
            case.label("corrupt:another genuine event");
            continue;
        }
        case.label(format!("corrupt:decodes as {}", kind(&x)));
        case.note(format!("{} #{t} with {how} is given to the observer", kind(&evs[t])));
        let before = w.view(victim);
        let pend = w.deliver_raw(victim, vec![x.clone()]);
        let after = w.view(victim);
        case.asserts += 1;
        // It may be kept as pending (its dependencies might still arrive) but must not take effect.
        let mut a = after.clone();
        let mut b = before.clone();
        a.pending.clear();
        b.pending.clear();
        ensure!(a == b, "corrupted-event-accepted", "#{t} with {how}, decoding as {x:?}, changes the peer");
        let grown: BTreeSet<_> = after.pending.difference(&before.pending).copied().collect();
        ensure!(grown.is_subset(&[dg(&x)].into()), "corrupted-event-accepted", "unrelated events became pending: {pend:?}");
        ensure!(w.collect(victim).is_empty(), "corrupted-event-announced", "#{t} with {how} is announced to the listener");
    }
    // and everything still arrives
    let all: Vec<usize> = (0..evs.len()).collect();
    w.deliver(victim, &all);
    let clean = w.add_node();
    let upto: Vec<usize> = (0..w.pool.len()).collect();
    w.deliver(clean, &upto);
    w.deliver(victim, &upto);
    let (mut a, b) = (w.view(victim), w.view(clean));
    // corrupted events may stay pending
    a.pending.retain(|d| addresses.contains_key(d));
    ensure!(a == b, "corruption-lasts", "after receiving everything the observer differs from one that saw no corruption: {}", format!("{} pcs {:?} / {:?}", crate::props::membership::diff(&w, &a, &b), a.docs.values().map(|d| d.pcs.map(|x| x[0])).collect::<Vec<_>>(), b.docs.values().map(|d| d.pcs.map(|x| x[0])).collect::<Vec<_>>()));

    for _ in 0..3 {
        let (m, how) = mutate(src, &card_wire, &wires[0]);
        if let Some(x) = decode::<ContactCard>(case, "contact card", &m)? {
            let same = bincode::serialize(&x).map_err(e2f("cannot-encode"))? == card_wire;
            let before = w.view(victim);
            let r = block_on(w.nodes[victim].kh.receive_contact_card(&x));
            let after = w.view(victim);
            w.collect(victim);
            if !same {
                ensure!(r.is_err(), "corrupted-card-accepted", "contact card with {how} is accepted: {x:?}");
                ensure!(before == after, "corrupted-card-accepted", "contact card with {how} changes the peer");
                case.label("corrupt:contact card refused");
            } else {
                ensure!(r.is_ok(), "genuine-card-refused", "{:?}", r.err().map(|e| format!("{e}")));
            }
        }
    }
    for c in w.contents.clone().iter().take(4) {
        let b = bincode::serialize(&c.enc).map_err(e2f("cannot-encode"))?;
        let (m, how) = mutate(src, &b, &wires[0]);
        if let Some(x) = decode::<EncryptedContent<Vec<u8>, Ref>>(case, "encrypted content", &m)? {
            case.label("corrupt:content decodes");
            for i in 0..w.nodes.len() {
                let Some(doc) = w.doc(i, c.doc) else { continue };
                if let Ok(p) = block_on(w.nodes[i].kh.try_decrypt_content(doc, &x)) {
                    ensure!(p == c.plain, "corrupted-content-opens", "content with {how} opens to something else");
                }
            }
        }
    }
    for _ in 0..4 {
        let (m, how) = mutate(src, &arch_wire, &wires[0]);
        if let Some(x) = decode::<Archive<Ref>>(case, "archive", &m)? {
            case.label("corrupt:archive decodes");
            case.doing(format!("restoring from the archive with {how}"));
            let r = w.reload(k, &x);
            case.done(format!("restoring from the archive with {how}: {}", if r.is_ok() { "works" } else { "refused" }));
        }
        let _ = decode::<Individual>(case, "individual", &m)?;
        let _ = decode::<KeyOp>(case, "key operation", &m)?;
    }
    Ok(())
}
