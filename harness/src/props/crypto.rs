//! C01 signatures, C02 sealed data.
use crate::engine::{block_on, Case, Check, Prop, Src};

use beekem::encrypted::{encrypt_secret, EncryptedContent};
use beekem::keys::ShareKeyMap;
use beekem::pcs_key::PcsKey;
use ed25519_dalek::{Signature, VerifyingKey};
use future_form::{Local, Sendable};
use keyhive_crypto::{
    digest::Digest,
    share_key::{ShareKey, ShareSecretKey},
    signed::Signed,
    signer::{
        async_signer::{try_sign_async, AsyncSigner},
        ephemeral::EphemeralSigner,
        memory::MemorySigner,
        sync_signer::try_sign_basic,
    },
    siv::Siv,
    symmetric_key::SymmetricKey,
    verifiable::Verifiable,
};
use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: c01,
            quick: 6000,
            thorough: 300_000,
            scripted: &[c01_weak_keys],
            rule: "at least one forgery attempt was made against a generated signed value",
            assumptions: &["ed25519-dalek's signing and strict verification are correct"],
        },
        Prop {
            id: "C02",
            run: c02,
            quick: 100_000,
            thorough: 1_500_000,
            scripted: &[],
            rule: "at least one tampering attempt was made against a sealed value",
            assumptions: &["XChaCha20-Poly1305, X25519 and BLAKE3 crates are correct"],
        },
    ]
}

// ------------------------------------------------------------------ C01

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
enum Shape {
    Unit,
    Num(u64),
    Text(String),
    Bytes(Vec<u8>),
    Pair(Box<Shape>, Box<Shape>),
    Opt(Option<[u8; 32]>),
}

fn shape(src: &mut Src, depth: u32) -> Shape {
    match src.weighted(&[1, 2, 2, 3, if depth > 0 { 2 } else { 0 }, 1]) {
        0 => Shape::Unit,
        1 => Shape::Num(match src.idx(3) {
            0 => src.below(3),
            1 => src.u64(),
            _ => u64::MAX - src.below(2),
        }),
        2 => Shape::Text(["", "a", "b", "ab", "é", "hello"][src.idx(6)].repeat(1 + src.idx(3))),
        3 => Shape::Bytes(src.bytes(300)),
        4 => Shape::Pair(Box::new(shape(src, depth - 1)), Box::new(shape(src, depth - 1))),
        _ => Shape::Opt(if src.chance(1, 2) { Some(rng_bytes(src)) } else { None }),
    }
}

fn rng_bytes(src: &mut Src) -> [u8; 32] {
    let mut b = [0u8; 32];
    let s = src.u64();
    if s != 0 {
        ChaCha20Rng::seed_from_u64(s).fill_bytes(&mut b);
    }
    b
}

fn signer(src: &mut Src) -> MemorySigner {
    let s = src.u64();
    MemorySigner::generate(&mut ChaCha20Rng::seed_from_u64(s))
}

/// The 8 small-order points an attacker can claim as "its" key (canonical encodings).
fn weak_keys() -> Vec<VerifyingKey> {
    let hex = [
        "0100000000000000000000000000000000000000000000000000000000000000",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "0000000000000000000000000000000000000000000000000000000000000080",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
    ];
    hex.iter()
        .filter_map(|h| {
            let mut b = [0u8; 32];
            for (i, c) in b.iter_mut().enumerate() {
                *c = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap();
            }
            VerifyingKey::from_bytes(&b).ok()
        })
        .collect()
}

/// A signature (R = s*B, s = 1) nobody needed a secret key for.
fn keyless_signature() -> Signature {
    let mut b = [0u8; 64];
    b[0] = 0x58;
    for c in b[1..32].iter_mut() {
        *c = 0x66;
    }
    b[32] = 1;
    Signature::from_bytes(&b)
}

/// Two signed values are the same exactly when all of payload, issuer and signature are.
fn same_everywhere<T>(a: &Signed<T>, b: &Signed<T>, same: bool) -> Check
where
    T: Serialize + Debug + Ord,
{
    ensure!(
        (a.digest() == b.digest()) == same,
        "digest-confusion",
        "content addresses equal = {}, contents equal = {same}: {a:?} / {b:?}",
        a.digest() == b.digest()
    );
    ensure!(
        (Digest::hash(a) == Digest::hash(b)) == same,
        "digest-confusion",
        "computed content addresses equal = {}, contents equal = {same}",
        !same
    );
    ensure!(
        (a.cmp(b) == std::cmp::Ordering::Equal) == same,
        "order-confusion",
        "ordering says equal = {}, contents equal = {same}: {a:?} / {b:?}",
        !same
    );
    ensure!(a.cmp(b) == b.cmp(a).reverse(), "order-confusion", "ordering is not antisymmetric");
    // Equality looks at issuer and signature only (documented); for values that both verify this
    // must come to the same thing.
    if a.try_verify().is_ok() && b.try_verify().is_ok() {
        ensure!((a == b) == same, "equality-confusion", "equal = {}, contents equal = {same}: {a:?} / {b:?}", a == b);
    }
    if same {
        let hs: HashSet<[u8; 0]> = HashSet::new();
        let _ = hs;
        use std::hash::{BuildHasher, RandomState};
        let rs = RandomState::new();
        ensure!(rs.hash_one(a) == rs.hash_one(b), "hash-confusion", "equal values hash differently");
        ensure!(a == b, "equality-confusion", "same contents, not equal");
    }
    Ok(())
}

fn verify_independently<T: Serialize + Debug>(s: &Signed<T>) -> bool {
    match bincode::serialize(&s.payload) {
        Ok(b) => s.issuer.verify_strict(&b, &s.signature).is_ok(),
        Err(_) => false,
    }
}

fn forge<T>(src: &mut Src, case: &mut Case, mk: &mut dyn FnMut(&mut Src) -> T) -> Check
where
    T: Serialize + DeserializeOwned + Debug + Clone + Ord,
{
    let sk = signer(src);
    let other = signer(src);
    let p = mk(src);
    let q = mk(src);
    case.note(format!("payload {p:?} / other payload {q:?}"));
    let basic = |k: &MemorySigner| try_sign_basic(k, k.verifying_key(), p.clone());
    let s: Signed<T> = match src.idx(5) {
        0 => sk.try_sign_sync(p.clone()),
        1 => block_on(try_sign_async::<Sendable, _, _>(&sk, p.clone())),
        2 => block_on(try_sign_async::<Local, _, _>(&sk, p.clone())),
        3 => block_on(try_sign_async::<Sendable, _, _>(&sk.0, p.clone())),
        _ => basic(&sk),
    }
    .map_err(|e| crate::engine::Failure { sig: "cannot-sign".into(), msg: format!("{e}") })?;
    let honest_key = sk.verifying_key();
    let check = |c: &mut Case, what: &str, x: &Signed<T>, want: bool| -> Check {
        c.asserts += 1;
        let got = x.try_verify().is_ok();
        ensure!(got == want, if want { "genuine-rejected" } else { "forgery-accepted" }, "{what}: verifies = {got}: {x:?}");
        ensure!(
            got == verify_independently(x),
            "verdict-differs",
            "{what}: verdict differs from an independent verification"
        );
        Ok(())
    };
    check(case, "a genuine signature", &s, true)?;
    ensure!(s.issuer == honest_key && s.payload == p, "wrong-fields", "signing recorded {s:?}");
    ensure!(*s.issuer() == s.issuer && *s.payload() == s.payload && *s.signature() == s.signature, "wrong-fields", "getters");
    ensure!(s.verifying_key() == honest_key, "wrong-fields", "verifying key is not the signer's");
    // every signing entry point gives the same value
    for (n, t) in [
        ("sync", sk.try_sign_sync(p.clone())),
        ("async", block_on(try_sign_async::<Sendable, _, _>(&sk, p.clone()))),
        ("basic", basic(&sk)),
    ] {
        let t = t.map_err(|e| crate::engine::Failure { sig: "cannot-sign".into(), msg: format!("{e}") })?;
        ensure!(t == s && t.payload == s.payload, "entry-points-differ", "{n} signing gives a different value");
    }
    let raw = block_on(AsyncSigner::<Sendable>::try_sign_bytes_async(&sk, &bincode::serialize(&p).unwrap())).unwrap();
    ensure!(raw == s.signature, "entry-points-differ", "byte signing differs");
    // round trips
    let wire = bincode::serialize(&s).unwrap();
    let back: Signed<T> = bincode::deserialize(&wire)
        .map_err(|e| crate::engine::Failure { sig: "no-round-trip".into(), msg: format!("{e}") })?;
    check(case, "after a round trip", &back, true)?;
    same_everywhere(&s, &back, true)?;
    same_everywhere(&s, &s.clone(), true)?;
    let json: Result<Signed<T>, _> = serde_json::to_vec(&s).and_then(|j| serde_json::from_slice(&j));
    if let Ok(j) = json {
        check(case, "after a JSON round trip", &j, true)?;
        same_everywhere(&s, &j, true)?;
    }
    ensure!(bincode::serialize(&back).unwrap() == wire, "not-canonical", "re-encoding differs");
    // an ephemeral signer can only sign for itself
    let (es, vk) = EphemeralSigner::with_signer(&mut ChaCha20Rng::seed_from_u64(src.u64()), |_, b| {
        b.try_sign_bytes_sync_basic(&bincode::serialize(&p).unwrap()).unwrap()
    });
    check(case, "an ephemeral signature", &Signed::new(p.clone(), vk, es), true)?;
    check(case, "an ephemeral signature claimed by somebody else", &Signed::new(p.clone(), honest_key, es), false)?;

    // field swaps: every combination of two payloads, two issuers, and the four signatures
    let mut all: Vec<(usize, usize, usize, Signed<T>)> = vec![];
    let ps = [p.clone(), q.clone()];
    let ks = [&sk, &other];
    let sigs: Vec<Signature> =
        (0..4).map(|n| ks[n / 2].try_sign_sync(ps[n % 2].clone()).unwrap().signature).collect();
    for (pi, p) in ps.iter().enumerate() {
        for (ki, k) in ks.iter().enumerate() {
            for (si, sg) in sigs.iter().enumerate() {
                let x = Signed::new(p.clone(), k.verifying_key(), *sg);
                // payloads p and q may be equal, keys as well (rarely)
                let want = sigs[ki * 2 + pi] == *sg;
                check(case, "a field combination", &x, want)?;
                let w2: Signed<T> = bincode::deserialize(&bincode::serialize(&x).unwrap()).unwrap();
                check(case, "a field combination after a round trip", &w2, want)?;
                case.label(if want { "combination:genuine" } else { "combination:forged" });
                all.push((pi, ki, si, x));
            }
        }
    }
    for _ in 0..6 {
        let a = &src.pick(&all).3;
        let b = &src.pick(&all).3;
        let same = a.payload == b.payload && a.issuer == b.issuer && a.signature == b.signature;
        same_everywhere(a, b, same)?;
        case.asserts += 1;
    }
    // signature bits
    for _ in 0..8 {
        let mut b = s.signature.to_bytes();
        let bit = src.idx(512);
        b[bit / 8] ^= 1 << (bit % 8);
        check(case, &format!("signature with bit {bit} flipped"), &Signed::new(p.clone(), honest_key, Signature::from_bytes(&b)), false)?;
    }
    // s + L: the same signature in another form
    let mut b = s.signature.to_bytes();
    let l: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0,
        0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
    ];
    let mut carry = 0u16;
    for i in 0..32 {
        let v = b[32 + i] as u16 + l[i] as u16 + carry;
        b[32 + i] = v as u8;
        carry = v >> 8;
    }
    check(case, "signature with the group order added", &Signed::new(p.clone(), honest_key, Signature::from_bytes(&b)), false)?;
    case.label("attempt:malleated");
    // keys nobody has to own
    for wk in weak_keys() {
        let sg = if src.chance(1, 2) { keyless_signature() } else { s.signature };
        let a = Signed::new(p.clone(), wk, sg);
        let b = Signed::new(q.clone(), wk, sg);
        if p != q {
            ensure!(
                !(a.try_verify().is_ok() && b.try_verify().is_ok()),
                "signature-fits-two-payloads",
                "one signature by key {:02x?} is accepted for two different payloads {p:?} and {q:?}",
                wk.to_bytes()
            );
        }
    }
    // wire form: whatever still decodes and verifies must be the message that was sent
    for _ in 0..12 {
        let mut m = wire.clone();
        let how = src.idx(4);
        match how {
            0 => {
                let i = src.idx(m.len() * 8);
                m[i / 8] ^= 1 << (i % 8);
            }
            1 => {
                let i = src.idx(m.len());
                m[i] = src.below(256) as u8;
            }
            2 => {
                let i = src.idx(m.len() + 1);
                m.insert(i, src.below(256) as u8);
            }
            _ => {
                let i = src.idx(m.len());
                m.remove(i);
            }
        }
        case.label(["wire:bit", "wire:byte", "wire:insert", "wire:remove"][how]);
        case.asserts += 1;
        if let Ok(x) = bincode::deserialize::<Signed<T>>(&m) {
            if x.try_verify().is_ok() {
                ensure!(
                    bincode::serialize(&x).unwrap() == wire,
                    "altered-message-accepted",
                    "altered bytes decode to a different accepted message: {x:?}"
                );
            }
            let same = bincode::serialize(&x).unwrap() == wire;
            same_everywhere(&x, &s, same)?;
        }
    }
    case.nontrivial = true;
    Ok(())
}

fn c01(src: &mut Src, case: &mut Case) -> Check {
    match src.idx(5) {
        0 => {
            case.label("payload:generated structure");
            forge(src, case, &mut |s| shape(s, 3))
        }
        1 => {
            case.label("payload:bytes");
            forge(src, case, &mut |s| s.bytes(500))
        }
        2 => {
            case.label("payload:text");
            forge(src, case, &mut |s| String::from_utf8_lossy(&s.bytes(60)).to_string())
        }
        3 => {
            case.label("payload:prekey");
            forge(src, case, &mut |s| {
                ShareSecretKey::generate(&mut ChaCha20Rng::seed_from_u64(s.u64())).share_key()
            })
        }
        _ => {
            case.label("payload:option of number");
            forge(src, case, &mut |s| if s.chance(1, 2) { Some(s.u64()) } else { None::<u64> })
        }
    }
}

/// All keys of small order, with the signature that needs no secret.
fn c01_weak_keys(_src: &mut Src, case: &mut Case) -> Check {
    case.nontrivial = true;
    for wk in weak_keys() {
        let mut fits = vec![];
        for n in 0..64u64 {
            case.asserts += 1;
            if Signed::new(n, wk, keyless_signature()).try_verify().is_ok() {
                fits.push(n);
            }
        }
        if fits.len() > 1 {
            case.raise(
                "signature-fits-two-payloads",
                format!("one signature by key {:02x?} is accepted for payloads {fits:?}", wk.to_bytes()),
            )?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn secret(src: &mut Src) -> ShareSecretKey {
    match src.weighted(&[8, 1, 1]) {
        0 => ShareSecretKey::generate(&mut ChaCha20Rng::seed_from_u64(src.u64())),
        1 => ShareSecretKey::force_from_bytes(rng_bytes(src)),
        _ => ShareSecretKey::force_from_bytes([src.below(256) as u8; 32]),
    }
}

fn nonce_of(key: &SymmetricKey, plain: &[u8], doc: &[u8]) -> [u8; 24] {
    // Written out again from the documented construction.
    let mut h = blake3::Hasher::new();
    h.update(b"/keyhive/");
    h.update(doc);
    h.update(key.as_slice());
    h.update(plain);
    let mut out = [0u8; 24];
    h.finalize_xof().fill(&mut out);
    out
}

/// `open` must fail on every alteration of the sealed bytes; `Ok(x)` with x == plain is fine only
/// when nothing was altered.
fn tamper(src: &mut Src, case: &mut Case, what: &str, sealed: &[u8], open: &dyn Fn(&[u8]) -> Option<Vec<u8>>) -> Check {
    let n = sealed.len();
    for _ in 0..6 {
        let mut m = sealed.to_vec();
        let how = src.idx(5);
        let desc = match how {
            0 if n > 0 => {
                let i = src.idx(n * 8);
                m[i / 8] ^= 1 << (i % 8);
                format!("bit {i} flipped")
            }
            1 => {
                let k = src.idx(n + 1);
                m.truncate(k);
                format!("truncated to {k} of {n}")
            }
            2 => {
                let i = src.idx(n + 1);
                let b = src.below(256) as u8;
                m.insert(i, b);
                format!("byte {b} inserted at {i}")
            }
            3 => {
                let k = 1 + src.idx(20);
                m.extend(std::iter::repeat_n(0, k));
                format!("{k} zero bytes appended")
            }
            _ if n > 1 => {
                let (i, j) = (src.idx(n), src.idx(n));
                m.swap(i, j);
                format!("bytes {i} and {j} swapped")
            }
            _ => String::new(),
        };
        if m == sealed {
            continue;
        }
        case.asserts += 1;
        case.label(["tamper:bit", "tamper:truncate", "tamper:insert", "tamper:append", "tamper:swap"][how]);
        ensure!(open(&m).is_none(), "tampered-opens", "{what}: {desc}: still opens");
        case.nontrivial = true;
    }
    Ok(())
}

fn c02(src: &mut Src, case: &mut Case) -> Check {
    let key = match src.weighted(&[6, 1]) {
        0 => SymmetricKey::generate(&mut ChaCha20Rng::seed_from_u64(src.u64())),
        _ => SymmetricKey::from(rng_bytes(src)),
    };
    let wrong = SymmetricKey::generate(&mut ChaCha20Rng::seed_from_u64(src.u64()));
    let max = if src.chance(1, 8) { 20_000 } else { 300 };
    let plain = src.bytes(max);
    let plain2 = {
        let mut p = plain.clone();
        match src.idx(3) {
            0 => p.push(0),
            1 if !p.is_empty() => {
                let i = src.idx(p.len() * 8);
                p[i / 8] ^= 1 << (i % 8);
            }
            _ => p = src.bytes(300),
        }
        p
    };
    let doc = if src.chance(1, 2) { rng_bytes(src).to_vec() } else { src.bytes(40) };
    let doc2 = {
        let mut d = doc.clone();
        if d.is_empty() || src.chance(1, 4) {
            d.push(7);
        } else {
            let i = src.idx(d.len() * 8);
            d[i / 8] ^= 1 << (i % 8);
        }
        d
    };
    case.note(format!("key, {} plaintext bytes, {} context bytes", plain.len(), doc.len()));
    match src.idx(4) {
        // ---- symmetric keys with an explicit nonce, and the nonce itself
        0 => {
            case.label("form:encrypt/decrypt");
            let nonce = Siv::new(&key, &plain, &doc);
            ensure!(*nonce.as_bytes() == nonce_of(&key, &plain, &doc), "nonce-construction", "nonce is not the documented function of key, plaintext and document");
            ensure!(nonce == Siv::new(&key, &plain, &doc), "nonce-not-determined", "two calls give different nonces");
            for (w, other, same) in [
                ("plaintexts", Siv::new(&key, &plain2, &doc), plain2 == plain),
                ("documents", Siv::new(&key, &plain, &doc2), doc2 == doc),
                ("keys", Siv::new(&wrong, &plain, &doc), wrong == key),
            ] {
                case.asserts += 1;
                ensure!((other == nonce) == same, "nonce-shared", "different {w} share nonce {nonce:?}");
            }
            let bytes: [u8; 24] = nonce.into();
            ensure!(Siv::from(bytes) == nonce && Siv::from(chacha20poly1305_nonce(nonce)) == nonce, "nonce-round-trip", "nonce conversions");
            let mut buf = plain.clone();
            key.try_encrypt(nonce, &mut buf).map_err(|_| crate::engine::Failure { sig: "cannot-encrypt".into(), msg: "encrypt".into() })?;
            ensure!(plain.len() < 16 || !buf.windows(16).any(|w| w == &plain[..16]), "plaintext-visible", "the ciphertext contains the plaintext's start");
            let open = |k: &SymmetricKey, n: Siv, c: &[u8]| {
                let mut b = c.to_vec();
                k.try_decrypt(n, &mut b).ok().map(|_| b)
            };
            ensure!(open(&key, nonce, &buf).as_ref() == Some(&plain), "no-round-trip", "decrypting gives something else");
            ensure!(open(&wrong, nonce, &buf).is_none() || wrong == key, "wrong-key-opens", "another key opens it");
            let mut nb = bytes;
            let i = src.idx(192);
            nb[i / 8] ^= 1 << (i % 8);
            ensure!(open(&key, nb.into(), &buf).is_none(), "wrong-nonce-opens", "nonce with bit {i} flipped still opens");
            let mut kb: [u8; 32] = key.into();
            let i = src.idx(256);
            kb[i / 8] ^= 1 << (i % 8);
            ensure!(open(&kb.into(), nonce, &buf).is_none(), "wrong-key-opens", "key with bit {i} flipped still opens");
            case.asserts += 4;
            tamper(src, case, "encrypt", &buf, &|m| open(&key, nonce, m))
        }
        // ---- sealed blobs
        1 => {
            case.label("form:seal/open");
            let f = |_| crate::engine::Failure { sig: "cannot-encrypt".into(), msg: "seal".into() };
            let blob = key.try_seal(&plain, &doc).map_err(f)?;
            ensure!(blob == key.try_seal(&plain, &doc).map_err(f)?, "not-deterministic", "sealing twice differs");
            ensure!(key.try_open(&blob).ok().as_ref() == Some(&plain), "no-round-trip", "opening gives something else");
            ensure!(wrong.try_open(&blob).is_err() || wrong == key, "wrong-key-opens", "another key opens it");
            ensure!(blob[..24] == nonce_of(&key, &plain, &doc), "nonce-construction", "the blob does not start with the nonce");
            let b2 = key.try_seal(&plain2, &doc2).map_err(f)?;
            ensure!(b2[..24] != blob[..24], "nonce-shared", "different plaintext or document, same nonce");
            let b3 = key.try_seal(&plain, &doc2).map_err(f)?;
            ensure!(b3[..24] != blob[..24], "nonce-shared", "different document, same nonce");
            case.asserts += 6;
            tamper(src, case, "seal", &blob, &|m| key.try_open(m).ok())
        }
        // ---- key agreement and encrypted secrets
        2 => {
            case.label("form:key agreement");
            let (a, b, c) = (secret(src), secret(src), secret(src));
            let (pa, pb, pc) = (a.share_key(), b.share_key(), c.share_key());
            let kab = a.derive_symmetric_key(&pb);
            ensure!(kab == b.derive_symmetric_key(&pa), "agreement", "the two sides derive different keys");
            ensure!(a.derive_new_secret_key(&pb) == b.derive_new_secret_key(&pa), "agreement", "the two sides derive different secret keys");
            // independent derivation
            let raw = x25519_dalek::StaticSecret::from(a.to_bytes()).diffie_hellman(&x25519_dalek::PublicKey::from(pb.to_bytes()));
            ensure!(kab.as_slice() == blake3::derive_key("/keyhive/", raw.as_bytes()), "agreement", "shared key is not the documented function");
            ensure!(pa.to_bytes() == x25519_dalek::PublicKey::from(&x25519_dalek::StaticSecret::from(a.to_bytes())).to_bytes(), "agreement", "public key");
            let distinct: BTreeSet<[u8; 32]> = [pa, pb, pc].iter().map(|k| k.to_bytes()).collect();
            if distinct.len() == 3 {
                ensure!(kab != a.derive_symmetric_key(&pc) && kab != c.derive_symmetric_key(&pb), "agreement", "a third party's key is the same");
            }
            let n = src.idx(5);
            let mut r = a;
            for _ in 0..n {
                r = r.ratchet_forward();
            }
            ensure!(r == a.ratchet_n_forward(n), "ratchet", "ratcheting {n} times differs");
            ensure!(a.ratchet_forward() != a, "ratchet", "ratchet stands still");
            let e = encrypt_secret(&doc, c, &a, &pb).map_err(|e| crate::engine::Failure { sig: "cannot-encrypt".into(), msg: format!("{e}") })?;
            let mut keys = ShareKeyMap::new();
            ensure!(keys.try_decrypt_encryption(pa, &e).is_err(), "wrong-key-opens", "opens without a key");
            keys.insert(pb, b);
            ensure!(keys.try_decrypt_encryption(pa, &e).ok() == Some(c.to_bytes().to_vec()), "no-round-trip", "receiver cannot open");
            ensure!(e.try_encrypter_decrypt(&a).ok() == Some(c.to_bytes().to_vec()), "no-round-trip", "encrypter cannot open");
            ensure!(*e.nonce.as_bytes() == nonce_of(&kab, c.as_slice(), &doc), "nonce-construction", "nonce of a secret");
            ensure!(e.nonce != encrypt_secret(&doc2, c, &a, &pb).unwrap().nonce, "nonce-shared", "different documents share a nonce");
            if distinct.len() == 3 {
                ensure!(e.nonce != encrypt_secret(&doc, b, &a, &pb).unwrap().nonce, "nonce-shared", "different secrets share a nonce");
                ensure!(keys.try_decrypt_encryption(pc, &e).is_err(), "wrong-key-opens", "opens for the wrong encrypter");
                ensure!(e.try_encrypter_decrypt(&c).is_err(), "wrong-key-opens", "a third party opens");
                let mut k2 = ShareKeyMap::new();
                k2.insert(pb, c);
                ensure!(k2.try_decrypt_encryption(pa, &e).is_err(), "wrong-key-opens", "a third party's secret opens");
            }
            let wire = bincode::serialize(&e).unwrap();
            let back: beekem::encrypted::EncryptedSecret<ShareSecretKey> = bincode::deserialize(&wire).unwrap();
            ensure!(back == e, "no-round-trip", "encoding of an encrypted secret");
            case.asserts += 12;
            tamper(src, case, "secret", &e.ciphertext.clone(), &|m| {
                let mut t = e.clone();
                t.ciphertext = m.to_vec();
                keys.try_decrypt_encryption(pa, &t).ok()
            })
        }
        // ---- application secrets (content keys)
        _ => {
            case.label("form:content");
            let pcs = PcsKey::new(secret(src));
            let pcs2 = PcsKey::new(secret(src));
            let r: [u8; 32] = rng_bytes(src);
            let r2: [u8; 32] = rng_bytes(src);
            let preds: Digest<Vec<[u8; 32]>> = Digest::hash(&vec![r2]);
            let preds2: Digest<Vec<[u8; 32]>> = Digest::hash(&vec![r, r2]);
            let op = Digest::from(rng_bytes(src));
            let nonce = Siv::new(&SymmetricKey::from(pcs), &plain, &doc);
            let s = pcs.derive_application_secret(&nonce, &r, &preds, &op);
            ensure!(s.key() == pcs.derive_application_secret(&nonce, &r, &preds, &op).key(), "key-not-determined", "same inputs, different key");
            for (w, k, same) in [
                ("content reference", pcs.derive_application_secret(&nonce, &r2, &preds, &op).key(), r == r2),
                ("predecessors", pcs.derive_application_secret(&nonce, &r, &preds2, &op).key(), false),
                ("group key", pcs2.derive_application_secret(&nonce, &r, &preds, &op).key(), pcs2 == pcs),
            ] {
                case.asserts += 1;
                ensure!((k == s.key()) == same, "content-key-shared", "a different {w} gives the same content key");
            }
            let e: EncryptedContent<Vec<u8>, [u8; 32]> = s.try_encrypt(&plain).map_err(|_| crate::engine::Failure { sig: "cannot-encrypt".into(), msg: "content".into() })?;
            ensure!(e.try_decrypt(s.key()).ok().as_ref() == Some(&plain), "no-round-trip", "content does not open");
            ensure!(e.try_decrypt(wrong).is_err(), "wrong-key-opens", "another key opens it");
            ensure!(e.nonce == nonce && e.content_ref == r && e.pred_refs == preds && e.pcs_update_op_hash == op && e.pcs_key_hash == Digest::hash(&pcs), "wrong-fields", "the ciphertext does not name what it was made under");
            let wire = bincode::serialize(&e).unwrap();
            let back: EncryptedContent<Vec<u8>, [u8; 32]> = bincode::deserialize(&wire).unwrap();
            ensure!(back == e, "no-round-trip", "encoding of encrypted content");
            let mut t = e.clone();
            let mut nb = *t.nonce.as_bytes();
            let i = src.idx(192);
            nb[i / 8] ^= 1 << (i % 8);
            t.nonce = nb.into();
            ensure!(t.try_decrypt(s.key()).is_err(), "wrong-nonce-opens", "nonce with bit {i} flipped still opens");
            case.asserts += 6;
            tamper(src, case, "content", &e.ciphertext.clone(), &|m| {
                let mut t = e.clone();
                t.ciphertext = m.to_vec();
                t.try_decrypt(s.key()).ok()
            })
        }
    }
}

fn chacha20poly1305_nonce(s: Siv) -> [u8; 24] {
    *s.as_bytes()
}

#[allow(unused)]
fn _k(_: ShareKey) {}
