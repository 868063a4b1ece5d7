//! C07: order of group-key operations and tree arithmetic.
use crate::engine::{Case, Check, Failure, Prop, Src};

use beekem::{
    id::{MemberId, TreeId},
    operation::{CgkaOperation, CgkaOperationGraph},
    transact::{Fork, Merge},
    treemath::numbers as tm,
};
use ed25519_dalek::VerifyingKey;
use keyhive_crypto::{verifiable::Verifiable, digest::Digest, share_key::ShareSecretKey, signed::Signed, signer::{memory::MemorySigner, sync_signer::try_sign_basic}};
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        run: c07,
        quick: 80_000,
        thorough: 3_000_000,
        scripted: &[tree_exhaustive],
        rule: "operation graph with at least two concurrent operations, or a tree of at least 4 leaves",
        assumptions: &["graphs start from one operation, as every document's does"],
    }]
}

type D = Digest<Signed<CgkaOperation>>;
type Op = Signed<CgkaOperation>;

fn key(n: u64) -> MemorySigner {
    MemorySigner::generate(&mut ChaCha20Rng::seed_from_u64(n))
}
fn vk(n: u64) -> VerifyingKey {
    key(n).verifying_key()
}

struct G {
    ops: Vec<Op>,
    hash: Vec<D>,
    preds: Vec<BTreeSet<usize>>,
    add_preds: Vec<BTreeSet<usize>>,
    anc: Vec<BTreeSet<usize>>,
    is_add: Vec<bool>,
}

/// What a replica with exactly the operations `known` would cite as predecessors.
fn heads(g: &G, known: &BTreeSet<usize>) -> BTreeSet<usize> {
    known.iter().copied().filter(|x| !known.iter().any(|y| g.preds[*y].contains(x))).collect()
}
fn add_heads(g: &G, known: &BTreeSet<usize>) -> BTreeSet<usize> {
    known
        .iter()
        .copied()
        .filter(|x| g.is_add[*x] && !known.iter().any(|y| g.add_preds[*y].contains(x)))
        .collect()
}

fn build(src: &mut Src, case: &mut Case) -> G {
    let signer = key(src.below(4));
    let doc = TreeId::from(vk(100));
    let n = 1 + src.weighted(&[1, 2, 4, 6, 6, 6, 5, 5, 4, 4, 3, 3, 2, 2, 1, 1]);
    let mut g = G { ops: vec![], hash: vec![], preds: vec![], add_preds: vec![], anc: vec![], is_add: vec![] };
    // replicas with different knowledge make the operations, as in the real protocol
    let reps = 1 + src.idx(4);
    let mut know: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); reps];
    for i in 0..n {
        let (p, ap, kind) = if i == 0 {
            (BTreeSet::new(), BTreeSet::new(), 0)
        } else {
            let r = src.idx(reps);
            // learn something first
            if know[r].is_empty() || src.chance(1, 3) {
                let s = if src.chance(1, 4) { 0 } else { src.idx(i) };
                know[r].insert(s);
                let a = g.anc[s].clone();
                know[r].extend(a);
            }
            let p = heads(&g, &know[r]);
            let ap = add_heads(&g, &know[r]);
            let kind = src.weighted(&[4, 2, 4]);
            (p, if kind == 0 { ap } else { BTreeSet::new() }, kind)
        };
        let predecessors: Vec<D> = p.iter().map(|x| g.hash[*x]).collect();
        let id = MemberId(vk(i as u64));
        let pk = ShareSecretKey::force_from_bytes([i as u8 + 1; 32]).share_key();
        let op = match kind {
            0 => CgkaOperation::Add {
                added_id: id,
                pk,
                leaf_index: src.below(5) as u32,
                predecessors,
                add_predecessors: ap.iter().map(|x| g.hash[*x]).collect(),
                doc_id: doc,
            },
            _ => CgkaOperation::Remove {
                id,
                leaf_idx: src.below(5) as u32,
                removed_keys: if kind == 1 { vec![pk] } else { vec![] },
                predecessors,
                doc_id: doc,
            },
        };
        let s = try_sign_basic(&signer, signer.verifying_key(), op).expect("sign");
        let mut anc = p.clone();
        for x in &p {
            anc.extend(g.anc[*x].iter().copied());
        }
        case.note(format!("op {i}: kind {kind} after {p:?}"));
        g.hash.push(Digest::hash(&s));
        g.ops.push(s);
        g.preds.push(p);
        g.add_preds.push(ap);
        g.anc.push(anc);
        g.is_add.push(kind == 0);
        let r = if i == 0 { 0 } else { src.idx(reps) };
        if i > 0 {
            // the maker knows its own operation
            for k in know.iter_mut() {
                if g.preds[i].iter().all(|x| k.contains(x)) && heads_match(&g.preds[i], k, &g.preds) {
                    k.insert(i);
                    break;
                }
            }
        } else {
            know[r].insert(0);
        }
    }
    g
}

fn heads_match(p: &BTreeSet<usize>, known: &BTreeSet<usize>, preds: &[BTreeSet<usize>]) -> bool {
    let h: BTreeSet<usize> =
        known.iter().copied().filter(|x| !known.iter().any(|y| preds[*y].contains(x))).collect();
    &h == p
}

/// An arrival order in which everything comes after what it depends on.
fn arrival(src: &mut Src, g: &G, of: &BTreeSet<usize>) -> Vec<usize> {
    let mut out: Vec<usize> = vec![];
    let mut left = of.clone();
    while !left.is_empty() {
        let ready: Vec<usize> = left.iter().copied().filter(|x| g.preds[*x].iter().all(|p| out.contains(p))).collect();
        let x = *src.pick(&ready);
        left.remove(&x);
        out.push(x);
    }
    out
}

fn receive(g: &G, order: &[usize]) -> CgkaOperationGraph {
    let mut gr = CgkaOperationGraph::new();
    for x in order {
        if g.preds[*x].is_empty() {
            gr.add_local_op(&g.ops[*x]);
        } else {
            gr.add_op(&g.ops[*x], &g.ops[*x].payload.predecessors());
        }
    }
    gr
}

/// The operations split at every point where all later ones depend on all earlier ones.
fn ref_epochs(g: &G, of: &BTreeSet<usize>) -> Vec<BTreeSet<usize>> {
    // in order of the number of ancestors, every such cut is a prefix
    let mut v: Vec<usize> = of.iter().copied().collect();
    v.sort_by_key(|x| g.anc[*x].intersection(of).count());
    let mut out = vec![];
    let mut cur = BTreeSet::new();
    for i in 0..v.len() {
        cur.insert(v[i]);
        let before = &v[..=i];
        if v[i + 1..].iter().all(|y| before.iter().all(|x| g.anc[*y].contains(x))) {
            out.push(std::mem::take(&mut cur));
        }
    }
    out
}

fn check_graph(g: &G, gr: &CgkaOperationGraph, of: &BTreeSet<usize>, what: &str, case: &mut Case) -> Result<Vec<Vec<D>>, Failure> {
    let ix: BTreeMap<D, usize> = g.hash.iter().enumerate().map(|(i, h)| (*h, i)).collect();
    let have: BTreeSet<usize> = gr.cgka_ops.keys().map(|k| ix[k]).collect();
    ensure!(&have == of, "ops-lost", "{what}: the graph holds {have:?}, expected {of:?}");
    let h: BTreeSet<usize> = gr.cgka_op_heads.iter().map(|k| ix[k]).collect();
    ensure!(h == heads(g, of), "heads", "{what}: heads {h:?}, expected {:?}", heads(g, of));
    let ah: BTreeSet<usize> = gr.add_heads.iter().map(|k| ix[k]).collect();
    ensure!(ah == add_heads(g, of), "add-heads", "{what}: add heads {ah:?}, expected {:?}", add_heads(g, of));
    ensure!(gr.has_single_head() == (h.len() == 1), "heads", "{what}: has_single_head");
    case.asserts += 4;
    for x in of {
        let p: BTreeSet<usize> =
            gr.predecessors_for(&g.hash[*x]).map(|s| s.iter().map(|k| ix[k]).collect()).unwrap_or_default();
        ensure!(p == g.preds[*x], "predecessors", "{what}: predecessors of {x}: {p:?}, expected {:?}", g.preds[*x]);
    }
    let sorted = gr.topsort_graph().map_err(|e| Failure { sig: "no-order".into(), msg: format!("{what}: {e:?}") })?;
    check_order(g, &sorted.iter().map(|e| e.iter().map(|o| Digest::hash(o.as_ref())).collect()).collect::<Vec<Vec<D>>>(), of, what, case)
}

fn check_order(g: &G, got: &[Vec<D>], of: &BTreeSet<usize>, what: &str, case: &mut Case) -> Result<Vec<Vec<D>>, Failure> {
    let ix: BTreeMap<D, usize> = g.hash.iter().enumerate().map(|(i, h)| (*h, i)).collect();
    let e: Vec<Vec<usize>> = got.iter().map(|e| e.iter().map(|d| ix[d]).collect()).collect();
    let flat: Vec<usize> = e.iter().flatten().copied().collect();
    let set: BTreeSet<usize> = flat.iter().copied().collect();
    ensure!(set.len() == flat.len(), "repeated", "{what}: an operation is repeated: {e:?}");
    ensure!(&set == of, "incomplete", "{what}: order {e:?} lacks or adds something, expected {of:?}");
    for (i, x) in flat.iter().enumerate() {
        for y in &flat[..i] {
            ensure!(!g.anc[*y].contains(x), "not-causal", "{what}: {y} comes before {x}, which it depends on: {e:?}");
        }
    }
    // Concurrent operations are in the same group, and one with nothing concurrent is alone.
    let mut cuts = BTreeSet::new();
    let mut n = 0;
    for e in ref_epochs(g, of) {
        if e.len() == 1 {
            cuts.insert((n, n + 1));
        }
        n += e.len();
        cuts.insert((n, n));
    }
    let (mut at, mut alone) = (0, BTreeSet::new());
    for x in &e {
        if x.len() == 1 {
            alone.insert((at, at + 1));
        }
        at += x.len();
        ensure!(cuts.contains(&(at, at)), "epochs", "{what}: concurrent operations are not kept together: {e:?}");
    }
    let singles: BTreeSet<_> = cuts.iter().filter(|c| c.0 != c.1).copied().collect();
    ensure!(singles == alone, "epochs", "{what}: an operation with nothing concurrent is not alone: {e:?}");
    case.asserts += 4;
    Ok(got.to_vec())
}

fn c07(src: &mut Src, case: &mut Case) -> Check {
    if src.chance(1, 20) {
        return tree_random(src, case);
    }
    let g = build(src, case);
    let all: BTreeSet<usize> = (0..g.ops.len()).collect();
    if ref_epochs(&g, &all).iter().any(|e| e.len() > 1) {
        case.nontrivial = true;
        case.label("graph:concurrent");
    }
    let a = receive(&g, &arrival(src, &g, &all));
    let oa = check_graph(&g, &a, &all, "first replica", case)?;
    let b = receive(&g, &arrival(src, &g, &all));
    let ob = check_graph(&g, &b, &all, "second replica", case)?;
    ensure!(oa == ob, "replica-dependent", "two replicas with the same operations order them differently");
    // any ancestor closure
    let mut hs = BTreeSet::new();
    for _ in 0..1 + src.idx(2) {
        hs.insert(src.idx(g.ops.len()));
    }
    let mut of = hs.clone();
    for h in &hs {
        of.extend(g.anc[*h].iter().copied());
    }
    let top: BTreeSet<usize> = heads(&g, &of);
    let q = top.iter().map(|h| g.hash[*h]).collect();
    let o = a.topsort_for_heads(&q).map_err(|e| Failure { sig: "no-order".into(), msg: format!("{e:?}") })?;
    let o: Vec<Vec<D>> = o.iter().map(|e| e.iter().map(|o| Digest::hash(o.as_ref())).collect()).collect();
    check_order(&g, &o, &of, "order up to some heads", case)?;
    // what a replica with only these operations says
    let part = receive(&g, &arrival(src, &g, &of));
    let op = check_graph(&g, &part, &of, "replica with some of the operations", case)?;
    ensure!(op == o, "replica-dependent", "order up to some heads differs from that of a replica with only these operations");
    // fork, go separate ways, merge
    if src.chance(1, 2) {
        let mut trunk = part;
        let mut fork = trunk.fork();
        let mut t = of.clone();
        let mut f = of.clone();
        let rest: BTreeSet<usize> = all.difference(&of).copied().collect();
        let mut order: Vec<usize> = arrival(src, &g, &all).into_iter().filter(|x| rest.contains(x)).collect();
        order.retain(|_| !src.chance(1, 4));
        for x in order {
            let side = src.idx(3);
            let op = &g.ops[x];
            let p = op.payload.predecessors();
            if side != 1 && g.preds[x].iter().all(|y| t.contains(y)) {
                trunk.add_op(op, &p);
                t.insert(x);
            }
            if side != 0 && g.preds[x].iter().all(|y| f.contains(y)) {
                fork.add_op(op, &p);
                f.insert(x);
            }
        }
        check_graph(&g, &trunk, &t, "trunk before merging", case)?;
        check_graph(&g, &fork, &f, "fork", case)?;
        trunk.merge(fork);
        let u: BTreeSet<usize> = t.union(&f).copied().collect();
        let m = check_graph(&g, &trunk, &u, "merged", case)?;
        let fresh = receive(&g, &arrival(src, &g, &u));
        let o = check_graph(&g, &fresh, &u, "as if received", case)?;
        ensure!(m == o, "replica-dependent", "merged graph orders operations differently from one that received them");
        if t != f {
            case.label("graph:merged");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tree arithmetic

/// Recursive definition: the nodes lo..=hi with their parents, root in the middle.
fn reference(lo: u64, hi: u64, parent: Option<u64>, out: &mut BTreeMap<u64, (Option<u64>, Option<(u64, u64)>)>) -> u64 {
    let mid = (lo + hi) / 2;
    if lo == hi {
        out.insert(lo, (parent, None));
        return lo;
    }
    let l = reference(lo, mid - 1, Some(mid), out);
    let r = reference(mid + 1, hi, Some(mid), out);
    out.insert(mid, (parent, Some((l, r))));
    mid
}

fn tree_case(leaves: u32, case: &mut Case) -> Check {
    // smallest complete tree with room for that many leaves
    let mut room = 1u64;
    while room < leaves as u64 {
        room *= 2;
    }
    let size = 2 * room - 1;
    let mut t = BTreeMap::new();
    let root = reference(0, size - 1, None, &mut t);
    ensure!(tm::size_for_leaves(leaves) as u64 >= size, "tree", "tree for {leaves} leaves has {} nodes, too few", tm::size_for_leaves(leaves));
    ensure!(tm::size_for_nodes(size as u32) as u64 == size, "tree", "tree of {size} nodes became {}", tm::size_for_nodes(size as u32));
    let (lc, ic, r, next) = tm::tree(size as u32);
    ensure!(
        (lc as u64, ic as u64, r as u64, next as u64) == (room, room - 1, root, 2 * size + 1),
        "tree",
        "tree of {size} nodes: leaves {lc} inner {ic} root {r} next {next}"
    );
    for (x, (p, kids)) in &t {
        let x32 = *x as u32;
        if let Some(p) = p {
            ensure!(tm::parent_of(x32) as u64 == *p, "tree", "parent of {x} in {size}: {} expected {p}", tm::parent_of(x32));
            let (l, r) = t[p].1.unwrap();
            let s = if l == *x { r } else { l };
            ensure!(tm::sibling_of(x32) as u64 == s, "tree", "sibling of {x} in {size}: {} expected {s}", tm::sibling_of(x32));
        }
        if let Some((l, r)) = kids {
            let got = tm::children(x32);
            ensure!((got.0 as u64, got.1 as u64) == (*l, *r), "tree", "children of {x} in {size}: {got:?} expected {l},{r}");
        }
        let mut path = vec![];
        let mut c = *x;
        while let Some(p) = t[&c].0 {
            path.push(p as u32);
            c = p;
        }
        ensure!(tm::direct_path_of(x32, size as u32) == path, "tree", "path above {x} in {size}: {:?} expected {path:?}", tm::direct_path_of(x32, size as u32));
        ensure!(tm::compare(x32, x32.saturating_add(1)) == std::cmp::Ordering::Less, "tree", "node {x} is not before the next one");
    }
    case.asserts += 4 * t.len() as u64;
    Ok(())
}

fn tree_exhaustive(_src: &mut Src, case: &mut Case) -> Check {
    for leaves in 1..=512 {
        tree_case(leaves, case)?;
    }
    Ok(())
}

/// Large trees: walk from a random leaf, against the recursive definition on the fly.
fn tree_random(src: &mut Src, case: &mut Case) -> Check {
    let h = 2 + src.idx(28);
    let size = (1u64 << (h + 1)) - 1;
    case.nontrivial = true;
    case.label("tree:large");
    case.note(format!("tree of {size} nodes"));
    for _ in 0..8 {
        let target = src.below(size);
        // path by descent
        let (mut lo, mut hi) = (0u64, size - 1);
        let mut path: Vec<u64> = vec![];
        loop {
            let mid = (lo + hi) / 2;
            if mid == target {
                break;
            }
            path.push(mid);
            if target < mid {
                hi = mid - 1
            } else {
                lo = mid + 1
            }
        }
        path.reverse();
        let got: Vec<u64> = tm::direct_path_of(target as u32, size as u32).iter().map(|x| *x as u64).collect();
        ensure!(got == path, "tree", "path above {target} in {size}: {got:?} expected {path:?}");
        if let Some(p) = path.first() {
            let (l, r) = tm::children(*p as u32);
            let s = tm::sibling_of(target as u32);
            ensure!(
                (l as u64 == target && s == r) || (r as u64 == target && s == l),
                "tree",
                "sibling of {target} is {s}, children of its parent are {l} and {r}"
            );
            ensure!(l < r && (l as u64) < *p && (r as u64) > *p, "tree", "children of {p}: {l} {r}");
        }
        case.asserts += 3;
    }
    Ok(())
}
