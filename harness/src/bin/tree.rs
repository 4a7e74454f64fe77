//! Monitor for the off-chain whitelist library: every tree it builds is compared with an independent
//! construction, its proofs are replayed through the program's verifier and through the program
//! itself, and tampered entries, proofs and files must never verify.

use presale_monitor::abi::*;
use presale_monitor::bank::Env;
use presale_monitor::gen::{Focus, Scn};
use presale_monitor::merkle::{self, Tree};
use presale_monitor::model::*;
use presale_monitor::rng::Rng;
use merkle_tree::{config_merkle_tree::ConfigMerkleTree, merkle_tree::MerkleTree, tree_node::TreeNode};
use solana_program::{hash::hashv, pubkey::Pubkey};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

use presale_monitor::driver::Special as Out;

/// The program's proof check, however it takes its arguments.
#[cfg(not(feature = "noverify"))]
mod own {
trait Check<M> {
    fn check(&self, p: Vec<[u8; 32]>, root: [u8; 32], leaf: [u8; 32]) -> bool;
}
struct ByVec;
struct BySlice;
struct ByVecRef;
struct ByRefs;
impl<F: Fn(Vec<[u8; 32]>, [u8; 32], [u8; 32]) -> bool> Check<ByVec> for F {
    fn check(&self, p: Vec<[u8; 32]>, root: [u8; 32], leaf: [u8; 32]) -> bool {
        self(p, root, leaf)
    }
}
impl<F: Fn(&[[u8; 32]], [u8; 32], [u8; 32]) -> bool> Check<BySlice> for F {
    fn check(&self, p: Vec<[u8; 32]>, root: [u8; 32], leaf: [u8; 32]) -> bool {
        self(&p, root, leaf)
    }
}
impl<F: Fn(&Vec<[u8; 32]>, [u8; 32], [u8; 32]) -> bool> Check<ByVecRef> for F {
    fn check(&self, p: Vec<[u8; 32]>, root: [u8; 32], leaf: [u8; 32]) -> bool {
        self(&p, root, leaf)
    }
}
impl<F: Fn(&[[u8; 32]], &[u8; 32], &[u8; 32]) -> bool> Check<ByRefs> for F {
    fn check(&self, p: Vec<[u8; 32]>, root: [u8; 32], leaf: [u8; 32]) -> bool {
        self(&p, &root, &leaf)
    }
}
pub fn verify(p: Vec<[u8; 32]>, root: [u8; 32], leaf: [u8; 32]) -> bool {
    presale::verify.check(p, root, leaf)
}
}
/// Where it cannot be called, the program's verdict is only taken from whole instructions (`onchain`).
#[cfg(feature = "noverify")]
mod own {
pub fn verify(p: Vec<[u8; 32]>, root: [u8; 32], leaf: [u8; 32]) -> bool {
    presale_monitor::merkle::verify(&p, &root, leaf)
}
}
use own::verify;

fn size(rng: &mut Rng) -> usize {
    (match rng.below(10) {
        0 => 1,
        1 => rng.range(2, 5),
        2 | 3 => rng.range(2, 40),
        4 | 5 => {
            let b = rng.range(1, 9);
            ((1u64 << b) + rng.below(3)).saturating_sub(1).max(1)
        }
        6..=8 => rng.range(1, 200),
        _ => rng.range(200, 1200),
    }) as usize
}

fn nodes(rng: &mut Rng, n: usize) -> Vec<TreeNode> {
    let mut v: Vec<TreeNode> = vec![];
    let dup = *rng.pick(&[0u64, 0, 10, 40]);
    // entries taken over from an earlier tree bring its proofs along
    let stale = *rng.pick(&[0u64, 0, 0, 30, 100]);
    for _ in 0..n {
        let owner = if !v.is_empty() && rng.below(100) < dup { v[rng.idx(v.len())].escrow_owner } else { rng.key() };
        let registry_index = match rng.below(4) {
            0 => rng.below(256) as u8,
            _ => rng.below(5) as u8,
        };
        let deposit_cap = match rng.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => rng.next(),
            _ => rng.log(1 << 45),
        };
        v.push(TreeNode { escrow_owner: owner, registry_index, deposit_cap, proof: None });
    }
    for x in v.iter_mut() {
        if rng.below(100) < stale {
            x.proof = Some((0..rng.below(12)).map(|_| rng.key().to_bytes()).collect());
        }
    }
    v
}

/// The first scenarios go through every size up to 600 and a few large ones, the rest draw sizes.
pub fn library(i: u64, seed: u64, dir: &Path, o: &mut Out) {
    let mut rng = Rng::new(seed);
    let n = match i {
        0 => 65_537 + rng.idx(3),
        1 => 40_000 + rng.idx(20_000),
        2 => 8_193 + rng.idx(3),
        3..=603 => i as usize - 3,
        _ if rng.chance(1, 60) => 0,
        _ => size(&mut rng),
    };
    let input = nodes(&mut rng, n);
    let version = match rng.below(5) {
        0 => rng.next(),
        1 => rng.log(u64::MAX),
        _ => *rng.pick(&[0u64, 1, 7, 255, 256, 65_536, 1 << 32, u64::MAX]),
    };
    o.evals += 1;
    let built = catch_unwind(AssertUnwindSafe(|| ConfigMerkleTree::new(input.clone(), version)));
    let mut bad = |class: &str, msg: String| o.bad.push((class.to_string(), msg));
    if n == 0 {
        if matches!(built, Ok(Ok(_))) {
            bad("empty", "an empty whitelist produced a tree".into());
        }
        return;
    }
    let t = match built {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return bad("build", format!("a whitelist of {n} entries was refused: {e:?}")),
        Err(_) => return bad("build-panic", format!("building a whitelist of {n} entries panicked")),
    };
    // one entry per wallet, the last one wins
    let mut want: Vec<(Pubkey, u8, u64)> = vec![];
    let mut pos = std::collections::HashMap::new();
    for x in &input {
        let e = (x.escrow_owner, x.registry_index, x.deposit_cap);
        match pos.get(&x.escrow_owner) {
            Some(i) => want[*i] = e,
            None => {
                pos.insert(x.escrow_owner, want.len());
                want.push(e);
            }
        }
    }
    let got: Vec<(Pubkey, u8, u64)> = t.tree_nodes.iter().map(|x| (x.escrow_owner, x.registry_index, x.deposit_cap)).collect();
    let (mut x, mut y) = (got.clone(), want.clone());
    x.sort();
    y.sort();
    // (the order of the entries is the library's business)
    want = got;
    if x != y {
        return bad("entries", format!("entries of the tree differ from the (deduplicated) input of {n}"));
    }
    if t.max_num_nodes != want.len() as u64 || t.version != version {
        bad("header", format!("node count {} version {} but expected {} {}", t.max_num_nodes, t.version, want.len(), version));
    }
    let ind = Tree::new(want.clone());
    if t.merkle_root != ind.root() {
        bad("root", format!("root of a tree with {} entries differs from the independent construction", want.len()));
    }
    let m = want.len();
    let all = m <= 64 || (i <= 603 && m <= 260);
    let picks: Vec<usize> = if all { (0..m).collect() } else {
        let mut v: Vec<usize> = (0..24).map(|_| rng.idx(m)).collect();
        v.extend([0, 1, m - 1, m - 2, m / 2]);
        v
    };
    let map = t.convert_to_hashmap();
    if map.len() != m {
        bad("map", "hash map view lost entries".into());
    }
    for &i in &picks {
        let nd = &t.tree_nodes[i];
        let Some(proof) = nd.proof.clone() else {
            bad("proof-missing", format!("entry {i} of {m} has no proof"));
            continue;
        };
        let lf = merkle::leaf(&want[i].0, want[i].1, want[i].2);
        let ok = verify(proof.clone(), t.merkle_root, lf);
        if !ok || !merkle::verify(&proof, &t.merkle_root, lf) {
            bad("complete", format!("proof of entry {i} of {m} does not verify"));
        }
        match catch_unwind(AssertUnwindSafe(|| t.get_node(&want[i].0))) {
            Ok(g) if g == *nd => {}
            _ => bad("get-node", format!("looking up entry {i} of {m} returned something else")),
        }
        if map.get(&want[i].0) != Some(nd) {
            bad("map", format!("hash map view of entry {i} of {m} differs"));
        }
        // soundness
        let (ow, ix, cap) = want[i];
        let other = want[(i + 1) % m];
        let forged: Vec<(&str, [u8; 32], Vec<[u8; 32]>)> = vec![
            ("another cap", merkle::leaf(&ow, ix, cap.wrapping_add(1)), proof.clone()),
            ("another cap", merkle::leaf(&ow, ix, cap ^ (1 << rng.below(64))), proof.clone()),
            ("another registry", merkle::leaf(&ow, ix.wrapping_add(1), cap), proof.clone()),
            ("another registry", merkle::leaf(&ow, ix ^ (1 << rng.below(8)), cap), proof.clone()),
            ("another wallet", merkle::leaf(&rng.key(), ix, cap), proof.clone()),
            ("unhashed leaf", hashv(&[ow.as_ref(), &[ix], &cap.to_le_bytes()]).to_bytes(), proof.clone()),
        ];
        for (what, l, p) in forged {
            if verify(p, t.merkle_root, l) {
                bad("sound", format!("{what} is accepted with the proof of entry {i} of {m}"));
            }
        }
        let mut bad_proofs: Vec<(&str, Vec<[u8; 32]>)> = vec![];
        let mut p = proof.clone();
        p.push(rng.key().to_bytes());
        bad_proofs.push(("longer proof", p));
        if !proof.is_empty() {
            bad_proofs.push(("truncated proof", proof[..proof.len() - 1].to_vec()));
            bad_proofs.push(("beheaded proof", proof[1..].to_vec()));
            let mut p = proof.clone();
            let k = rng.idx(p.len());
            p[k][rng.idx(32)] ^= 1 << rng.below(8);
            bad_proofs.push(("altered proof", p));
        }
        for (what, p) in bad_proofs {
            if verify(p, t.merkle_root, lf) {
                bad("sound", format!("{what} is accepted for entry {i} of {m}"));
            }
        }
        // an inner node must not pass as an entry
        if m >= 2 && !proof.is_empty() {
            let inner = merkle::node(&lf, &proof[0]);
            let as_leaf = hashv(&[&[0], &inner]).to_bytes();
            if verify(proof[1..].to_vec(), t.merkle_root, as_leaf) {
                bad("sound", "an inner node is accepted as an entry".into());
            }
        }
        let _ = other;
    }
    // somebody who is not listed has no entry
    let stranger = rng.key();
    if map.contains_key(&stranger) || catch_unwind(AssertUnwindSafe(|| t.get_node(&stranger))).is_ok() {
        bad("stranger", format!("a wallet that is not among the {m} listed ones has an entry"));
    }
    // address of the on-chain root
    let pk = rng.key();
    let a = t.get_merkle_root_config_pubkey(pk, &PROGRAM);
    if a != merkle_pda(&pk, version) {
        bad("address", "address of the root account differs".into());
    }
    if t.verify_proof().is_err() {
        bad("self-check", format!("a freshly built tree of {m} entries does not verify"));
    }
    // file round trip and tampering
    if rng.chance(1, 3) {
        let path = dir.join(format!("t{seed:x}.json"));
        // the file may exist already, longer or shorter, as a former version of the list
        match rng.below(4) {
            0 => {
                let long = nodes(&mut rng, (m + 3).min(300));
                if let Ok(Ok(former)) = catch_unwind(AssertUnwindSafe(|| ConfigMerkleTree::new(long, version.wrapping_add(1)))) {
                    let _ = catch_unwind(AssertUnwindSafe(|| former.write_to_file(&path)));
                }
            }
            1 => {
                let _ = std::fs::write(&path, vec![b'}'; 2000 + 600 * m.min(300)]);
            }
            2 => {
                let _ = std::fs::write(&path, b"{}");
            }
            _ => {}
        }
        let w = catch_unwind(AssertUnwindSafe(|| t.write_to_file(&path)));
        let r = catch_unwind(AssertUnwindSafe(|| ConfigMerkleTree::new_from_file(&path)));
        let _ = std::fs::remove_file(&path);
        match (w, r) {
            (Ok(()), Ok(Ok(b))) => {
                if b.merkle_root != t.merkle_root || b.version != t.version || b.max_num_nodes != t.max_num_nodes || b.tree_nodes != t.tree_nodes {
                    bad("file", format!("a tree of {m} entries changed when written and read back"));
                }
                if !matches!(catch_unwind(AssertUnwindSafe(|| b.verify_proof())), Ok(Ok(()))) {
                    bad("file", "a tree read back does not verify".into());
                }
                let mut x = b.clone();
                let what = match rng.below(6) {
                    4 if m >= 2 => {
                        // two entries trade their caps
                        let k = rng.idx(m - 1);
                        let (c1, c2) = (x.tree_nodes[k].deposit_cap, x.tree_nodes[k + 1].deposit_cap);
                        if c1 == c2 {
                            return;
                        }
                        x.tree_nodes[k].deposit_cap = c2;
                        x.tree_nodes[k + 1].deposit_cap = c1;
                        "pair of caps"
                    }
                    5 if m >= 2 => {
                        let k = rng.idx(m);
                        x.tree_nodes.remove(k);
                        "entry list (one removed)"
                    }
                    0 => {
                        x.merkle_root[rng.idx(32)] ^= 1;
                        "root"
                    }
                    1 => {
                        let k = rng.idx(m);
                        x.tree_nodes[k].deposit_cap = x.tree_nodes[k].deposit_cap.wrapping_add(1);
                        "cap"
                    }
                    2 => {
                        let k = rng.idx(m);
                        x.tree_nodes[k].registry_index ^= 1;
                        "registry"
                    }
                    _ => {
                        let k = rng.idx(m);
                        x.tree_nodes[k].escrow_owner = rng.key();
                        "wallet"
                    }
                };
                if matches!(catch_unwind(AssertUnwindSafe(|| x.verify_proof())), Ok(Ok(()))) {
                    bad("tamper", format!("a tree with an altered {what} still verifies"));
                }
            }
            _ => bad("file", format!("a tree of {m} entries could not be written and read back")),
        }
    }
    // the generic tree in its unsorted flavour
    if m <= 200 {
        let items: Vec<[u8; 32]> = want.iter().map(|e| hashv(&[e.0.as_ref(), &e.2.to_le_bytes()]).to_bytes()).collect();
        let g = MerkleTree::new(&items, false);
        let i = rng.idx(m);
        let lf = hashv(&[&[0], &items[i]]);
        let wrong = hashv(&[&[0], rng.key().as_ref()]);
        if g.find_path(m).is_some() {
            bad("generic", "a path exists for an index past the end".into());
        }
        match g.find_path(i) {
            Some(p) => {
                if !p.verify(lf) {
                    bad("generic", format!("path {i} of {m} does not verify"));
                }
                if m > 1 && p.verify(wrong) {
                    bad("generic", format!("path {i} of {m} verifies a foreign leaf"));
                }
            }
            None => bad("generic", format!("no path for {i} of {m}")),
        }
    }
    o.sigs.push(((m as u64) << 8) | ((input.len() != m) as u64) << 1 | (version > 7) as u64);
    if o.samples.len() < 6 {
        o.samples.push(format!("tree of {m} wallets from {} inputs, version {version}: root {}..., {} proofs replayed", input.len(), presale_monitor::sim::hexs(&t.merkle_root[..6]), picks.len()));
    }
}

/// Roots and proofs of the library against the running program.
pub fn onchain(env: &Env, seed: u64, f: &Focus, o: &mut Out) {
    let mut s = Scn::new(env, seed, f);
    s.setup();
    let Some(pi) = (0..s.sim.presales.len()).find(|i| s.sim.gp[&s.sim.presales[*i].key].whitelist == MERKLE) else { return };
    let pk = s.sim.presales[pi].key;
    let p = s.sim.gp[&pk].clone();
    let mut ns: Vec<TreeNode> = vec![];
    for u in s.sim.w.users.clone() {
        let idx = s.sim.rng.below(p.reg_count as u64) as u8;
        let r = &p.regs[idx as usize];
        let cap = s.sim.rng.range(r.min, r.max);
        ns.push(TreeNode { escrow_owner: u, registry_index: idx, deposit_cap: cap, proof: None });
    }
    for _ in 0..s.sim.rng.below(30) {
        let k = s.sim.rng.key();
        ns.push(TreeNode { escrow_owner: k, registry_index: 0, deposit_cap: 5, proof: None });
    }
    s.sim.rng.shuffle(&mut ns);
    let Ok(Ok(t)) = catch_unwind(AssertUnwindSafe(|| ConfigMerkleTree::new(ns.clone(), 3))) else {
        o.bad.push(("build".into(), format!("a whitelist of {} entries was refused", ns.len())));
        return;
    };
    let ents: Vec<_> = t.tree_nodes.iter().map(|x| (x.escrow_owner, x.registry_index, x.deposit_cap)).collect();
    let mut tree = Tree::new(ents);
    // publish the library's root, whatever it is
    *tree.levels.last_mut().unwrap() = vec![t.merkle_root];
    s.sim.create_merkle(pi, 3, tree, p.owner);
    let now = s.sim.w.now();
    s.sim.t(p.start.max(now));
    let cfg = t.get_merkle_root_config_pubkey(pk, &PROGRAM);
    for nd in t.tree_nodes.iter().filter(|n| s.sim.w.users.contains(&n.escrow_owner)).cloned().collect::<Vec<_>>() {
        let payer = s.sim.w.payer;
        let proof = nd.proof.clone().unwrap_or_default();
        o.evals += 1;
        o.onchain += 1;
        // altered entries first, then the real one
        let k = s.sim.escrow_proof(pi, nd.escrow_owner, nd.registry_index, nd.deposit_cap.wrapping_add(1), cfg, proof.clone(), payer);
        if k {
            o.bad.push(("onchain-sound".into(), "the program accepted an entry that is not in the tree".into()));
        }
        let ok = s.sim.escrow_proof(pi, nd.escrow_owner, nd.registry_index, nd.deposit_cap, cfg, proof.clone(), payer);
        if !ok && !s.sim.stop {
            o.bad.push(("onchain-complete".into(), format!("the program refused the proof the library made for entry {} of {}", s.sim.ge.len(), t.tree_nodes.len())));
        }
    }
    o.sigs.push((t.tree_nodes.len() as u64) << 8 | 0x80 | p.reg_count as u64);
}

fn scenario(env: &Env, i: u64, seed: u64, dir: &Path, o: &mut Out) {
    if i % 4 == 3 {
        let f = Focus { whitelists: vec![MERKLE], hostile: (0, 1), fuzz: (0, 1), ..presale_monitor::gen::focus_for("") };
        onchain(env, seed, &f, o)
    } else {
        library(i / 4 * 3 + i % 4, seed, dir, o)
    }
}

fn main() {
    presale_monitor::driver::main_with(Some(scenario))
}
