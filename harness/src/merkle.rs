//! Independent construction of the whitelist tree (leaf = H(0 || H(owner, registry, cap)),
//! node = H(1 || min || max), odd nodes paired with themselves).
use solana_program::{hash::hashv, pubkey::Pubkey};

pub fn leaf(owner: &Pubkey, idx: u8, cap: u64) -> [u8; 32] {
    let h = hashv(&[owner.as_ref(), &[idx], &cap.to_le_bytes()]);
    hashv(&[&[0], h.as_ref()]).to_bytes()
}
pub fn node(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    hashv(&[&[1], x, y]).to_bytes()
}
pub fn verify(proof: &[[u8; 32]], root: &[u8; 32], leaf: [u8; 32]) -> bool {
    let mut h = leaf;
    for p in proof {
        h = node(&h, p);
    }
    h == *root
}

#[derive(Clone)]
pub struct Tree {
    pub entries: Vec<(Pubkey, u8, u64)>,
    pub levels: Vec<Vec<[u8; 32]>>,
    /// a published root that is not the root of the entries (nobody can prove anything then)
    pub published: Option<[u8; 32]>,
    /// siblings above the entries' own subtree
    pub up: Vec<[u8; 32]>,
}
impl Tree {
    pub fn new(entries: Vec<(Pubkey, u8, u64)>) -> Tree {
        let mut levels = vec![entries.iter().map(|e| leaf(&e.0, e.1, e.2)).collect::<Vec<_>>()];
        while levels.last().unwrap().len() > 1 {
            let l = levels.last().unwrap();
            let n = l.chunks(2).map(|c| node(&c[0], c.get(1).unwrap_or(&c[0]))).collect();
            levels.push(n);
        }
        Tree { entries, levels, published: None, up: vec![] }
    }
    pub fn root(&self) -> [u8; 32] {
        self.published.unwrap_or_else(|| self.up.iter().fold(self.levels.last().unwrap()[0], |h, s| node(&h, s)))
    }
    pub fn lift(&mut self, up: Vec<[u8; 32]>) {
        self.up = up;
    }
    pub fn proof(&self, mut i: usize) -> Vec<[u8; 32]> {
        let mut out = vec![];
        for l in &self.levels[..self.levels.len() - 1] {
            let s = i ^ 1;
            out.push(*l.get(s).unwrap_or(&l[i]));
            i /= 2;
        }
        out.extend(self.up.iter());
        out
    }
}
