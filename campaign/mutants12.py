"""Twelfth batch: the whitelist library in use (files that exist already, entries taken over from an earlier tree)."""
from mutants import *
M=[]
def m(id,f,old,new,props): M.append((id,f,old,new,props.split(),0))
T='/merkle-tree/src/config_merkle_tree.rs'
m('t-file-notrunc',T,'let mut file = File::create(path).unwrap();','''let mut file = std::fs::OpenOptions::new()
            .write(true)
            .create(true)
            .open(path)
            .unwrap();''','C16')
m('t-file-append',T,'let mut file = File::create(path).unwrap();','''let mut file = std::fs::OpenOptions::new()
            .append(true)
            .create(true)
            .open(path)
            .unwrap();''','C16')
m('t-stale-proof',T,'            tree_node.proof = Some(get_proof(&tree, i));','''            // nodes that already carry a proof keep it
            tree_node
                .proof
                .get_or_insert_with(|| get_proof(&tree, i));''','C16')
