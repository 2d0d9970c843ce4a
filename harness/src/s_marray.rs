//! Merkle arrays (C10).  Hashes are exchanged as terms; see spec/MerkleArray.tla.
use crate::util::*;
use crate::Suite;
use algorsand::crypto::{hash_obj, CryptoHash, Tree};
use serde_json::{json, Value};
use sha2::{Digest, Sha512Trunc256};
use std::collections::HashMap;

#[derive(Default)]
pub struct MArray {}

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha512Trunc256::new();
    for p in parts {
        h.update(p);
    }
    let mut o = [0; 32];
    o.copy_from_slice(&h.finalize());
    o
}

fn leaf(name: &str) -> [u8; 32] {
    sha(&[algorsand::protocol::MESSAGE.as_bytes(), name.as_bytes()])
}

fn node(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    sha(&[algorsand::protocol::MERKLE_ARRAY_NODE.as_bytes(), l, r])
}

/// the hash a term stands for
fn eval(t: &mut &[u8]) -> [u8; 32] {
    match t[0] {
        b'0' => {
            *t = &t[1..];
            [0; 32]
        }
        b'(' => {
            *t = &t[1..];
            let l = eval(t);
            assert_eq!(t[0], b' ');
            *t = &t[1..];
            let r = eval(t);
            assert_eq!(t[0], b')');
            *t = &t[1..];
            node(&l, &r)
        }
        _ => {
            let n = t.iter().take_while(|c| c.is_ascii_alphanumeric()).count();
            assert!(n > 0);
            let h = leaf(std::str::from_utf8(&t[..n]).unwrap());
            *t = &t[n..];
            h
        }
    }
}

fn term(v: &Value) -> CryptoHash {
    let mut t = s(v).as_bytes();
    let h = eval(&mut t);
    assert!(t.is_empty(), "script: term {}", v);
    CryptoHash(h)
}

/// names for the hashes that can come from this array: of elements, and of neighbouring pairs, again and again
fn names(a: &[String]) -> HashMap<[u8; 32], String> {
    let mut m = HashMap::new();
    m.insert([0; 32], "0".to_owned());
    let mut level: Vec<([u8; 32], String)> = a.iter().map(|x| (leaf(x), x.clone())).collect();
    for (h, n) in &level {
        m.insert(*h, n.clone());
    }
    while level.len() > 1 {
        let zero = ([0; 32], "0".to_owned());
        let pair = |i: usize| {
            let (l, r) = (&level[i], level.get(i + 1).unwrap_or(&zero));
            (node(&l.0, &r.0), format!("({} {})", l.1, r.1))
        };
        for i in 0..level.len() {
            let (h, n) = pair(i);
            m.insert(h, n);
        }
        level = (0..level.len()).step_by(2).map(pair).collect();
    }
    m
}

fn name(m: &HashMap<[u8; 32], String>, h: &CryptoHash) -> Value {
    json!(m.get(&h.0).map(|x| x.as_str()).unwrap_or("?"))
}

impl Suite for MArray {
    fn step(&mut self, op: &Value) -> Value {
        let array = || arr(&op["arr"]).iter().map(|x| s(x).to_owned()).collect::<Vec<String>>();
        match s(&op["a"]) {
            "init" => json!("ready"),
            "build" => {
                let a = array();
                let t = Tree::from_array(&a).unwrap();
                json!({"root": name(&names(&a), &t.root()), "size": t.levels[0].0.len()})
            }
            "prove" => {
                let a = array();
                let t = Tree::from_array(&a).unwrap();
                let mut idxs: Vec<u64> = arr(&op["idxs"]).iter().map(u).collect();
                match guard(|| t.prove(&mut idxs)) {
                    Ok(Ok(p)) => {
                        let claim = idxs.iter().map(|i| (*i, hash_obj(&a[*i as usize]))).collect();
                        let acc = guard(|| Tree::verify(&t.root(), claim, &p).is_ok());
                        let m = names(&a);
                        json!({"ok": "ok", "proof": p.iter().map(|h| name(&m, h)).collect::<Vec<_>>(), "accept": acc.map(|x| json!(x)).unwrap_or(json!("panic"))})
                    }
                    Ok(Err(_)) => json!({"ok": "err", "proof": [], "accept": false}),
                    Err(_) => json!({"ok": "panic", "proof": [], "accept": false}),
                }
            }
            "verify" => {
                let claims = arr(&op["claims"]).iter().map(|c| (u(&c["pos"]), term(&c["v"]))).collect();
                let proof: Vec<CryptoHash> = arr(&op["proof"]).iter().map(term).collect();
                json!({"ok": verdict(guard(|| Tree::verify(&term(&op["root"]), claims, &proof)))})
            }
            x => panic!("script: no operation {}", x),
        }
    }
}
