//! Paysets: grouping and storage (C08), commitment (C09), fees (C18).
use crate::txs;
use crate::util::*;
use crate::Suite;
use algorsand::crypto::{hash_obj, CryptoHash, Tree};
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::block::verif_hooks as h;
use algorsand::data::bookkeeping::*;
use algorsand::data::transactions::*;
use algorsand::protocol::ConsensusVersion;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Default)]
pub struct PaysetSuite {
    block: Block,
}

fn version(name: &str) -> ConsensusVersion {
    serde_json::from_value(json!(name)).unwrap_or_else(|_| panic!("script: no version {}", name))
}

/// {proto, gid, gh}
fn header(v: &Value) -> BlockHeader {
    let mut x = BlockHeader { round: Round(7), genesis_id: s(&v["gid"]).to_owned(), genesis_hash: txs::hash(&v["gh"]), ..Default::default() };
    x.upgrade_state.current_protocol = version(s(&v["proto"]));
    x
}

fn block(hdr: &Value, list: &Value) -> Block {
    Block { header: header(hdr), payset: Payset(arr(list).iter().map(txs::entry).collect()) }
}

fn entry_json(e: &SignedTxInBlock) -> Value {
    let t = &e.tx.tx.tx.header;
    json!({"gid": t.genesis_id, "gh": txs::gh_label(&t.genesis_hash), "fGid": e.has_genesis_id, "fGh": e.has_genesis_hash})
}

/// the transaction read back: its genesis fields, and whether all the rest is as stored
fn back_json(x: &SignedTxWithAD, stored: &SignedTxInBlock) -> Value {
    let t = &x.tx.tx.header;
    let mut y = x.clone();
    y.tx.tx.header.genesis_id = stored.tx.tx.tx.header.genesis_id.clone();
    y.tx.tx.header.genesis_hash = stored.tx.tx.tx.header.genesis_hash.clone();
    json!({"gid": t.genesis_id, "gh": txs::gh_label(&t.genesis_hash), "rest": y == stored.tx})
}

fn grouped(ids: &Value) -> Vec<SignedTx> {
    arr(ids)
        .iter()
        .enumerate()
        .map(|(i, g)| {
            let mut t = txs::full_tx(txs::KINDS[i % txs::KINDS.len()], i as u64);
            t.header.group = txs::hash(g);
            t.sign(&keypair("k"))
        })
        .collect()
}

/// which of the transactions each one is (by position)
fn which(all: &[SignedTx], x: &SignedTx) -> Value {
    match all.iter().position(|y| y == x) {
        Some(i) => json!(i + 1),
        None => json!(0),
    }
}

impl Suite for PaysetSuite {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => json!("ready"),
            "credit" => {
                let g: Vec<SignedTx> = arr(&op["group"])
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let mut t = txs::full_tx(s(&x["kind"]), i as u64);
                        t.header.fee = MicroAlgos(u(&x["fee"]));
                        t.sign(&keypair("k"))
                    })
                    .collect();
                match guard(|| fee_credit(&g, u(&op["minFee"]))) {
                    Ok(Ok(x)) => json!({"ok": "ok", "v": [b64(x)]}),
                    Ok(Err(_)) => json!({"ok": "err", "v": []}),
                    Err(_) => json!({"ok": "panic", "v": []}),
                }
            }
            "split" => {
                let all = grouped(&op["groups"]);
                let gs = signed_txs_to_group(&all);
                let split: Vec<Vec<Value>> = gs.iter().map(|g| g.iter().map(|x| which(&all, x)).collect()).collect();
                let flat: Vec<Value> = signed_tx_groups_flatten(gs).iter().map(|x| which(&all, x)).collect();
                // the same through a block
                let hdr = header(&json!({"proto": "V10", "gid": "g", "gh": "h"}));
                let b = Block {
                    header: hdr,
                    payset: Payset(
                        wrap_signed_txs_with_ad(&all)
                            .into_iter()
                            .map(|tx| SignedTxInBlock { tx, has_genesis_id: false, has_genesis_hash: false })
                            .collect(),
                    ),
                };
                let bs = b.decode_payset_groups().map_err(|_| "groups").unwrap();
                let bsplit: Vec<Vec<Value>> = bs.iter().map(|g| g.iter().map(|x| which(&all, &x.tx)).collect()).collect();
                let bflat: Vec<Value> = b.decode_payset_flat().map_err(|_| "flat").unwrap().iter().map(|x| which(&all, &x.tx)).collect();
                json!({"split": split, "flat": flat, "bsplit": bsplit, "bflat": bflat})
            }
            "store" => {
                let hd = header(&op["hdr"]);
                let e = txs::entry(&op["tx"]);
                let (st, ad) = (e.tx.tx.clone(), e.tx.ad.clone());
                match guard(|| hd.encode_signed_tx(st.clone(), ad.clone())) {
                    Err(_) => json!({"ok": "panic", "entry": [], "back": []}),
                    Ok(Err(_)) => json!({"ok": "err", "entry": [], "back": []}),
                    Ok(Ok(x)) => {
                        let back = match guard(|| hd.decode_signed_tx(&x)) {
                            Ok(Ok(y)) => json!([{"same": y.tx == st && y.ad == ad}]),
                            Ok(Err(_)) => json!([]),
                            Err(_) => json!("panic"),
                        };
                        json!({"ok": "ok", "entry": [entry_json(&x)], "back": back})
                    }
                }
            }
            "read" => {
                let hd = header(&op["hdr"]);
                let e = txs::entry(&op["entry"]);
                match guard(|| hd.decode_signed_tx(&e)) {
                    Ok(Ok(x)) => json!({"ok": "ok", "v": [back_json(&x, &e)]}),
                    Ok(Err(_)) => json!({"ok": "err", "v": []}),
                    Err(_) => json!({"ok": "panic", "v": []}),
                }
            }
            // all of a block's transactions: as a list and in groups
            "readall" => {
                let b = block(&op["hdr"], &op["list"]);
                let flat = match guard(|| b.decode_payset_flat()) {
                    Ok(Ok(v)) => json!({"ok": "ok", "v": v.iter().zip(&b.payset.0).map(|(x, e)| back_json(x, e)).collect::<Vec<_>>(), "n": v.len()}),
                    Ok(Err(_)) => json!({"ok": "err", "v": [], "n": 0}),
                    Err(_) => json!({"ok": "panic", "v": [], "n": 0}),
                };
                let groups = match guard(|| b.decode_payset_groups()) {
                    Ok(Ok(v)) => {
                        let joined: Vec<&SignedTxWithAD> = v.iter().flatten().collect();
                        let same = match b.decode_payset_flat() {
                            Ok(f) => joined.len() == f.len() && joined.iter().zip(&f).all(|(x, y)| **x == *y),
                            Err(_) => false,
                        };
                        json!({"ok": "ok", "v": v.iter().map(|g| g.len()).collect::<Vec<_>>(), "same": same})
                    }
                    Ok(Err(_)) => json!({"ok": "err", "v": [], "same": false}),
                    Err(_) => json!({"ok": "panic", "v": [], "same": false}),
                };
                json!({"flat": flat, "groups": groups})
            }
            // a block with one list, under the commitment to another
            "match" => {
                let a = block(&op["hdr"], &op["list"]);
                let mut bl = block(&op["hdr2"], &op["stored"]);
                // equal lists have equal commitments
                let again = block(&op["hdr"], &op["list"]);
                if a.payset_commit().ok().map(|x| x.0) != again.payset_commit().ok().map(|x| x.0) {
                    return json!({"commit": "changes", "match": []});
                }
                match guard(|| a.payset_commit()) {
                    Err(_) => json!({"commit": "panic", "match": []}),
                    Ok(Err(_)) => {
                        // nothing to match against: no header matches such contents
                        bl.header.tx_root = CryptoHash(bytes32("any"));
                        json!({"commit": "err", "match": []})
                    }
                    Ok(Ok(c)) => {
                        bl.header.tx_root = c;
                        match guard(|| h::contents_match_header(&bl)) {
                            Ok(x) => json!({"commit": "ok", "match": [x]}),
                            Err(_) => json!({"commit": "ok", "match": ["panic"]}),
                        }
                    }
                }
            }
            // the proof for entry i, used to claim that entry k is at position j
            "prove" => {
                let a = block(&op["hdr"], &op["list"]);
                let r = guard(|| {
                    let tree = a.tx_merkle_tree()?;
                    let root = a.payset_commit()?;
                    let leaves = TxMerkleArray::from_block(&a).map_err(|_| ())?;
                    let proof = tree.prove(&mut vec![u(&op["i"]) - 1])?;
                    let mut claim = HashMap::new();
                    claim.insert(u(&op["j"]) - 1, hash_obj(&leaves.0[u(&op["k"]) as usize - 1]));
                    Ok(Tree::verify(&root, claim, &proof).is_ok()) as Result<bool, ()>
                });
                match r {
                    Ok(Ok(x)) => json!({"ok": "ok", "accept": [x]}),
                    Ok(Err(_)) => json!({"ok": "err", "accept": []}),
                    Err(_) => json!({"ok": "panic", "accept": []}),
                }
            }
            x => panic!("script: no operation {}", x),
        }
    }
}
