//! A chain of whole blocks from genesis, and audits of it against the digest of its last block (C30).
use crate::s_chain::{h32, mutate, ups, version, vername, vote};
use crate::txs;
use crate::util::*;
use crate::Suite;
use algorsand::crypto::{hash_obj, CryptoHash, Tree};
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::block::verif_hooks as h;
use algorsand::data::bookkeeping::genesis::verif_hooks as hk;
use algorsand::data::bookkeeping::*;
use algorsand::data::committee::Seed;
use algorsand::data::transactions::*;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Default)]
pub struct History {
    blocks: Vec<Block>,
    ids: Vec<Vec<u64>>,
}

/// Puts transactions into a block and commits to them.
fn fill(b: &mut Block, list: &Value) -> Result<(), &'static str> {
    for x in arr(list) {
        let id = u(&x["id"]);
        let mut t = txs::full_tx(s(&x["kind"]), id);
        t.header.group = h32(s(&x["grp"]));
        t.header.genesis_id = if self::b(&x["own"]) { b.header.genesis_id.clone() } else { String::new() };
        t.header.genesis_hash = b.header.genesis_hash.clone();
        let ad = ApplyData { sender_rewards: MicroAlgos(id), ..Default::default() };
        let e = b.header.encode_signed_tx(t.sign(&keypair("k")), ad).map_err(|_| "encode")?;
        b.payset.0.push(e);
    }
    b.header.tx_root = b.payset_commit().map_err(|_| "commit")?;
    Ok(())
}

fn b(v: &Value) -> bool {
    crate::util::b(v)
}

/// The id of a transaction is its fee beyond 1000.
fn groups(b: &Block) -> Value {
    match b.decode_payset_groups() {
        Err(_) => json!("unreadable"),
        Ok(gs) => json!(gs
            .iter()
            .map(|g| g
                .iter()
                .map(|x| {
                    let t = &x.tx.tx.header;
                    if t.genesis_hash != b.header.genesis_hash { 0 } else { t.fee.0 - 1000 }
                })
                .collect::<Vec<_>>())
            .collect::<Vec<_>>()),
    }
}

impl History {
    fn add(&mut self, mut blk: Block, op: &Value) -> Value {
        let prev = self.blocks.last().unwrap().header.clone();
        blk = blk.with_seed(Seed(bytes32(&format!("seed{}", self.blocks.len()))));
        blk.header.tx_counter = prev.tx_counter + arr(&op["txs"]).len() as u64;
        let filled = guard(|| {
            let mut x = blk.clone();
            fill(&mut x, &op["txs"]).map(|_| x)
        });
        let unsup = json!({"ok": false, "groups": [], "round": blk.header.round.0, "cur": vername(blk.header.upgrade_state.current_protocol)});
        let blk = match filled {
            Err(_) => return json!({"panic": true}),
            Ok(Err("commit")) | Ok(Err("encode")) if arr(&op["txs"]).is_empty() => return unsup,
            Ok(Err(x)) => return json!({ "fill": x }),
            Ok(Ok(x)) => x,
        };
        let ok = match guard(|| blk.header.pre_check(&prev).is_ok() && h::contents_match_header(&blk)) {
            Ok(x) => x,
            Err(_) => return json!({"panic": true}),
        };
        let res = json!({"ok": ok, "groups": groups(&blk), "round": blk.round().0, "cur": vername(blk.header.upgrade_state.current_protocol)});
        if ok {
            self.blocks.push(blk);
        }
        res
    }

    /// the claimed chain
    fn tampered(&self, op: &Value) -> Vec<Block> {
        let mut t = self.blocks.clone();
        let i = u(&op["at"]) as usize;
        let i = if i == 0 { 0 } else { i - 1 };
        let fix = s(&op["fix"]);
        let mut from = i;
        match s(&op["what"]) {
            "nothing" => {}
            "cut" => {
                t.remove(i);
                from = 0;
            }
            "again" => {
                let x = t[i].clone();
                t.insert(i, x);
                from = 0;
            }
            "exchange" => {
                t.swap(i, i + 1);
                from = 0;
            }
            "stop" => {
                t.truncate(i + 1);
                from = 0;
            }
            w @ ("drop" | "repeat" | "swap" | "amount" | "signature" | "applied" | "flag") => {
                let j = u(&op["j"]) as usize - 1;
                let q = &mut t[i].payset.0;
                match w {
                    "drop" => {
                        q.remove(j);
                    }
                    "repeat" => {
                        let x = q[j].clone();
                        q.insert(j, x);
                    }
                    "swap" => q.swap(j, j + 1),
                    "amount" => q[j].tx.tx.tx.header.fee.0 += 1,
                    "signature" => q[j].tx.tx = {
                        let mut tx = q[j].tx.tx.tx.clone();
                        tx.header.note.push(9);
                        let mut st = tx.sign(&keypair("k"));
                        st.tx = q[j].tx.tx.tx.clone();
                        st
                    },
                    "applied" => q[j].tx.ad.sender_rewards.0 += 1000,
                    _ => q[j].has_genesis_hash ^= true,
                }
                if fix != "none" {
                    if let Ok(r) = t[i].payset_commit() {
                        t[i].header.tx_root = r;
                    }
                }
            }
            f => mutate(&mut t[i].header, f),
        }
        if fix == "all" {
            for k in from + 1..t.len() {
                t[k].header.branch = t[k - 1].digest();
            }
        }
        t
    }
}

impl Suite for History {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                let hd = &op["hdr"];
                let mut balances = HashMap::new();
                balances.insert(addr("pool"), AccountData { micro_algos: MicroAlgos(1 << 40), ..Default::default() });
                balances.insert(addr("sink"), AccountData { micro_algos: MicroAlgos(1_000_003), ..Default::default() });
                let g = hk::create_block(
                    version(s(&hd["ups"]["cur"])), balances, addr("sink"), addr("pool"), u(&hd["ts"]), s(&hd["gid"]), h32(s(&hd["gh"])),
                );
                self.blocks = vec![g.map_err(|_| "genesis").unwrap()];
                json!("ready")
            }
            "own" => {
                let prev = self.blocks.last().unwrap().header.clone();
                match guard(|| Block::new(&prev)) {
                    Err(_) => json!({"panic": true}),
                    Ok(blk) => self.add(blk, op),
                }
            }
            "given" => {
                let hd = &op["hdr"];
                let p = &self.blocks.last().unwrap().header;
                let header = BlockHeader {
                    round: Round(u(&hd["round"])),
                    branch: self.blocks.last().unwrap().digest(),
                    timestamp: u(&hd["ts"]),
                    genesis_id: s(&hd["gid"]).to_owned(),
                    genesis_hash: h32(s(&hd["gh"])),
                    rewards_state: p.rewards_state.clone(),
                    upgrade_state: ups(&hd["ups"]),
                    upgrade_vote: vote(&hd["vote"], p.upgrade_state.current_protocol),
                    ..Default::default()
                };
                self.add(Block { header, payset: Default::default() }, op)
            }
            // go through a claimed chain, trusting only the digest of the real one's last block
            "audit" => {
                let trusted = self.blocks.last().unwrap().digest();
                let t = self.tampered(op);
                let r = guard(|| {
                    for i in 1..t.len() {
                        if t[i].header.pre_check(&t[i - 1].header).is_err() {
                            return (i + 1, "link");
                        }
                        if !h::contents_match_header(&t[i]) {
                            return (i + 1, "contents");
                        }
                    }
                    match t.last().unwrap().digest() == trusted {
                        true => (0, "none"),
                        false => (t.len(), "digest"),
                    }
                });
                match r {
                    Ok((at, why)) => json!({"at": at, "why": why}),
                    Err(_) => json!({"panic": true}),
                }
            }
            "receipt" => {
                let (i, j, k, p) = (u(&op["i"]) as usize - 1, u(&op["j"]) - 1, u(&op["k"]) as usize - 1, u(&op["p"]) - 1);
                let blk = &self.blocks[i];
                let root = &self.blocks[u(&op["b"]) as usize - 1].header.tx_root;
                let r = guard(|| {
                    let leaves = TxMerkleArray::from_block(blk).map_err(|_| ())?;
                    let proof = blk.tx_merkle_tree()?.prove(&mut vec![j])?;
                    let mut claim = HashMap::new();
                    claim.insert(p, hash_obj(&leaves.0[k]));
                    Ok(Tree::verify(root, claim, &proof).is_ok()) as Result<bool, ()>
                });
                match r {
                    Ok(Ok(x)) => json!({ "accept": x }),
                    Ok(Err(_)) => json!({"error": true}),
                    Err(_) => json!({"panic": true}),
                }
            }
            x => panic!("script: unknown operation {}", x),
        }
    }
}
