//! The first block of a chain and genesis configuration files (C23).
use crate::s_chain::*;
use crate::util::*;
use crate::Suite;
use algorsand::data::basics::{AccountData, Address, MicroAlgos};
use algorsand::crypto::hash_obj;
use algorsand::data::bookkeeping::genesis::verif_hooks as hk;
use algorsand::data::committee::Seed;
use algorsand::data::transactions::Payset;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::PathBuf;

#[derive(Default)]
pub struct Genesis {
    chain: Chain,
    dir: PathBuf,
    n: usize,
    written: Vec<u8>,
    seen: Vec<[u8; 32]>,
}

fn label(candidates: &[&str], bytes: &[u8; 32]) -> Value {
    json!(candidates.iter().find(|l| bytes32(l) == *bytes).unwrap_or(&"other"))
}

fn account(n: u64) -> AccountData {
    AccountData { micro_algos: MicroAlgos(n), ..Default::default() }
}

fn encoded(g: &Value) -> Vec<u8> {
    let allocs = (0..u(&g["allocs"]))
        .map(|i| (addr(&format!("alloc{}", i)).to_string(), format!("c{}", i % 2), account(1 << (i * 13))))
        .collect();
    hk::encode_genesis(
        s(&g["schema"]),
        s(&g["network"]).to_owned(),
        version(s(&g["proto"])),
        allocs,
        &addr(s(&g["rp"])).to_string(),
        &addr(s(&g["sink"])).to_string(),
        u(&g["ts"]),
        s(&g["comment"]),
        b(&g["dev"]),
    )
}

impl Suite for Genesis {
    fn step(&mut self, op: &Value) -> Value {
        let file = self.dir.join("genesis.json");
        match s(&op["a"]) {
            "init" => {
                self.n += 1;
                self.chain = Chain::default();
                self.dir = PathBuf::from(format!("genesis-{}-{}", std::process::id(), self.n));
                self.seen.clear();
                std::fs::create_dir(&self.dir).unwrap();
                json!("ready")
            }
            "create" => {
                let rp = addr(s(&op["rp"]));
                let sink = addr(s(&op["sink"]));
                let mut balances = HashMap::new();
                for i in 0..u(&op["others"]) {
                    balances.insert(addr(&format!("acct{}", i)), account(u64::MAX - i));
                }
                balances.insert(sink, account(1_000_003));
                balances.remove(&rp);
                if s(&op["pool"]["k"]) == "ok" {
                    balances.insert(rp, account(u(&op["pool"]["b"])));
                }
                let hash = algorsand::crypto::CryptoHash(bytes32(s(&op["gh"])));
                match hk::create_block(version(s(&op["proto"])), balances, sink, rp, u(&op["ts"]), s(&op["gid"]), hash) {
                    Err(_) => json!({"ok": false}),
                    Ok(blk) => {
                        let other = Seed(bytes32("reseeded"));
                        let again = blk.with_seed(other.clone());
                        let mut back = again.header.clone();
                        back.seed = blk.header.seed.clone();
                        let asked = json!({
                            "round": blk.round().0, "gid": blk.genesis_id(), "gh": label(&["zero", s(&op["gh"])], &blk.genesis_hash().0),
                            "seed": label(&["zero", s(&op["gh"])], &blk.seed().0),
                            "min": b64(blk.consensus_protocol().min_balance),
                            "digest": blk.digest() == hash_obj(&blk.header),
                            // the same block with another seed
                            "reseeded": again.seed().0 == other.0 && again.digest() != blk.digest()
                                && hash_obj(&back) == blk.digest() && again.payset.0.len() == blk.payset.0.len()});
                        let h = blk.header;
                        let accts = [s(&op["sink"]), s(&op["rp"]), "zero"];
                        let r = &h.rewards_state;
                        let res = json!({
                            "ok": true, "round": h.round.0, "branch": label(&["zero"], &h.branch.0),
                            "seed": label(&["zero", s(&op["gh"])], &h.seed.0), "gid": h.genesis_id,
                            "gh": label(&["zero", s(&op["gh"])], &h.genesis_hash.0), "ts": b64(h.timestamp),
                            "ups": ups_json(&h.upgrade_state),
                            "sink": label(&accts, &r.fee_sink.0), "pool": label(&accts, &r.rewards_pool.0),
                            "level": b64(r.rewards_level), "residue": b64(r.rewards_residue),
                            "recalc": b64(r.rewards_recalculation_round.0), "rate": b64(r.rewards_rate),
                            "asked": asked, "txs": blk.payset.0.len(), "root": h.tx_root == Payset::default().commit_genesis(),
                            "counter": h.tx_counter});
                        self.chain.prev = h;
                        res
                    }
                }
            }
            "assemble" => self.chain.step(op),
            "write" => {
                self.written = encoded(&op["g"]);
                std::fs::write(&file, &self.written).unwrap();
                json!(true)
            }
            "spoil" => {
                let whole = encoded(&json!({"schema": "v1", "network": "n", "comment": "", "proto": "V20", "allocs": 1,
                                           "rp": "pool", "sink": "sink", "ts": 0, "dev": false}));
                let n = whole.len();
                let junk: Vec<u8> = match u(&op["k"]) {
                    0 => vec![],
                    1 => b"{\"schema_id\": \"v1\"}".to_vec(),
                    2 => whole[..n - 1].to_vec(),
                    3 => whole[..n / 2].to_vec(),
                    4 => vec![0xc1; 40],
                    5 => vec![0x80],
                    6 => vec![0xdf, 0xff, 0xff, 0xff, 0xff],
                    _ => whole[1..].to_vec(),
                };
                std::fs::write(&file, junk).unwrap();
                json!(true)
            }
            "remove" => {
                let _ = std::fs::remove_file(&file);
                json!(true)
            }
            "load" => match hk::load(file.to_str().unwrap()) {
                Err(_) => json!({"ok": false}),
                Ok((enc, id, hash)) => {
                    if !self.seen.contains(&hash.0) {
                        self.seen.push(hash.0);
                    }
                    let i = self.seen.iter().position(|x| *x == hash.0).unwrap() + 1;
                    json!({"ok": true, "same": enc == self.written, "id": id, "hash": i})
                }
            },
            x => panic!("script: unknown operation {}", x),
        }
    }
}
