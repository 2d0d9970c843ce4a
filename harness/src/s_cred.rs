//! Sortition and committee credentials (C17).
use crate::util::*;
use crate::Suite;
use algorsand::config::ConsensusParams;
use algorsand::crypto::{CryptoHash, Hashable, VrfKeypair, VrfPublicKey};
use algorsand::data::basics::{AccountData, MicroAlgos, Status};
use algorsand::data::committee::credential::verif_hooks as hk;
use algorsand::data::committee::{sortition, BalanceRecord, Selector};
use algorsand::protocol;
use serde_json::{json, Value};

struct Sel {
    name: String,
    size: u64,
}

impl Hashable for Sel {
    fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
        (protocol::AGREEMENT_SELECTOR, self.name.as_bytes().to_vec())
    }
}

impl Selector for Sel {
    fn committee_size(&self, _: &ConsensusParams) -> u64 {
        self.size
    }
}

/// digits of a 256-bit number given as big-endian bytes
fn digits(b: &[u8]) -> Value {
    let mut n: Vec<u32> = b.iter().map(|x| *x as u32).collect();
    let mut out = Vec::new();
    while n.iter().any(|x| *x != 0) {
        let mut r = 0;
        for x in n.iter_mut() {
            let v = r * 256 + *x;
            *x = v / 10000;
            r = v % 10000;
        }
        out.push(json!(r));
    }
    Value::Array(out)
}

/// big-endian bytes of a number given by its digits
fn bytes(v: &Value) -> [u8; 32] {
    let mut out = [0u8; 32];
    for d in arr(v).iter().rev() {
        let mut c = d.as_u64().unwrap() as u32;
        for x in out.iter_mut().rev() {
            let y = *x as u32 * 10000 + c;
            *x = y as u8;
            c = y >> 8;
        }
        assert!(c == 0, "script: more than 256 bits");
    }
    out
}

fn keys(label: &str) -> VrfKeypair {
    VrfKeypair::from_seed(bytes32(&format!("vrf/{}", label)))
}

fn public(label: &str) -> VrfPublicKey {
    if label == "bad" {
        // no point of the curve has this second coordinate
        let mut raw = [0u8; 32];
        raw[0] = 2;
        return serde_json::from_value(json!(raw)).unwrap();
    }
    keys(label).public()
}

#[derive(Default)]
pub struct Cred {
    known: Vec<CryptoHash>,
    creds: Vec<hk::Proven>,
}

fn concat_ticket(h: &CryptoHash, i: u64) -> CryptoHash {
    let mut n = [0u8; 32];
    n[..8].copy_from_slice(&i.to_be_bytes());
    algorsand::crypto::hashable::hash(&[&h.0[..], &n[..]].concat())
}

impl Suite for Cred {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                *self = Self::default();
                json!("ready")
            }
            "select" => {
                let counts: Vec<u64> = arr(&op["ts"])
                    .iter()
                    .map(|t| sortition::select(u(&op["money"]), u(&op["total"]), u(&op["size"]) as f64, &CryptoHash(bytes(t))))
                    .collect();
                json!({ "counts": counts })
            }
            "verify" => {
                let made = Sel { name: s(&op["on"]).to_owned(), size: u(&op["size"]) };
                let claim = hk::new(&keys(s(&op["by"])), &made);
                let asked = Sel { name: s(&op["sel"]).to_owned(), size: u(&op["size"]) };
                let mut p = params(&json!({}));
                p.credential_domain_separation_enabled = b(&op["sep"]);
                let record = BalanceRecord {
                    addr: addr(s(&op["addr"])),
                    data: AccountData {
                        status: match s(&op["status"]) {
                            "Online" => Status::Online,
                            "Offline" => Status::Offline,
                            _ => Status::NotParticipating,
                        },
                        micro_algos: MicroAlgos(u(&op["stake"])),
                        selection_id: public(s(&op["key"])),
                        ..AccountData::default()
                    },
                };
                match hk::verify(claim, &p, record, asked, MicroAlgos(u(&op["total"]))) {
                    Err(_) => json!({"ok": false}),
                    Ok(c) => {
                        let h = c.hash();
                        let at = match self.known.iter().position(|x| *x == h) {
                            Some(i) => i,
                            None => {
                                self.known.push(h.clone());
                                self.known.len() - 1
                            }
                        };
                        let mut r = json!({"ok": true, "w": c.weight(), "h": at + 1});
                        if op.get("show").is_some() {
                            r["t"] = digits(&h.0);
                        }
                        self.creds.push(c);
                        r
                    }
                }
            }
            "tickets" => {
                let c = &self.creds[u(&op["i"]) as usize - 1];
                let tk: Vec<Value> = (1..=c.weight())
                    .map(|i| {
                        // under either rule, the hash the protocol prescribes
                        let h = if b(&op["sep"]) { c.separated_ticket(i).expect("no separation") } else { concat_ticket(&c.hash(), i) };
                        digits(&h.0)
                    })
                    .collect();
                json!(tk)
            }
            "low" => {
                let c = &mut self.creds[u(&op["i"]) as usize - 1];
                let (_, low) = c.lowest_output().to_bytes_be();
                let again = c.lowest_output_digest();
                json!({"low": digits(&low), "digest": digits(&again.0)})
            }
            "lt" => {
                let (i, j) = (u(&op["i"]) as usize - 1, u(&op["j"]) as usize - 1);
                if i == j {
                    // the comparison takes two exclusive references
                    return json!(self.creds[i].lowest_output() < self.creds[i].lowest_output());
                }
                let (x, y) = self.creds.split_at_mut(i.max(j));
                json!(if i < j { x[i].lt(&mut y[0]) } else { y[0].lt(&mut x[j]) })
            }
            "eq" => json!(self.creds[u(&op["i"]) as usize - 1].equals(&self.creds[u(&op["j"]) as usize - 1])),
            "selected" => json!(self.creds[u(&op["i"]) as usize - 1].selected()),
            x => panic!("script: unknown operation {}", x),
        }
    }
}
