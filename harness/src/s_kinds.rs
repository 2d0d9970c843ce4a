//! What is hashed and signed (C28), arithmetic on rounds (C29).
use crate::txs::*;
use crate::util::*;
use crate::Suite;
use algorsand::crypto::*;
use algorsand::data::basics::{self, units::verif_hooks as hr, user_balance::verif_hooks as hb, AppIndex, MicroAlgos, Round};
use algorsand::data::bookkeeping::genesis::verif_hooks as hg;
use algorsand::data::bookkeeping::tx_merkle::TxMerkleElem;
use algorsand::data::bookkeeping::BlockHeader;
use algorsand::data::committee::credential::verif_hooks as hc;
use algorsand::data::committee::Seed;
use algorsand::data::transactions::compactcert::{verif_hooks as hcc, COMPACT_CERT_SENDER};
use algorsand::data::transactions::transaction::verif_hooks as ht;
use algorsand::data::transactions::Payset;
use algorsand::protocol::HashID;
use serde_json::{json, Value};
use sha2::{Digest, Sha512Trunc256};
use std::collections::HashMap;

struct Any(Box<dyn Hashable>);

impl Hashable for Any {
    fn to_be_hashed(&self) -> (HashID, Vec<u8>) {
        self.0.to_be_hashed()
    }
    fn hash_rep(&self) -> Vec<u8> {
        self.0.hash_rep()
    }
}

fn label(l: &str, n: u64) -> [u8; 32] {
    bytes32(&format!("{}/{}", l, n))
}

fn ckh(l: &str, n: u64) -> CryptoHash {
    CryptoHash(label(l, n))
}

fn object(o: &Value) -> Any {
    let n = u(&o["n"]);
    Any(match s(&o["kind"]) {
        "message" => Box::new(format!("m{}", n)),
        "tx" => Box::new(full_tx("pay", n)),
        "group" => Box::new(ht::group(vec![ckh("a", n), ckh("b", n)])),
        "stib" => Box::new(full_stib("pay", n)),
        "header" => {
            let mut h = BlockHeader::default();
            h.round = Round(n);
            Box::new(h)
        }
        "balance" => Box::new(hb::hashed_record(
            addr("A"),
            basics::AccountData { micro_algos: MicroAlgos(n), ..Default::default() },
        )),
        "genesis" => Box::new(hg::read(&hg::encode_genesis(
            "v1",
            format!("net{}", n),
            Default::default(),
            vec![],
            &addr("pool").to_string(),
            &addr("sink").to_string(),
            n,
            "",
            false,
        ))),
        "ticket" => Box::new(hc::ticket(VrfOutput([7; 64]), addr("A"), n)),
        "batch" => Box::new(OTSSubkeyBatchID { sub_key_pk: keypair("sub").public, batch: n }),
        "offset" => Box::new(OTSSubkeyOffsetID { sub_key_pk: keypair("sub").public, batch: 3, offset: n }),
        "payset" => Box::new(Payset(vec![full_stib("pay", n)])),
        "leaf" => Box::new(TxMerkleElem { tx: full_tx("pay", n), stib: full_stib("pay", n) }),
        "node" => Box::new(Pair { l: ckh("l", n), r: ckh("r", n) }),
        "seed" => Box::new(Seed(label("seed", n))),
        "app" => Box::new(AppIndex(n)),
        "special" => Box::new(hcc::special(if n == 99 { "CompactCertSender".to_owned() } else { format!("m{}", n) })),
        x => panic!("script: no kind {}", x),
    })
}

/// the object of a free kind that holds these bytes, as far as it can
fn holding(kind: &str, data: &[u8]) -> Any {
    let text = || unsafe { String::from_utf8_unchecked(data.to_vec()) };
    let fixed = |from: usize| {
        let mut x = [0; 32];
        for (i, b) in data.iter().skip(from).take(32).enumerate() {
            x[i] = *b;
        }
        x
    };
    Any(match kind {
        "message" => Box::new(text()),
        "special" => Box::new(hcc::special(text())),
        "seed" => Box::new(Seed(fixed(0))),
        "node" => Box::new(Pair { l: CryptoHash(fixed(0)), r: CryptoHash(fixed(32)) }),
        "app" => {
            let mut x = [0; 8];
            x.copy_from_slice(&fixed(0)[..8]);
            Box::new(AppIndex(u64::from_be_bytes(x)))
        }
        x => panic!("script: kind {} is not free", x),
    })
}

enum Made {
    Ots(OTS, OTSSecrets),
    Vrf(VrfProof, VrfKeypair),
    Tx(Signature, ed25519_dalek::PublicKey),
}

#[derive(Default)]
pub struct Kinds {
    first: HashMap<[u8; 32], Value>,
    made: Vec<Made>,
}

const AT: OTSIdentifier = OTSIdentifier { batch: 0, offset: 0 };

impl Suite for Kinds {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.made.clear();
                json!("ready")
            }
            "rep" => {
                let x = object(&op["o"]);
                let (id, data) = x.to_be_hashed();
                let h = hash_obj(&x).0;
                let plain = Sha512Trunc256::digest(&[id.as_bytes(), &data[..]].concat());
                let mark: Vec<String> = id.chars().map(|c| c.to_string()).collect();
                let first = self.first.entry(h).or_insert(op["o"].clone()).clone();
                json!({"mark": mark, "hash": plain[..] == h[..], "first": first})
            }
            "address" => {
                let a = match s(&op["o"]["kind"]) {
                    "app" => hb::app_address(AppIndex(u(&op["o"]["n"]))),
                    "special" => *COMPACT_CERT_SENDER,
                    x => panic!("script: no address of {}", x),
                };
                let first = self.first.entry(a.0).or_insert(op["o"].clone()).clone();
                json!({"first": first, "same": a.0 == hash_obj(&object(&op["o"])).0})
            }
            "forge" => {
                let x = object(&op["o"]);
                let skip = holding(s(&op["free"]), &[0; 64]).to_be_hashed().0.len();
                let rep = x.hash_rep();
                let y = holding(s(&op["free"]), &rep[skip.min(rep.len())..]);
                json!({"same": y.hash_rep() == rep || hash_obj(&y) == hash_obj(&x)})
            }
            "sign" => {
                let x = object(&op["o"]);
                self.made.push(match s(&op["by"]) {
                    "ots" => {
                        let k = OTSSecrets::generate(0, 1);
                        Made::Ots(k.sign(&AT, &x), k)
                    }
                    "vrf" => {
                        let k = VrfKeypair::from_seed(bytes32("vrf"));
                        Made::Vrf(k.prove(&x).unwrap(), k)
                    }
                    "tx" => {
                        let k = keypair("k");
                        Made::Tx(full_tx("pay", u(&op["o"]["n"])).sign(&k).sig, k.public)
                    }
                    x => panic!("script: no signer {}", x),
                });
                json!(true)
            }
            "check" => {
                let x = object(&op["o"]);
                json!(match &self.made[u(&op["i"]) as usize - 1] {
                    Made::Ots(sig, k) => sig.verify(&AT, &x, &k.verifier),
                    Made::Vrf(p, k) => k.public().verify(p, &x).is_ok(),
                    Made::Tx(sig, pk) => {
                        use ed25519_dalek::Verifier;
                        pk.verify(&x.hash_rep(), sig).is_ok()
                    }
                })
            }
            x => panic!("script: no operation {}", x),
        }
    }
}

#[derive(Default)]
pub struct Rounds;

impl Suite for Rounds {
    fn step(&mut self, op: &Value) -> Value {
        let (x, y) = match op.get("x") {
            Some(x) => (u(x), u(&op["y"])),
            None => (0, 0),
        };
        match s(&op["a"]) {
            "init" => json!("ready"),
            "monus" => b64(hr::sub_capped(Round(x), Round(y)).0),
            "up" => b64(hr::round_up_to_multiple_of(Round(x), Round(y)).0),
            "plus" => json!({"round": b64((Round(x) + Round(y)).0), "amount": b64((MicroAlgos(x) + MicroAlgos(y)).0)}),
            "key" => {
                let id = Round(x).ots_id(y);
                json!({"batch": b64(id.batch), "offset": b64(id.offset)})
            }
            "trim" => {
                let mut q = [0; 32];
                for (i, v) in arr(&op["bytes"]).iter().enumerate() {
                    q[i] = u(v) as u8;
                }
                let h = CryptoHash(q);
                json!({"n": b64(h.trim_to_u64()), "zero": h.is_zero()})
            }
            "order" => json!({"lt": Round(x) < Round(y) && MicroAlgos(x) < MicroAlgos(y),
                              "eq": Round(x) == Round(y) && MicroAlgos(x) == MicroAlgos(y),
                              "zero": MicroAlgos(x).is_zero()}),
            x => panic!("script: no operation {}", x),
        }
    }
}
