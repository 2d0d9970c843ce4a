//! One-time keys (C12).
use crate::util::*;
use crate::Suite;
use algorsand::crypto::ots::{OTSSubkeyBatchID, OTSSubkeyOffsetID};
use algorsand::crypto::{Hashable, OTSIdentifier, OTSSecrets, OTS};
use algorsand::protocol;
use ed25519_dalek::{PublicKey, SecretKey, Signature, Signer};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

#[derive(Default)]
pub struct Ots {
    slots: HashMap<String, OTSSecrets>,
    other: Option<PublicKey>,
}

pub fn id(v: &Value) -> OTSIdentifier {
    OTSIdentifier { batch: u(&v["b"]), offset: u(&v["o"]) }
}

/// all secret keys found in the saved form of a key set
pub fn secrets(k: &OTSSecrets) -> HashSet<Vec<u8>> {
    fn walk(v: &Value, out: &mut HashSet<Vec<u8>>) {
        match v {
            Value::Array(a) => {
                if a.len() >= 64 && a.iter().all(|x| x.as_u64().map(|n| n < 256).unwrap_or(false)) {
                    let raw: Vec<u8> = a.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                    // a secret key is followed by its public key
                    for i in 0..=raw.len() - 64 {
                        let public: PublicKey = (&SecretKey::from_bytes(&raw[i..i + 32]).unwrap()).into();
                        if public.as_bytes() == &raw[i + 32..i + 64] {
                            out.insert(raw[i..i + 32].to_vec());
                        }
                    }
                }
                a.iter().for_each(|x| walk(x, out));
            }
            Value::Object(m) => m.values().for_each(|x| walk(x, out)),
            _ => {}
        }
    }
    let mut out = HashSet::new();
    walk(&serde_json::to_value(&k.snapshot()).unwrap(), &mut out);
    // nothing else in the encoding that is stored
    let enc = protocol::encode(&k.snapshot());
    out.retain(|x| enc.windows(32).any(|w| w == &x[..]));
    out
}

/// whether the keys sign verifiably for an identifier
pub fn signs(k: &OTSSecrets, i: &OTSIdentifier) -> Value {
    let m = "message".to_owned();
    match guard(|| k.sign(i, &m).verify(i, &m, &k.verifier)) {
        Ok(x) => json!(x),
        Err(_) => json!("panic"),
    }
}

fn which(k: &OTSSecrets, ids: &Value) -> Value {
    arr(ids).iter().map(|x| signs(k, &id(x))).collect()
}

fn reload(k: &OTSSecrets) -> OTSSecrets {
    protocol::decode(&protocol::encode(&k.snapshot())).unwrap()
}

impl Suite for Ots {
    fn step(&mut self, op: &Value) -> Value {
        let slot = || s(&op["slot"]).to_owned();
        match s(&op["a"]) {
            "init" => {
                let k = OTSSecrets::generate(u(&op["start"]), u(&op["n"]));
                self.slots.insert("C".to_owned(), reload(&k));
                self.slots.insert("L".to_owned(), k);
                self.other = Some(keypair("other").public);
                json!("ready")
            }
            "gen" => {
                let k = OTSSecrets::generate(u(&op["start"]), u(&op["n"]));
                let n = secrets(&k).len();
                self.slots.insert(slot(), k);
                json!({"secrets": n})
            }
            "cover" => json!({"ok": which(&self.slots[s(&op["slot"])], &op["ids"])}),
            "del" => {
                let k = self.slots.get_mut(s(&op["slot"])).unwrap();
                let before = secrets(k);
                if guard(|| k.delete_before(id(&op["id"]), u(&op["d"]))).is_err() {
                    return json!("panic");
                }
                let after = secrets(k);
                json!({"secrets": after.len(), "kept": before.intersection(&after).count(), "ok": which(k, &op["ids"])})
            }
            "copy" => {
                let k = &self.slots[s(&op["from"])];
                let c = match s(&op["how"]) {
                    "snapshot" => k.snapshot(),
                    _ => reload(k),
                };
                let r = json!({"secrets": secrets(&c).len(), "ok": which(&c, &op["ids"])});
                self.slots.insert(s(&op["to"]).to_owned(), c);
                r
            }
            "check" => {
                let k = &self.slots[s(&op["slot"])];
                let (m1, m2, vm) = (s(&op["m1"]).to_owned(), s(&op["m2"]).to_owned(), s(&op["vm"]).to_owned());
                let r = guard(|| {
                    let mut x = k.sign(&id(&op["id1"]), &m1);
                    let y = k.sign(&id(&op["id2"]), &m2);
                    let second = |p: &str| u(&op["from"][p]) == 2;
                    if second("sig") {
                        x.sig = y.sig;
                    }
                    if second("pk") {
                        x.pk = y.pk;
                    }
                    if second("pk1") {
                        x.pk1_sig = y.pk1_sig;
                    }
                    if second("pk2") {
                        x.pk2 = y.pk2;
                    }
                    if second("pk2s") {
                        x.pk2_sig = y.pk2_sig;
                    }
                    let master = if b(&op["own"]) { k.verifier } else { self.other.unwrap() };
                    x.verify(&id(&op["vid"]), &vm, &master)
                });
                json!({"ok": r.map(|x| json!(x)).unwrap_or(json!("panic"))})
            }
            "chain" => {
                let key = |n: &Value| keypair(&format!("chain/{}", s(n)));
                // a signature by one key of a message, a key of an offset or a key of a batch
                let sign = |v: &Value| {
                    let x = &v["of"];
                    let said = match s(&x["t"]) {
                        "msg" => s(&x["m"]).to_owned().hash_rep(),
                        "off" => {
                            let i = id(&x["id"]);
                            OTSSubkeyOffsetID { sub_key_pk: key(&x["key"]).public, batch: i.batch, offset: i.offset }.hash_rep()
                        }
                        _ => OTSSubkeyBatchID { sub_key_pk: key(&x["key"]).public, batch: u(&x["id"]["b"]) }.hash_rep(),
                    };
                    key(&v["by"]).sign(&said)
                };
                let i = id(&op["vid"]);
                let mut x = self.slots[s(&op["slot"])].sign(&i, &"any".to_owned());
                x.pk = key(&op["pk"]).public;
                x.pk2 = key(&op["pk2"]).public;
                x.sig = sign(&op["sig"]);
                x.pk1_sig = sign(&op["pk1"]);
                x.pk2_sig = sign(&op["pk2s"]);
                let r = guard(|| x.verify(&i, &s(&op["vm"]).to_owned(), &key(&json!("M")).public));
                json!({"ok": r.map(|x| json!(x)).unwrap_or(json!("panic"))})
            }
            "flip" => {
                let k = &self.slots[s(&op["slot"])];
                let (i, m) = (id(&op["id"]), s(&op["m"]).to_owned());
                let n = u(&op["byte"]) as usize;
                let mut ok = json!(false);
                for bit in 0..8 {
                    let mut x: OTS = k.sign(&i, &m);
                    let flip = |x: &Signature| {
                        let mut r = x.to_bytes();
                        r[n] ^= 1 << bit;
                        Signature::from_bytes(&r).ok()
                    };
                    let flip_pk = |x: &PublicKey| {
                        let mut r = x.to_bytes();
                        r[n] ^= 1 << bit;
                        PublicKey::from_bytes(&r).ok()
                    };
                    // parts that cannot even be represented cannot be presented
                    let made = match s(&op["part"]) {
                        "sig" => flip(&x.sig).map(|v| x.sig = v),
                        "pk1" => flip(&x.pk1_sig).map(|v| x.pk1_sig = v),
                        "pk2s" => flip(&x.pk2_sig).map(|v| x.pk2_sig = v),
                        "pk" => flip_pk(&x.pk).map(|v| x.pk = v),
                        "pk2" => flip_pk(&x.pk2).map(|v| x.pk2 = v),
                        p => panic!("script: no part {}", p),
                    };
                    if made.is_some() {
                        match guard(|| x.verify(&i, &m, &k.verifier)) {
                            Ok(false) => {}
                            Ok(true) => ok = json!(true),
                            Err(_) => ok = json!("panic"),
                        }
                    }
                }
                json!({"ok": ok})
            }
            x => panic!("script: no operation {}", x),
        }
    }
}
