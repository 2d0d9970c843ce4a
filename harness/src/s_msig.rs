//! Multisignatures and batches of signatures (C15, C16).
use crate::util::*;
use crate::Suite;
use algorsand::crypto::batch_verifier::BatchVerifier;
use algorsand::crypto::multisig::verif_hooks as hk;
use algorsand::crypto::multisig::{MultisigAddr, MultisigError, MultisigSignature, MultisigSubsig};
use ed25519::Signature;
use ed25519_dalek::{PublicKey, Signer};
use serde_json::{json, Value};
use std::collections::HashMap;

/// keys and the signatures seen so far, by name
#[derive(Default)]
pub struct Names {
    sigs: HashMap<Vec<u8>, Value>,
    keys: HashMap<[u8; 32], String>,
}

impl Names {
    fn key(&mut self, v: &Value) -> PublicKey {
        let k = keypair(s(v)).public;
        self.keys.insert(k.to_bytes(), s(v).to_owned());
        k
    }

    fn keys(&mut self, v: &Value) -> Vec<PublicKey> {
        arr(v).iter().map(|k| self.key(k)).collect()
    }

    /// the signature a term stands for
    fn sig(&mut self, v: &Value) -> Option<Signature> {
        if s(&v["k"]) == "none" {
            return None;
        }
        let mut raw = keypair(s(&v["k"])).sign(s(&v["m"]).as_bytes()).to_bytes();
        if let Some(n) = v.get("bad") {
            let n = u(n) as usize;
            raw[n / 8] ^= 1 << (n % 8);
        }
        self.sigs.insert(raw.to_vec(), v.clone());
        Some(Signature::from_bytes(&raw).expect("script: not a signature"))
    }

    fn ms(&mut self, v: &Value) -> MultisigSignature {
        MultisigSignature {
            version: u(&v["v"]) as u8,
            threshold: u(&v["t"]) as u8,
            subsigs: arr(&v["subs"]).iter().map(|x| MultisigSubsig { key: self.key(&x["key"]), sig: self.sig(&x["sig"]) }).collect(),
        }
    }

    fn show(&self, m: &MultisigSignature) -> Value {
        let subs: Vec<Value> = m
            .subsigs
            .iter()
            .map(|x| {
                json!({"key": self.keys.get(&x.key.to_bytes()).cloned().unwrap_or("?".to_owned()),
                "sig": match &x.sig {
                    None => json!({"k": "none"}),
                    Some(y) => self.sigs.get(&y.to_bytes().to_vec()).cloned().unwrap_or(json!({"k": "?"})),
                }})
            })
            .collect();
        json!({"v": m.version, "t": m.threshold, "subs": subs})
    }

    /// the address a term stands for, computed from the definition
    fn addr(&mut self, v: &Value) -> MultisigAddr {
        use sha2::{Digest, Sha512Trunc256};
        let mut h = Sha512Trunc256::new();
        h.update(b"MultisigAddr");
        h.update(&[u(&v["v"]) as u8, u(&v["t"]) as u8]);
        for k in self.keys(&v["keys"]) {
            h.update(k.as_bytes());
        }
        let mut raw = [0; 32];
        raw.copy_from_slice(&h.finalize());
        if let Some(i) = v.get("flip") {
            raw[u(i) as usize / 8] ^= 1 << (u(i) % 8);
        }
        hk::from_bytes(raw)
    }
}

#[derive(Default)]
pub struct Multisig {
    names: Names,
    cur: MultisigSignature,
}

impl Multisig {
    fn done(&mut self, r: Result<Result<MultisigSignature, MultisigError>, String>) -> Value {
        match r {
            Ok(Ok(m)) => {
                let v = json!({"ok": true, "ms": self.names.show(&m)});
                self.cur = m;
                v
            }
            Ok(Err(_)) => json!({"ok": false}),
            Err(_) => json!("panic"),
        }
    }

    fn list(&mut self, op: &Value) -> Vec<MultisigSignature> {
        arr(&op["with"]).iter().map(|x| self.names.ms(x)).collect()
    }
}

impl Suite for Multisig {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.cur = MultisigSignature::default();
                json!("ready")
            }
            "set" => {
                let m = self.names.ms(&op["ms"]);
                self.done(Ok(Ok(m)))
            }
            "addr" => {
                let want = self.names.addr(op);
                let ks = self.names.keys(&op["keys"]);
                let subs: Vec<MultisigSubsig> = ks.iter().map(|k| MultisigSubsig { key: *k, sig: None }).collect();
                let (v, t) = (u(&op["v"]) as u8, u(&op["t"]) as u8);
                let r = guard(|| (hk::from_pks(v, t, &ks), hk::from_subsigs(v, t, &subs)));
                match r {
                    Ok((Ok(x), Ok(y))) => json!({"ok": true, "right": x == want && y == want}),
                    Ok((Err(_), Err(_))) => json!({"ok": false}),
                    Ok(_) => json!("they differ"),
                    Err(_) => json!("panic"),
                }
            }
            "sign" => {
                let kp = keypair(s(&op["key"]));
                self.names.sig(&json!({"k": op["key"], "m": op["m"]}));
                self.names.key(&op["key"]);
                let ks = self.names.keys(&op["keys"]);
                let addr = self.names.addr(&op["addr"]);
                let r = guard(|| hk::sign(&addr, s(&op["m"]).as_bytes(), u(&op["v"]) as u8, u(&op["t"]) as u8, &ks, &kp));
                self.done(r)
            }
            "assemble" => {
                let mut q = self.list(op);
                let at = u(&op["self"]) as usize;
                if at > 0 {
                    q.insert(at - 1, self.cur.clone());
                }
                let r = guard(|| hk::assemble(&q));
                self.done(r)
            }
            "add" => {
                let q = self.list(op);
                let mut m = std::mem::take(&mut self.cur);
                let r = guard(|| hk::add_sigs(&mut m, q));
                self.done(r.map(|x| x.map(|_| m)))
            }
            "merge" => {
                let other = self.names.ms(&op["ms"]);
                let r = guard(|| if b(&op["first"]) { hk::merge(&self.cur, &other) } else { hk::merge(&other, &self.cur) });
                self.done(r)
            }
            "verify" => {
                let addr = self.names.addr(&op["addr"]);
                match guard(|| self.cur.verify(s(&op["m"]).as_bytes(), &addr)) {
                    Ok(r) => json!({"ok": r == Ok(true)}),
                    Err(_) => json!("panic"),
                }
            }
            x => panic!("script: no operation {}", x),
        }
    }
}

#[derive(Default)]
pub struct Batch {
    names: Names,
    cur: BatchVerifier,
}

impl Suite for Batch {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.cur = BatchVerifier::default();
                json!("ready")
            }
            "new" => {
                self.cur = BatchVerifier::with_capacity(u(&op["cap"]) as usize);
                json!({"n": self.cur.num_sigs_enqued()})
            }
            "queue" | "many" => {
                let e = &op["e"];
                let n = if s(&op["a"]) == "many" { u(&op["n"]) } else { 1 };
                for _ in 0..n {
                    let (k, g) = (self.names.key(&e["key"]), self.names.sig(&e["sig"]).expect("script: no signature"));
                    self.cur.enque_sig(k, s(&e["m"]).as_bytes(), g);
                }
                json!({"n": self.cur.num_sigs_enqued()})
            }
            "msig" => {
                let m = self.names.ms(&op["ms"]);
                let addr = self.names.addr(&op["addr"]);
                let cur = &mut self.cur;
                let r = guard(|| hk::batch_verify(&m, s(&op["m"]).as_bytes(), &addr, cur));
                json!({"ok": match r { Ok(x) => json!(x == Ok(true)), Err(_) => json!("panic") }, "n": self.cur.num_sigs_enqued()})
            }
            "verify" => match guard(|| self.cur.verify()) {
                Ok(r) => json!({"ok": r.is_ok(), "n": self.cur.num_sigs_enqued()}),
                Err(_) => json!("panic"),
            },
            x => panic!("script: no operation {}", x),
        }
    }
}
