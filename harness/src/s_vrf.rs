//! Verifiable random outputs (C26).
use crate::util::*;
use crate::Suite;
use algorsand::crypto::vrf::verif_hooks as hk;
use algorsand::crypto::{hash_obj, Hashable, VrfKeypair, VrfProof, VrfPublicKey};
use algorsand::protocol::HashID;
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT, EIGHT_TORSION};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use serde_json::{json, Value};
use sha2::{Digest, Sha512};

struct Obj(&'static str, Vec<u8>);

impl Hashable for Obj {
    fn to_be_hashed(&self) -> (HashID, Vec<u8>) {
        (self.0, self.1.clone())
    }
}

fn seed(key: &Value) -> [u8; 32] {
    match s(key) {
        "zero" => [0; 32],
        "ff" => [0xff; 32],
        // differs from the key of the rest of the name in one bit
        k if k.starts_with('~') => {
            let mut x = bytes32(&k[1..]);
            x[31] ^= 0x80;
            x
        }
        k => bytes32(k),
    }
}

fn bytes(v: &Value) -> Vec<u8> {
    arr(v).iter().map(|x| u(x) as u8).collect()
}

fn object(m: &Value) -> Obj {
    Obj(Box::leak(s(&m["p"]).to_owned().into_boxed_str()), bytes(&m["d"]))
}

/// the bytes a message is proved as
fn raw(m: &Value) -> Vec<u8> {
    match s(&m["t"]) {
        "raw" => bytes(&m["d"]),
        _ => hash_obj(&object(m)).0.to_vec(),
    }
}

fn prove(kp: &VrfKeypair, m: &Value) -> VrfProof {
    match s(&m["t"]) {
        "obj" => kp.prove(&object(m)).unwrap(),
        _ => kp.prove_bytes(&raw(m)).unwrap(),
    }
}

fn challenge(points: &[EdwardsPoint]) -> Scalar {
    let mut h = Sha512::new();
    h.update([4, 2]);
    for p in points {
        h.update(p.compress().as_bytes());
    }
    let d = h.finalize();
    let mut c = [0; 32];
    c[..16].copy_from_slice(&d[..16]);
    Scalar::from_canonical_bytes(c).unwrap()
}

/// A proof made with another nonce, and with a point of small order added to its first part.
/// x: the secret scalar (None: zero)
fn remade(pk: &VrfPublicKey, x: Scalar, msg: &[u8], torsion: usize, divisor: u8) -> VrfProof {
    let h = CompressedEdwardsY(hk::hash_point(pk, msg)).decompress().unwrap();
    let gamma = x * h + EIGHT_TORSION[torsion % 8];
    for i in 0u64.. {
        let k = Scalar::from_bytes_mod_order_wide(&{
            let mut w = [0; 64];
            w[..8].copy_from_slice(&(i * 7919 + 12345).to_le_bytes());
            w[20] = 77;
            w
        });
        let c = challenge(&[h, gamma, k * ED25519_BASEPOINT_POINT, k * h]);
        if c.as_bytes()[0] % divisor == 0 {
            let s = k + c * x;
            let mut p = [0; 80];
            p[..32].copy_from_slice(gamma.compress().as_bytes());
            p[32..48].copy_from_slice(&c.as_bytes()[..16]);
            p[48..].copy_from_slice(s.as_bytes());
            return hk::proof(p);
        }
    }
    unreachable!()
}

fn secret(seed: &[u8; 32]) -> Scalar {
    let mut x = [0; 32];
    x.copy_from_slice(&Sha512::digest(seed)[..32]);
    x[0] &= 248;
    x[31] &= 127;
    x[31] |= 64;
    Scalar::from_bits(x)
}

const ORDER: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0x10,
];

fn add_order(x: &mut [u8]) {
    let mut carry = 0u16;
    for (a, o) in x.iter_mut().zip(ORDER) {
        carry += *a as u16 + o as u16;
        *a = carry as u8;
        carry >>= 8;
    }
}

fn proof(p: &Value) -> VrfProof {
    let kp = VrfKeypair::from_seed(seed(&p["key"]));
    let alt = &p["alt"];
    let mut r = [0; 80];
    r.copy_from_slice(prove(&kp, &p["msg"]).as_ref());
    match s(&alt["k"]) {
        "none" => {}
        "byte" => r[u(&alt["i"]) as usize - 1] ^= u(&alt["m"]) as u8,
        "order" => add_order(&mut r[48..]),
        "zero" => r = [0; 80],
        "ff" => r = [0xff; 80],
        "zeros" => r[48..].copy_from_slice(&[0; 32]),
        "zeroc" => r[32..48].copy_from_slice(&[0; 16]),
        "identity" => r[..32].copy_from_slice(EdwardsPoint::identity().compress().as_bytes()),
        "torsion" => {
            let g = CompressedEdwardsY::from_slice(&r[..32]).decompress().unwrap() + EIGHT_TORSION[u(&alt["i"]) as usize];
            r[..32].copy_from_slice(g.compress().as_bytes());
        }
        "negate" => {
            let g = -CompressedEdwardsY::from_slice(&r[..32]).decompress().unwrap();
            r[..32].copy_from_slice(g.compress().as_bytes());
        }
        // the part from a proof of another message
        "gammaof" => r[..32].copy_from_slice(&prove(&kp, &alt["msg"]).as_ref()[..32]),
        "csof" => r[32..].copy_from_slice(&prove(&kp, &alt["msg"]).as_ref()[32..]),
        "sof" => r[48..].copy_from_slice(&prove(&kp, &alt["msg"]).as_ref()[48..]),
        // what only the owner of the key can make
        "nonce" => return remade(&kp.public(), secret(&seed(&p["key"])), &raw(&p["msg"]), 0, 1),
        "twist" => return remade(&kp.public(), secret(&seed(&p["key"])), &raw(&p["msg"]), u(&alt["i"]) as usize, 8),
        // for a key of small order anyone can (for the message and key it is checked with)
        "forged" => return remade(&public(&alt["pk"]), Scalar::from(0u64), &raw(&p["msg"]), u(&alt["i"]) as usize, 8),
        x => panic!("script: alteration {}", x),
    }
    hk::proof(r)
}

/// all encodings of points of small order, the uncommon ones included
fn small(i: usize) -> [u8; 32] {
    let mut all: Vec<[u8; 32]> = EIGHT_TORSION.iter().map(|p| p.compress().to_bytes()).collect();
    for low in [0xed, 0xee] {
        let mut y = [0xff; 32];
        y[0] = low;
        y[31] = 0x7f;
        all.push(y);
    }
    for i in 0..all.len() {
        let mut y = all[i];
        y[31] ^= 0x80;
        if !all.contains(&y) {
            all.push(y);
        }
    }
    all[i % all.len()]
}

fn public(p: &Value) -> VrfPublicKey {
    let alt = &p["alt"];
    let mut r = [0; 32];
    let kp = VrfKeypair::from_seed(seed(&p["key"]));
    let raw = serde_json::to_value(kp.public()).unwrap();
    for (x, y) in r.iter_mut().zip(arr(&raw)) {
        *x = y.as_u64().unwrap() as u8;
    }
    match s(&alt["k"]) {
        "none" => return kp.public(),
        "byte" => r[u(&alt["i"]) as usize - 1] ^= u(&alt["m"]) as u8,
        "small" => r = small(u(&alt["i"]) as usize),
        "nopoint" => {
            // the next ones that are no points
            for _ in 0..=u(&alt["i"]) {
                loop {
                    r[0] = r[0].wrapping_add(1);
                    if CompressedEdwardsY(r).decompress().is_none() {
                        break;
                    }
                }
            }
        }
        "ff" => r = [0xff; 32],
        x => panic!("script: alteration {}", x),
    }
    hk::public_key(r)
}

#[derive(Default)]
pub struct Vrf {
    seen: Vec<[u8; 64]>,
}

impl Suite for Vrf {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.seen.clear();
                json!("ready")
            }
            "prove" => {
                let kp = VrfKeypair::from_seed(seed(&op["key"]));
                let again = VrfKeypair::from_seed(seed(&op["key"]));
                let x = prove(&kp, &op["msg"]);
                json!({"same": x == prove(&kp, &op["msg"]) && x == prove(&again, &op["msg"]) && kp.public() == again.public()})
            }
            "verify" => {
                let pk = public(&op["pk"]);
                let p = proof(&op["proof"]);
                let check = || match s(&op["msg"]["t"]) {
                    "obj" => pk.verify(&p, &object(&op["msg"])),
                    _ => pk.verify_bytes(&p, &raw(&op["msg"])),
                };
                let (x, y) = (check(), check());
                match (x, y) {
                    (Ok(x), Ok(y)) => {
                        if !self.seen.contains(&x.0) {
                            self.seen.push(x.0);
                        }
                        let i = self.seen.iter().position(|z| *z == x.0).unwrap() + 1;
                        json!({"ok": true, "out": i, "same": x == y})
                    }
                    (Err(_), Err(_)) => json!({"ok": false}),
                    _ => json!({"ok": "changing"}),
                }
            }
            x => panic!("script: unknown operation {}", x),
        }
    }
}
