//! JSON helpers shared by the suites.
use serde_json::{json, Value};

/// u64/u128 -> base-10^4 little-endian digits (the `Big` module of the specification).
pub fn big(mut n: u128) -> Value {
    let mut v = Vec::new();
    while n > 0 {
        v.push(json!((n % 10000) as u64));
        n /= 10000;
    }
    Value::Array(v)
}

pub fn b64(n: u64) -> Value {
    big(n as u128)
}

/// Accepts a plain number or base-10^4 digits.
pub fn u(v: &Value) -> u64 {
    match v {
        Value::Number(n) => n.as_u64().expect("natural number"),
        Value::Array(a) => {
            let mut r: u128 = 0;
            for d in a.iter().rev() {
                r = r * 10000 + d.as_u64().unwrap() as u128;
            }
            assert!(r <= u64::MAX as u128, "script: number out of range");
            r as u64
        }
        _ => panic!("script: number expected, got {}", v),
    }
}

pub fn s<'a>(v: &'a Value) -> &'a str {
    v.as_str().unwrap_or_else(|| panic!("script: string expected, got {}", v))
}

pub fn b(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("script: boolean expected, got {}", v))
}

pub fn arr<'a>(v: &'a Value) -> &'a Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("script: array expected, got {}", v))
}

/// Runs code of the repository under test, turning a panic into `Err`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        }
    })
}

/// "ok" / "err" / "panic" of a fallible operation.
pub fn verdict<T, E>(r: Result<Result<T, E>, String>) -> &'static str {
    match r {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    }
}

/// Deterministic 32 bytes for a small label.
///
/// Where twins are asked for, the values of short labels differ in one byte only.
pub fn bytes32(label: &str) -> [u8; 32] {
    use sha2::{Digest, Sha512Trunc256};
    if label == "zero" || label.is_empty() {
        return [0; 32];
    }
    // "@i:v,j:v": zeroes but for byte i, which is v, and byte j
    if let Some(l) = label.strip_prefix('@') {
        let mut b = [0; 32];
        for x in l.split(',') {
            let (i, v) = x.split_once(':').unwrap();
            b[i.parse::<usize>().unwrap()] = v.parse().unwrap();
        }
        return b;
    }
    if let Some(at) = twin() {
        let mark = match label {
            "sink" => Some(1),
            "pool" => Some(2),
            "cert" => Some(3),
            l if l.len() == 1 => Some(l.as_bytes()[0]),
            _ => None,
        };
        if let Some(m) = mark {
            // from 100 on the rest of them is zero
            let mut o = if at < 100 { bytes32("twin/") } else { [0; 32] };
            o[at % 100] = m;
            return o;
        }
    }
    let d = Sha512Trunc256::digest(format!("verif/{}", label).as_bytes());
    let mut o = [0; 32];
    o.copy_from_slice(&d);
    o
}

/// Deterministic ed25519 key pair for a small label.
pub fn keypair(label: &str) -> ed25519_dalek::Keypair {
    let secret = ed25519_dalek::SecretKey::from_bytes(&bytes32(&format!("key/{}", label))).unwrap();
    let public = (&secret).into();
    ed25519_dalek::Keypair { secret, public }
}

/// Consensus parameters: those of a built-in version ("base") with some fields replaced.
/// Numbers may be given as digits of the `Big` module ({"big": [..]}).
pub fn params(v: &Value) -> algorsand::config::ConsensusParams {
    use algorsand::config::CONSENSUS;
    let base: algorsand::protocol::ConsensusVersion =
        serde_json::from_value(v.get("base").cloned().unwrap_or(json!("V30"))).expect("script: version");
    let mut p = serde_json::to_value(&CONSENSUS.0[&base]).unwrap();
    for (k, x) in v.as_object().unwrap() {
        if k != "base" {
            assert!(p.get(k).is_some(), "script: no parameter {}", k);
            p[k] = match x {
                Value::Array(_) => json!(u(x)),
                _ => x.clone(),
            };
        }
    }
    serde_json::from_value(p).expect("script: parameters")
}

thread_local! {
    static TWIN: std::cell::Cell<Option<usize>> = std::cell::Cell::new(std::env::var("VERIF_TWIN").ok().and_then(|x| x.parse().ok()));
}

/// The byte in which the values of short labels differ, if they do in one only.
pub fn twin() -> Option<usize> {
    TWIN.with(|t| t.get())
}

/// Takes up the choice of an `init` operation.
pub fn choose_twin(op: &Value) {
    if op["a"] == "init" {
        TWIN.with(|t| t.set(op["twin"].as_u64().map(|x| x as usize)));
    }
}

pub fn addr(label: &str) -> algorsand::data::basics::Address {
    algorsand::data::basics::Address(bytes32(label))
}
