//! State deltas, key-value stores and schemas (C24).
use crate::util::*;
use crate::Suite;
use algorsand::data::basics::teal::verif_hooks as h;
use algorsand::data::basics::*;
use serde_json::{json, Value};

#[derive(Default)]
pub struct Teal {
    total: StateSchema,
}

/// {"id", "n", "w"}: n characters of w bytes each, different for every id
fn key(v: &Value) -> String {
    let base = match u(&v["w"]) {
        1 => 0x61,
        2 => 0xe0,
        3 => 0x4e00,
        4 => 0x1f600,
        _ => panic!("script: width"),
    };
    let c = char::from_u32(base + u(&v["id"]) as u32).unwrap();
    std::iter::repeat(c).take(u(&v["n"]) as usize).collect()
}

fn bytes(n: &Value) -> Vec<u8> {
    (0..u(n)).map(|i| (i % 251) as u8).collect()
}

fn schema(v: &Value) -> StateSchema {
    StateSchema { num_uint: u(&v["uint"]), num_byte_slice: u(&v["bytes"]) }
}

fn schema_json(x: &StateSchema) -> Value {
    json!({"uint": b64(x.num_uint), "bytes": b64(x.num_byte_slice)})
}

fn delta(v: &Value) -> ValueDelta {
    ValueDelta {
        action: match s(&v["action"]) {
            "bytes" => DeltaAction::SetBytes,
            "uint" => DeltaAction::SetUint,
            "delete" => DeltaAction::Delete,
            x => panic!("script: no action {}", x),
        },
        bytes: bytes(&v["len"]),
        uint: u(&v["uint"]),
    }
}

fn value(v: &Value) -> TealValue {
    match s(&v["type"]) {
        "bytes" => TealValue::new_bytes(bytes(&v["len"])),
        "uint" => TealValue::new_uint(u(&v["uint"])),
        x => panic!("script: no type {}", x),
    }
}

fn value_json(x: &TealValue) -> Value {
    let type_ = match x.teal_type {
        TealType::Bytes => "bytes",
        TealType::Uint => "uint",
    };
    let good = x.bytes == bytes(&json!(x.bytes.len()));
    json!({"type": type_, "len": x.bytes.len(), "uint": b64(x.uint), "good": good})
}

fn delta_json(x: &ValueDelta) -> Value {
    let action = match x.action {
        DeltaAction::SetBytes => "bytes",
        DeltaAction::SetUint => "uint",
        DeltaAction::Delete => "delete",
    };
    let good = x.bytes == bytes(&json!(x.bytes.len()));
    json!({"action": action, "len": x.bytes.len(), "uint": b64(x.uint), "good": good})
}

impl Suite for Teal {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.total = schema(&op["total"]);
                json!("ready")
            }
            "valid" => {
                let p = params(&json!({"max_app_key_len": op["maxKey"], "max_app_bytes_value_len": op["maxVal"],
                                       "max_app_sum_key_value_lens": op["maxSum"]}));
                let mut m = serde_json::Map::new();
                for e in arr(&op["delta"]) {
                    let k = key(&e["key"]);
                    assert!(!m.contains_key(&k), "script: key twice");
                    m.insert(k, serde_json::to_value(&delta(&e["val"])).unwrap());
                }
                let sd: StateDelta = serde_json::from_value(Value::Object(m)).unwrap();
                json!({"valid": sd.is_valid(p)})
            }
            "todelta" => {
                let v = value(&op["val"]);
                let d = v.to_value_delta();
                let back = h::to_teal_value(&d);
                json!({"delta": delta_json(&d), "back": back.map(|x| vec![value_json(&x)]).unwrap_or_default()})
            }
            "toval" => {
                let d = delta(&op["val"]);
                json!({"val": h::to_teal_value(&d).map(|x| vec![value_json(&x)]).unwrap_or_default()})
            }
            "schema" => {
                let mut m = serde_json::Map::new();
                for e in arr(&op["kv"]) {
                    let k = key(&e["key"]);
                    assert!(!m.contains_key(&k), "script: key twice");
                    m.insert(k, serde_json::to_value(&value(&e["val"])).unwrap());
                }
                let kv: TealKeyValue = serde_json::from_value(Value::Object(m)).unwrap();
                let sc = kv.to_state_schema();
                self.total = if b(&op["add"]) { self.total.add_schema(sc) } else { self.total };
                json!({"schema": schema_json(&sc), "total": schema_json(&self.total)})
            }
            "add" | "sub" => {
                let o = schema(&op["schema"]);
                self.total = if s(&op["a"]) == "add" { self.total.add_schema(o) } else { self.total.sub_schema(o) };
                json!({"total": schema_json(&self.total), "entries": b64(self.total.num_entries())})
            }
            x => panic!("script: no operation {}", x),
        }
    }
}
