//! Configuration files and key file names (C27).
use crate::util::*;
use crate::Suite;
use algorsand::config::{self, verif_hooks as hk, Local};
use algorsand::data::basics::Round;
use serde_json::{json, Map, Value};
use std::path::{Path, PathBuf};

/// the value that number n of a setting stands for
fn value(default: &Value, n: u64) -> Value {
    match default {
        Value::Bool(b) => json!(if n == 1 { !b } else { *b }),
        Value::Number(x) => json!(x.as_i64().unwrap() + n as i64),
        Value::String(_) if n == 1 => json!("é \"quoted\"\\ \n{}"),
        Value::String(_) if n == 3 => json!("a"),
        Value::String(_) => json!(format!("{}:{}", n, n)),
        Value::Object(m) if m.contains_key("secs") => {
            json!({"secs": m["secs"].as_u64().unwrap() + n, "nanos": m["nanos"].as_u64().unwrap() + 999_999_999 % (n * 10)})
        }
        Value::Object(_) => json!({"10.0.0.1:4160": true, "peer\u{0}": false}),
        x => panic!("script: setting {}", x),
    }
}

fn defaults() -> Map<String, Value> {
    serde_json::to_value(Local::default())
        .unwrap()
        .as_object()
        .unwrap()
        .clone()
}

/// settings by number -> the object that holds them
fn partial(set: &Value) -> Value {
    let d = defaults();
    let mut out = Map::new();
    for (k, n) in set.as_object().unwrap() {
        if k != "_" {
            let def = d.get(k).unwrap_or_else(|| panic!("script: setting {}", k));
            out.insert(k.clone(), value(def, u(n)));
        }
    }
    Value::Object(out)
}

fn local(set: &Value) -> Local {
    let mut all = Value::Object(defaults());
    for (k, v) in partial(set).as_object().unwrap() {
        all[k] = v.clone();
    }
    serde_json::from_value(all).unwrap()
}

/// and back
fn numbered(c: &Local) -> Value {
    let got = serde_json::to_value(c).unwrap();
    let mut out = Map::new();
    out.insert("_".to_owned(), json!(0));
    for (k, d) in &defaults() {
        if got[k] != *d {
            let n = (1..4).find(|n| value(d, *n) == got[k]).unwrap_or(99);
            out.insert(k.clone(), json!(n));
        }
    }
    Value::Object(out)
}

fn text(v: &Value) -> String {
    arr(v).iter().map(|c| s(c)).collect()
}

fn chars(t: &str) -> Value {
    Value::Array(t.chars().map(|c| json!(c.to_string())).collect())
}

#[derive(Default)]
pub struct Files {
    dir: String,
    n: usize,
}

impl Files {
    fn at(&self, f: &str) -> PathBuf {
        Path::new(&self.dir).join(f)
    }

    fn home(&self) -> PathBuf {
        std::env::current_dir().unwrap().join(&self.dir).join("home")
    }

    /// the directory a label stands for
    fn root(&self, l: &str) -> PathBuf {
        match l {
            "" => PathBuf::new(),
            "home" => self.home().join(".algorand"),
            _ => PathBuf::from(l),
        }
    }

    fn label(&self, p: &Path) -> Value {
        if p == self.home().join(".algorand") {
            json!("home")
        } else {
            json!(p.to_str().unwrap())
        }
    }
}

impl Suite for Files {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.n += 1;
                self.dir = format!("files-{}-{}", std::process::id(), self.n);
                std::fs::create_dir_all(self.home()).unwrap();
                std::env::set_var("HOME", self.home());
                config::set_global_config_file_root(&Box::new(PathBuf::new()));
                json!("ready")
            }
            "fields" => Value::Array(
                defaults()
                    .iter()
                    .map(|(k, v)| json!({"f": k, "one": v.is_boolean() || v.as_object().map_or(false, |m| !m.contains_key("secs"))}))
                    .collect(),
            ),
            "write" => {
                let mut v = partial(&op["set"]);
                if op.get("extra").map_or(false, b) {
                    v["a_setting_of_long_ago"] = json!({"x": [1, null]});
                }
                std::fs::write(self.at("config.json"), serde_json::to_vec(&v).unwrap()).unwrap();
                json!(true)
            }
            "save" => json!(local(&op["set"]).save_to_disk(&self.dir).is_ok()),
            "load" => match hk::load_from_disk(&self.dir) {
                Ok(c) => json!({"ok": true, "v": numbered(&c)}),
                Err(_) => json!({"ok": false}),
            },
            "resave" => match hk::load_from_disk(&self.dir) {
                Ok(c) => json!(c.save_to_disk(&self.dir).is_ok()),
                Err(_) => json!(false),
            },
            "spoil" | "spoilbook" => {
                let book = s(&op["a"]) == "spoilbook";
                let junk: &[u8] = match u(&op["k"]) {
                    0 => b"",
                    1 => b"{",
                    2 => b"nonsense",
                    3 => b"\xff\xfe{}",
                    4 if book => b"{\"include\": [1]}",
                    4 => b"{\"gossip_fanout\": \"four\"}",
                    5 => b"{\"archival\": 1}",
                    6 => b"{\"gossip_fanout\": -1}",
                    _ => b"{} x",
                };
                std::fs::write(self.at(if book { "phonebook.json" } else { "config.json" }), junk).unwrap();
                json!(true)
            }
            "cut" => {
                // as after a crash while writing
                if let Ok(all) = std::fs::read(self.at("config.json")) {
                    let end = all.iter().rposition(|c| *c == b'}').unwrap_or(0);
                    std::fs::write(self.at("config.json"), &all[..end * u(&op["tenths"]) as usize / 9]).unwrap();
                }
                json!(true)
            }
            "remove" => {
                let _ = std::fs::remove_file(self.at("config.json"));
                json!(true)
            }
            "savebook" => {
                let q = arr(&op["q"]).iter().map(|x| s(x).to_owned()).collect();
                json!(config::save_phonebook_to_disk(q, &self.dir).is_ok())
            }
            "loadbook" => match config::load_phonebook(&self.dir) {
                Ok(q) => json!({"ok": true, "v": q}),
                Err(_) => json!({"ok": false}),
            },
            "removebook" => {
                let _ = std::fs::remove_file(self.at("phonebook.json"));
                json!(true)
            }
            "nowhere" => {
                let k = u(&op["k"]);
                let dir = if k < 2 { self.dir.clone() + "/none" } else { "$VERIF_NO_SUCH_VARIABLE".to_owned() };
                json!(if k % 2 == 0 {
                    Local::default().save_to_disk(&dir).is_ok()
                } else {
                    config::save_phonebook_to_disk(vec!["a".to_owned()], &dir).is_ok()
                })
            }
            "flags" => {
                let c = Local {
                    dns_security_flags: u(&op["d"]) as u32,
                    catchup_block_validate_mode: u(&op["c"]) as u32,
                    ..Local::default()
                };
                json!({"srv": c.dnssec_srv_enforced(), "relay": c.dnssec_relay_addr_enforced(), "telemetry": c.dnssec_telemetry_enforced(),
                    "cert": c.catchup_verify_certificate(), "payset": c.catchup_verify_payset_hash(),
                    "sigs": c.catchup_verify_transaction_signatures(), "apply": c.catchup_verify_apply_data()})
            }
            "dns" => {
                let id: Vec<String> = arr(&op["id"]).iter().map(|e| text(e).replace("N", "<network>")).collect();
                let c = Local {
                    dns_bootstrap_id: id.join(";"),
                    ..Local::default()
                };
                json!({"ok": true, "v": hk::dns_bootstrap_array(&c, s(&op["net"]))})
            }
            "kind" => {
                let (f, a) = (text(&op["f"]), text(&op["acct"]));
                json!({"root": hk::is_root_key_filename(&f), "part": hk::is_part_key_filename(&f),
                    "rootof": chars(&hk::account_name_from_root_key_filename(&f)), "partof": chars(&hk::account_name_from_part_key_filename(&f)),
                    "isroot": hk::matches_root_key_filename(&a, &f), "ispart": hk::matches_part_key_filename(&a, &f)})
            }
            "names" => {
                let a = text(&op["acct"]);
                let n = |k: &str| Round(text(&op[k]).parse().expect("script: round"));
                json!({"root": chars(&hk::root_key_filename(&a)), "part": chars(&hk::part_key_filename(&a, n("first"), n("last")))})
            }
            "setroot" => {
                let old = config::set_global_config_file_root(&Box::new(self.root(s(&op["r"]))));
                json!({"ok": true, "v": self.label(&old)})
            }
            "getroot" => match config::get_global_config_file_root() {
                Ok(p) => {
                    let f = config::get_config_file_path("genesis.json");
                    assert!(f.unwrap() == p.join("genesis.json"), "files lie elsewhere");
                    json!({"ok": true, "v": self.label(&p), "there": self.root("home").is_dir()})
                }
                Err(_) => json!({"ok": false}),
            },
            "mkhome" => {
                std::fs::create_dir_all(self.root("home")).unwrap();
                json!(true)
            }
            "rmhome" => {
                let _ = std::fs::remove_dir(self.root("home"));
                json!(true)
            }
            x => panic!("script: operation {}", x),
        }
    }
}
