//! The key tool (C21): runs the binary named by ALGOKEY over scratch directories.
use crate::txs;
use crate::util::*;
use crate::Suite;
use algorsand::crypto::{mnemonic, Hashable};
use algorsand::data::basics::Address;
use algorsand::data::transactions::{SignedTx, Transaction};
use algorsand::protocol;
use ed25519_dalek::{PublicKey, SecretKey, Verifier};
use serde_json::{json, Map, Value};
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Default)]
pub struct Algokey {
    n: usize,
    dir: PathBuf,
    slots: Vec<String>,
    /// name, seed
    keys: Vec<(String, [u8; 32])>,
    made: usize,
    txs: Vec<(Vec<u8>, Value)>,
    vrf: Vec<String>,
    vote: Vec<String>,
}

fn public(seed: &[u8; 32]) -> PublicKey {
    (&SecretKey::from_bytes(seed).unwrap()).into()
}

fn address(seed: &[u8; 32]) -> Address {
    Address(public(seed).to_bytes())
}

fn transaction(t: &Value, sender: Address) -> Transaction {
    let mut x = txs::full_tx(s(&t["kind"]), u(&t["id"]));
    x.header.sender = sender;
    x
}

fn junk(n: u64) -> Vec<u8> {
    let tx = protocol::encode(&transaction(&json!({"kind": "pay", "id": 1}), addr("A")));
    match n {
        0 => vec![],
        1 => vec![7; 31],
        2 => vec![7; 33],
        3 => tx[..tx.len() - 1].to_vec(),
        4 => vec![9; 64],
        5 => b"hello".to_vec(),
        6 => vec![0x80],
        7 => tx[1..].to_vec(),
        8 => vec![b'A'; 200],
        _ => panic!("script: junk"),
    }
}

impl Algokey {
    fn seed(&self, name: &str) -> [u8; 32] {
        match self.keys.iter().find(|(n, _)| n == name) {
            Some((_, x)) => *x,
            None => panic!("script: no key {} yet", name),
        }
    }

    /// the name of a key, a new one if it was not seen before
    fn name(&mut self, seed: [u8; 32]) -> String {
        if let Some((n, _)) = self.keys.iter().find(|(_, x)| *x == seed) {
            return n.clone();
        }
        self.made += 1;
        let n = format!("g{}", self.made);
        self.keys.push((n.clone(), seed));
        n
    }

    fn whose(&self, a: &Address) -> Option<String> {
        self.keys.iter().find(|(_, x)| address(x) == *a).map(|(n, _)| n.clone())
    }

    fn whose_text(&self, t: &str) -> Option<String> {
        self.keys.iter().find(|(_, x)| address(x).to_string() == t).map(|(n, _)| n.clone())
    }

    fn who(&self, name: &str) -> Address {
        match name {
            "zero" => Address::default(),
            n => address(&self.seed(n)),
        }
    }

    fn content(&mut self, f: &str) -> Value {
        let p = self.dir.join(f);
        let meta = match std::fs::symlink_metadata(&p) {
            Err(_) => return json!({"k": "none"}),
            Ok(m) => m,
        };
        if meta.is_dir() {
            return if p.join("marker").exists() { json!({"k": "dir", "n": 0}) } else { json!({"k": "store"}) };
        }
        let raw = std::fs::read(&p).unwrap();
        if raw.len() == 32 {
            let mut x = [0; 32];
            x.copy_from_slice(&raw);
            let private = meta.permissions().mode() & 0o077 == 0;
            return json!({"k": "key", "i": self.name(x), "priv": private});
        }
        if let Some(i) = std::str::from_utf8(&raw).ok().and_then(|t| self.whose_text(t)) {
            return json!({"k": "addr", "i": i});
        }
        if let Some((_, t)) = self.txs.iter().find(|(x, _)| *x == raw) {
            return json!({"k": "tx", "t": t});
        }
        if let Some(n) = (0..9).find(|n| junk(*n) == raw) {
            return json!({"k": "junk", "n": n});
        }
        self.signed(&raw).unwrap_or(json!({"k": "other"}))
    }

    fn signed(&self, raw: &[u8]) -> Option<Value> {
        let x: SignedTx = protocol::decode(raw).ok()?;
        if protocol::encode(&x) != raw || x.msig.is_some() || x.lsig.is_some() {
            return None;
        }
        let enc = protocol::encode(&x.tx);
        let (_, t) = self.txs.iter().find(|(y, _)| *y == enc)?;
        let msg = x.tx.hash_rep();
        let by = self.keys.iter().find(|(_, k)| public(k).verify(&msg, &x.sig).is_ok())?;
        let auth = if x.auth_addr == Address::default() { "none".to_owned() } else { self.whose(&x.auth_addr)? };
        Some(json!({"k": "stx", "t": t, "by": by.0, "auth": auth}))
    }

    fn fs(&mut self) -> Value {
        let mut m = Map::new();
        for f in self.slots.clone() {
            let c = self.content(&f);
            m.insert(f, c);
        }
        Value::Object(m)
    }

    fn phrase(&self, m: &Value) -> String {
        let mut w = mnemonic::key_to_mnemonic(self.seed(s(&m["i"])));
        match s(&m["how"]) {
            "ok" => {}
            "spaces" => return format!("  {}\t{}\n ", w[0], w[1..].join("   ")),
            "empty" => w.clear(),
            "w24" => {
                w.pop();
            }
            "w26" => w.push(w[24].clone()),
            "word" => w[3] = "zzzz".to_owned(),
            "sum" => w[24] = (if w[24] == "abandon" { "zoo" } else { "abandon" }).to_owned(),
            "case" => w[5] = w[5].to_uppercase(),
            x => panic!("script: phrase {}", x),
        }
        w.join(" ")
    }

    /// Runs the tool; its output if it succeeded.
    fn run(&self, args: &[&str]) -> Result<Option<String>, ()> {
        let out = Command::new(std::env::var("ALGOKEY").expect("script: ALGOKEY"))
            .args(args)
            .current_dir(&self.dir)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .output()
            .unwrap();
        match out.status.code() {
            Some(0) => Ok(Some(String::from_utf8_lossy(&out.stdout).into_owned())),
            Some(101) | None => Err(()),
            Some(_) => Ok(None),
        }
    }

    fn answer(&mut self, args: &[&str], what: &str) -> Value {
        let out = match self.run(args) {
            Err(()) => return json!({"panic": true}),
            Ok(None) => return json!({"ok": false, "fs": self.fs()}),
            Ok(Some(out)) => out,
        };
        let field = |l: &str| out.lines().find_map(|x| x.strip_prefix(l)).unwrap_or("").trim().to_owned();
        match what {
            "key" => {
                let phrase = format!("{} ", field("Private key mnemonic:"));
                // the words may be spread over lines, as they were given
                let all = match (out.find("Private key mnemonic:"), out.find("Public key:")) {
                    (Some(i), Some(j)) if i < j => out[i + 21..j].to_owned(),
                    _ => phrase,
                };
                let key = mnemonic::phrase_to_key(&all).ok().map(|x| self.name(x)).unwrap_or("other".to_owned());
                let a = self.whose_text(&field("Public key:")).unwrap_or("other".to_owned());
                json!({"ok": true, "key": key, "addr": a, "fs": self.fs()})
            }
            "part" => {
                let num = |l: &str| field(l).parse::<u64>().unwrap_or(u64::MAX);
                let parent = match field("Parent address:") {
                    t if t == Address::default().to_string() => "zero".to_owned(),
                    t => self.whose_text(&t).unwrap_or("other".to_owned()),
                };
                let info = json!({"parent": parent, "first": num("First valid:"), "last": num("Last valid:"), "dil": num("Key dilution:"),
                    "batch": num("First batch:"), "offset": num("First offset:"),
                    "vrf": place(&mut self.vrf, field("VRF public key:")), "vote": place(&mut self.vote, field("Voting pub key:"))});
                json!({"ok": true, "info": info, "fs": self.fs()})
            }
            _ => json!({"ok": true, "fs": self.fs()}),
        }
    }
}

fn place(q: &mut Vec<String>, x: String) -> usize {
    if !q.contains(&x) {
        q.push(x.clone());
    }
    q.iter().position(|y| *y == x).unwrap() + 1
}

fn usage(k: u64) -> Vec<&'static str> {
    match k {
        0 => vec!["export", "-p", "b"],
        1 => vec!["import", "-m", "abandon"],
        2 => vec!["import", "-f", "b"],
        3 => vec!["bogus", "-f", "a"],
        4 => vec!["generate", "-f", "a", "-z"],
        5 => vec![],
        6 => vec!["generate", "-p", "b", "-f"],
        7 => vec!["sign", "-f", "a", "-o", "o"],
        8 => vec!["sign", "-f", "a", "-t", "t"],
        9 => vec!["sign", "-f", "a", "-t", "t", "-o", "o", "o"],
        10 => vec!["part", "generate", "-f", "1", "-l", "2"],
        11 => vec!["part", "generate", "-k", "s", "-f", "-1", "-l", "2"],
        12 => vec!["part", "generate", "-k", "s", "-f", "1", "-l", "18446744073709551616"],
        13 => vec!["part", "info"],
        14 => vec!["part", "reparent", "-k", "s"],
        15 => vec!["part", "generate", "-k", "s", "-f", "1", "-l", "2", "-d", "x"],
        _ => panic!("script: usage"),
    }
}

impl Suite for Algokey {
    fn step(&mut self, op: &Value) -> Value {
        let get = |k: &str| op.get(k).and_then(|x| x.as_str()).unwrap_or("").to_owned();
        let (f, p) = (get("f"), get("p"));
        let with = |l: &'static str, x: &'_ str| -> Vec<String> {
            if x.is_empty() { vec![] } else { vec![l.to_owned(), x.to_owned()] }
        };
        let strs = |v: Vec<Vec<String>>| -> Vec<String> { v.concat() };
        match s(&op["a"]) {
            "init" => {
                if self.n > 0 {
                    let _ = std::fs::remove_dir_all(&self.dir);
                }
                let n = self.n + 1;
                *self = Algokey { n, dir: std::env::current_dir().unwrap().join(format!("algokey-{}-{}", std::process::id(), n)), ..Default::default() };
                std::fs::create_dir(&self.dir).unwrap();
                std::os::unix::fs::symlink(std::env::current_dir().unwrap().join("data"), self.dir.join("data")).unwrap();
                self.slots = arr(&op["slots"]).iter().map(|x| s(x).to_owned()).collect();
                for n in ["x1", "x2", "x3"] {
                    self.keys.push((n.to_owned(), bytes32(&format!("algokey/{}", n))));
                }
                json!("ready")
            }
            "place" => {
                let path = self.dir.join(&f);
                if path.is_dir() {
                    std::fs::remove_dir_all(&path).unwrap();
                } else if path.exists() {
                    std::fs::remove_file(&path).unwrap();
                }
                let x = &op["x"];
                let raw = match s(&x["k"]) {
                    "none" => return json!(true),
                    "dir" => {
                        std::fs::create_dir(&path).unwrap();
                        std::fs::write(path.join("marker"), "").unwrap();
                        return json!(true);
                    }
                    "key" => self.seed(s(&x["i"])).to_vec(),
                    "junk" => junk(u(&x["n"])),
                    "tx" => {
                        let raw = protocol::encode(&transaction(&x["t"], self.who(s(&x["t"]["sender"]))));
                        if !self.txs.iter().any(|(y, _)| *y == raw) {
                            self.txs.push((raw.clone(), x["t"].clone()));
                        }
                        raw
                    }
                    k => panic!("script: place {}", k),
                };
                std::fs::write(&path, raw).unwrap();
                std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o644)).unwrap();
                json!(true)
            }
            "authorizer" => {
                let mut x: SignedTx = txs::full_tx("pay", 1).sign(&keypair("k"));
                let sigs = op.get("sigs").map_or(0, u);
                if sigs % 2 == 1 {
                    x.msig = serde_json::from_value(json!({"version": 1, "threshold": 1, "subsigs": []})).unwrap();
                }
                if sigs > 1 {
                    x.sig = serde_json::from_value(json!([&[0u8; 32][..], &[0u8; 32][..]].concat())).unwrap();
                }
                x.tx.header.sender = addr(s(&op["sender"]));
                x.auth_addr = addr(s(&op["auth"]));
                let who = x.authorizer();
                let l = ["zero", "A", "B", "C"].iter().find(|l| addr(l) == who).unwrap_or(&"?");
                json!({ "who": l })
            }
            // signed by the library: the sender is the key's own address, one that differs from it
            // in a bit, or another
            "signlib" => {
                let k = keypair(s(&op["key"]));
                let own = k.public.to_bytes();
                let mut x = txs::full_tx(s(&op["kind"]), 1);
                x.header.sender = match s(&op["sender"]) {
                    "own" => Address(own),
                    "near" => {
                        let (mut y, i) = (own, u(&op["bit"]) as usize);
                        y[i / 8] ^= 1 << (i % 8);
                        Address(y)
                    }
                    l => addr(l),
                };
                let y = x.sign(&k);
                let auth = match y.auth_addr.0 {
                    z if z == [0; 32] => "none",
                    z if z == own => "key",
                    _ => "?",
                };
                json!({"auth": auth, "valid": k.public.verify(&x.hash_rep(), &y.sig).is_ok(),
                       "same": protocol::encode(&y.tx) == protocol::encode(&x) && y.msig.is_none() && y.lsig.is_none(),
                       "who": y.authorizer() == Address(own)})
            }
            "usage" => self.answer(&usage(u(&op["k"])), ""),
            cmd => {
                let phrase = match op.get("m") {
                    Some(m) if s(&m["i"]) != "" => Some(self.phrase(m)),
                    _ => None,
                };
                let m = match &phrase {
                    Some(x) => vec!["-m".to_owned(), x.clone()],
                    None => vec![],
                };
                let parent = match get("parent").as_str() {
                    "" => String::new(),
                    // an address whose checksum is wrong
                    "bad" => {
                        let t = address(&self.seed("x1")).to_string();
                        format!("{}{}", &t[..57], if t.ends_with('A') { "Q" } else { "A" })
                    }
                    n => self.who(n).to_string(),
                };
                let (args, what) = match cmd {
                    "generate" => (strs(vec![vec!["generate".to_owned()], with("-f", &f), with("-p", &p)]), "key"),
                    "export" => (strs(vec![vec!["export".to_owned()], with("-f", &f), with("-p", &p)]), "key"),
                    "import" => (strs(vec![vec!["import".to_owned()], m, with("-f", &f), with("-p", &p)]), "key"),
                    "sign" => (strs(vec![vec!["sign".to_owned()], with("-f", &f), m, with("-t", &get("t")), with("-o", &get("o"))]), ""),
                    "partgen" => {
                        let num = |l: &str, k: &str| vec![l.to_owned(), u(&op[k]).to_string()];
                        let dil = if u(&op["dil"]) == 0 { vec![] } else { num("-d", "dil") };
                        (strs(vec![vec!["part".to_owned(), "generate".to_owned()], with("-k", &f), num("-f", "first"), num("-l", "last"), dil,
                            with("-p", &parent)]), "part")
                    }
                    "partinfo" => (strs(vec![vec!["part".to_owned(), "info".to_owned()], with("-k", &f)]), "part"),
                    "reparent" => (strs(vec![vec!["part".to_owned(), "reparent".to_owned()], with("-k", &f), with("-p", &parent)]), "part"),
                    x => panic!("script: unknown operation {}", x),
                };
                let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                self.answer(&args, what)
            }
        }
    }
}
