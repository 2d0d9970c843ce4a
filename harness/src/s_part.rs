//! Participation keys across restarts, and the account manager (C13, C14).
//!
//! The keys live in a child process with a directory of its own, which is killed for a restart.
//! The child answers with public keys in hexadecimal; here they are numbered as they appear.
use crate::util::*;
use crate::Suite;
use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::crypto::{self, Hashable};
use algorsand::data::account::{Participation, Root};
use algorsand::data::account_manager::verif_hooks::Manager;
use algorsand::data::basics::{Address, MicroAlgos, Round};
use algorsand::data::bookkeeping::{BlockHeader, CompactCertState};
use algorsand::data::transactions::{Header, TxFields};
use algorsand::protocol::{self, CompactCertType, ConsensusVersion};
use ed25519_dalek::Verifier;
use ed25519_dalek::Signer;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};

const PARENTS: [&str; 3] = ["p", "q", "r"];

fn parent_label(a: &Address) -> Value {
    json!(PARENTS.iter().find(|x| &addr(x) == a).copied().unwrap_or("?"))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn sel(p: &Participation) -> Value {
    // a selection key counts only if its secret belongs to it
    let raw = serde_json::to_value(&p.vrf).unwrap();
    let seed: Vec<u8> = serde_json::from_value(raw["private"].clone()).unwrap();
    let mut fixed = [0; 32];
    fixed.copy_from_slice(&seed);
    let good = crypto::VrfKeypair::from_seed(fixed) == p.vrf;
    let public: Vec<u8> = serde_json::from_value(serde_json::to_value(&p.vrf_keypair().public()).unwrap()).unwrap();
    json!(if good { hex(&public) } else { "broken".to_owned() })
}

fn vote(p: &Participation) -> Value {
    json!(hex(p.voting.verifier.as_bytes()))
}

fn look(p: &Participation, op: &Value) -> Value {
    let d = if p.key_dilution == 0 { u(&op["d"]) } else { p.key_dilution };
    let m = "message".to_owned();
    let votes: Vec<Value> = arr(&op["rs"])
        .iter()
        .map(|r| {
            let id = Round(u(r)).ots_id(d);
            match guard(|| p.voting_keypair().sign(&id, &m).verify(&id, &m, &p.voting.verifier)) {
                Ok(x) => json!(x),
                Err(_) => json!("panic"),
            }
        })
        .collect();
    json!({"parent": parent_label(&p.parent), "sel": sel(p), "vote": vote(p), "fv": b64(p.first_valid.0),
           "lv": b64(p.last_valid.0), "dil": b64(p.key_dilution), "votes": votes})
}

fn proto(d: &Value) -> ConsensusParams {
    let mut p = CONSENSUS.0[&ConsensusVersion::V29].clone();
    p.default_key_dilution = u(d);
    // only the protocol of the latest header has a say in the distance of certificates
    p.compact_cert_rounds = 7;
    p
}

fn copy(p: &Participation) -> Participation {
    Participation {
        parent: p.parent,
        vrf: p.vrf.clone(),
        voting: p.voting.snapshot(),
        first_valid: p.first_valid,
        last_valid: p.last_valid,
        key_dilution: p.key_dilution,
    }
}

#[derive(Default)]
struct Keys {
    live: HashMap<String, Participation>,
    mgr: Manager,
}

impl Keys {
    fn slot(&mut self, op: &Value) -> &mut Participation {
        self.live.get_mut(s(&op["slot"])).expect("script: empty slot")
    }

    fn step(&mut self, op: &Value) -> Value {
        let slot = || s(&op["slot"]).to_owned();
        match s(&op["a"]) {
            "gen" => {
                match Participation::fill_db_with_participation_keys(addr(s(&op["parent"])), Round(u(&op["fv"])), Round(u(&op["lv"])), u(&op["dil"])) {
                    Err(_) => json!({"ok": false}),
                    Ok(p) => {
                        let r = json!({"ok": true, "key": look(&p, op)});
                        self.live.insert(slot(), p);
                        r
                    }
                }
            }
            "default" => {
                let p = self.slot(op);
                p.key_dilution = 0;
                p.persist().unwrap();
                json!({ "key": look(p, op) })
            }
            "restore" => match Participation::restore() {
                Err(_) => json!({"ok": false}),
                Ok(p) => {
                    let r = json!({"ok": true, "key": look(&p, op)});
                    self.live.insert(slot(), p);
                    r
                }
            },
            "persist" => {
                let p = self.slot(op);
                p.persist().unwrap();
                json!({ "key": look(p, op) })
            }
            "parent" => {
                let p = self.slot(op);
                p.parent = addr(s(&op["parent"]));
                p.persist_new_parent().unwrap();
                json!({ "key": look(p, op) })
            }
            "del" => {
                let p = self.slot(op);
                p.delete_old_keys(Round(u(&op["r"])), &proto(&op["d"])).unwrap();
                json!({ "key": look(p, op) })
            }
            "look" => {
                let p = self.slot(op);
                let (a, z) = p.valid_interval();
                json!({"key": look(p, op), "interval": [b64(a.0), b64(z.0)], "address": parent_label(&p.address()),
                       "overlaps": p.overlaps_interval(Round(u(&op["from"])), Round(u(&op["to"])))})
            }
            "register" => {
                let p = self.slot(op);
                let t = p.generate_registration_transaction(MicroAlgos(u(&op["fee"])), Round(u(&op["fv"])), Round(u(&op["lv"])), bytes32(s(&op["lx"])));
                let h = &t.header;
                let rest = Header {
                    sender: h.sender,
                    fee: h.fee,
                    first_valid: h.first_valid,
                    last_valid: h.last_valid,
                    lease: h.lease,
                    ..Header::default()
                };
                let lx = ["zero", "one"].iter().find(|x| bytes32(x) == h.lease).copied().unwrap_or("?");
                match &t.fields {
                    TxFields::Keyreg(k) => {
                        let public: Vec<u8> = serde_json::from_value(serde_json::to_value(&k.selection_pk).unwrap()).unwrap();
                        json!({"snd": parent_label(&h.sender), "fee": b64(h.fee.0), "fv": b64(h.first_valid.0), "lv": b64(h.last_valid.0),
                               "lx": lx, "rest": rest == t.header, "sel": hex(&public), "vote": hex(k.vote_pk.as_bytes()),
                               "vfv": b64(k.vote_first.0), "vlv": b64(k.vote_last.0), "vdil": b64(k.vote_key_dilution), "nonpart": k.nonparticipation})
                    }
                    _ => json!("another kind"),
                }
            }
            "rootgen" | "rootget" => {
                let r = if s(&op["a"]) == "rootgen" { Root::generate() } else { Root::restore() };
                match r {
                    Err(_) => json!({"ok": false}),
                    Ok(r) => {
                        let m = b"message";
                        let signs = r.secrets().public.verify(m, &r.secrets().sign(m)).is_ok() && r.address().0 == r.kp.public.to_bytes();
                        json!({"ok": true, "root": hex(&r.address().0), "signs": signs})
                    }
                }
            }
            "add" => {
                let other = self.live.get(s(&op["sel"])).expect("script: empty slot").vrf.clone();
                let mut p = copy(self.slot(op));
                p.vrf = other;
                p.parent = addr(s(&op["parent"]));
                p.first_valid = Round(u(&op["fv"]));
                p.last_valid = Round(u(&op["lv"]));
                if b(&op["dflt"]) {
                    p.key_dilution = 0;
                }
                json!({"added": self.mgr.add_participation(p)})
            }
            "keys" => json!({"keys": self.mgr.keys(Round(u(&op["r"]))).iter().map(|p| look(p, op)).collect::<Vec<_>>()}),
            "alive" => json!({"alive": self.mgr.has_live_keys(Round(u(&op["from"])), Round(u(&op["to"])))}),
            "block" => {
                let mut h = BlockHeader::default();
                h.round = Round(u(&op["h"]["rnd"]));
                h.upgrade_state.current_protocol = ConsensusVersion::V29;
                if b(&op["state"]) {
                    let cc = CompactCertState {
                        compactcert_voters: Default::default(),
                        compactcert_voters_total: MicroAlgos(0),
                        compactcert_next_round: Round(u(&op["h"]["cc"])),
                    };
                    h.compact_certs.insert(CompactCertType::Basic, cc);
                }
                // no entry at all is written as an empty list
                let sigs = op["sigs"].as_object().map_or(HashMap::new(), |m| m.iter().map(|(k, v)| (addr(k), Round(u(v)))).collect());
                self.mgr.delete_old_keys(h, sigs, proto(&op["d"]));
                // all registered keys, in whichever round they are valid
                let mut all: Vec<Value> = Vec::new();
                let mut at: Vec<&Value> = arr(&op["all"]).iter().collect();
                at.dedup();
                for r in at {
                    for p in self.mgr.keys(Round(u(r))) {
                        let v = look(p, op);
                        if !all.contains(&v) {
                            all.push(v);
                        }
                    }
                }
                json!({ "keys": all })
            }
            // the process may end while doing what it is asked
            "crash" => {
                arm(u(&op["at"]) as i64);
                let r = self.step(&op["do"]);
                arm(-1);
                json!({"died": false, "res": r})
            }
            x => panic!("script: no operation {}", x),
        }
    }
}

extern "C" {
    fn dlsym(handle: *mut std::ffi::c_void, name: *const u8) -> *mut std::ffi::c_void;
}

/// The process is to end at its n-th change of a file (crash.c).
fn arm(n: i64) {
    unsafe {
        let f = dlsym(std::ptr::null_mut(), b"verif_arm\0".as_ptr());
        assert!(!f.is_null(), "script: crash.so is not preloaded");
        let f: extern "C" fn(i64) = std::mem::transmute(f);
        f(n);
    }
}

pub fn child() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut keys = Keys::default();
    for line in std::io::stdin().lock().lines() {
        let op: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = match guard(|| keys.step(&op)) {
            Ok(v) => v,
            Err(m) => json!({"panic": true, "msg": m}),
        };
        println!("{}", r);
    }
}

#[derive(Default)]
pub struct Part {
    child: Option<(Child, BufReader<std::process::ChildStdout>)>,
    names: HashMap<&'static str, Vec<String>>,
    dir: PathBuf,
}

impl Part {
    fn kill(&mut self) {
        if let Some((mut c, _)) = self.child.take() {
            c.kill().unwrap();
            c.wait().unwrap();
        }
    }

    fn ask(&mut self, op: &Value) -> Value {
        if self.child.is_none() {
            let mut c = Command::new(std::env::current_exe().unwrap())
                .arg("part-child")
                .env("LD_PRELOAD", std::env::var_os("VERIF_CRASH").unwrap_or_default())
                .env("VERIF_TWIN", twin().map_or(String::new(), |t| t.to_string()))
                .current_dir(&self.dir)
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            let out = BufReader::new(c.stdout.take().unwrap());
            self.child = Some((c, out));
        }
        let (c, out) = self.child.as_mut().unwrap();
        let mut line = String::new();
        let sent = writeln!(c.stdin.as_mut().unwrap(), "{}", op).is_ok();
        if !sent || out.read_line(&mut line).unwrap_or(0) == 0 {
            self.kill();
            return json!({"abort": true});
        }
        serde_json::from_str(&line).unwrap()
    }

    /// numbers the keys in the order they appear
    fn label(&mut self, v: &mut Value) {
        match v {
            Value::Array(a) => a.iter_mut().for_each(|x| self.label(x)),
            Value::Object(m) => {
                for k in ["sel", "vote", "root"].iter() {
                    if let Some(Value::String(x)) = m.get(*k).cloned() {
                        let known = self.names.entry(*k).or_default();
                        let i = known.iter().position(|y| y == &x).unwrap_or_else(|| {
                            known.push(x);
                            known.len() - 1
                        });
                        m.insert(k.to_string(), json!(i + 1));
                    }
                }
                m.values_mut().for_each(|x| self.label(x));
            }
            _ => {}
        }
    }
}

fn order(v: &Value) -> (u64, u64, u64, u64, u64) {
    let rank = PARENTS.iter().position(|x| v["parent"] == json!(x)).unwrap_or(9) as u64;
    (u(&v["sel"]), u(&v["vote"]), u(&v["fv"]), u(&v["lv"]), rank)
}

impl Suite for Part {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.kill();
                self.names.clear();
                self.dir = std::env::current_dir().unwrap().join(format!("part-store-{}", std::process::id()));
                let _ = std::fs::remove_dir_all(&self.dir);
                std::fs::create_dir(&self.dir).unwrap();
                let mut v29 = serde_json::to_value(&CONSENSUS.0[&ConsensusVersion::V29]).unwrap();
                v29["compact_cert_rounds"] = json!(u(&op["rounds"]));
                std::fs::write(self.dir.join("consensus.json"), json!({ "V29": v29 }).to_string()).unwrap();
                json!("ready")
            }
            "restart" => {
                self.kill();
                json!({"done": true})
            }
            "crash" => {
                let mut r = self.ask(op);
                if r.get("abort").is_some() {
                    // what a new process finds
                    let mut back = self.ask(&op["then"]);
                    if back.get("abort").is_some() {
                        back = json!("nothing");
                    }
                    r = json!({"died": true, "res": back});
                }
                self.label(&mut r);
                r
            }
            _ => {
                let mut r = self.ask(op);
                self.label(&mut r);
                if let Some(Value::Array(a)) = r.get_mut("keys") {
                    a.sort_by_key(order);
                }
                r
            }
        }
    }
}

impl Drop for Part {
    fn drop(&mut self) {
        self.kill();
    }
}
