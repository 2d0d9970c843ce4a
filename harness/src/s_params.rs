//! Tables of consensus parameters (C20).
use crate::util::*;
use crate::Suite;
use algorsand::config::{
    load_configurable_consensus_protocols, preload_configurable_consensus_protocols,
    save_configurable_consensus, ConsensusParams, ConsensusProtocols, CONSENSUS,
};
use algorsand::protocol::ConsensusVersion;
use serde_json::{json, Value};
use std::collections::HashMap;

/// TLC counts to 2^31
fn cap(n: u64) -> u64 {
    n.min(1_000_000_000)
}

const NAMES: [&str; 25] = [
    "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20",
    "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "Future",
];

fn version(v: &str) -> ConsensusVersion {
    serde_json::from_value(json!(v)).expect("script: version")
}

/// the parameters of a version, told apart from those of others
fn tagged(v: &str) -> ConsensusParams {
    let mut p = CONSENSUS.0[&version(v)].clone();
    p.approved_upgrades = HashMap::new();
    p.max_version_string_len = 1000 + NAMES.iter().position(|n| *n == v).unwrap() as u32;
    p
}

fn entry(e: &Value) -> ConsensusParams {
    let mut p = tagged(s(&e["tag"]));
    for x in arr(&e["up"]) {
        p.approved_upgrades
            .insert(version(s(&x["to"])), u(&x["wait"]));
    }
    p
}

fn table(t: &Value) -> ConsensusProtocols {
    let mut r = HashMap::new();
    for e in arr(t) {
        r.insert(version(s(&e["v"])), entry(e));
    }
    ConsensusProtocols(r)
}

fn bare(p: &ConsensusParams) -> Value {
    let mut q = p.clone();
    q.approved_upgrades.clear();
    serde_json::to_value(&q).unwrap()
}

#[derive(Default)]
pub struct Params {
    dir: String,
    n: usize,
    live: ConsensusProtocols,
    bare: Vec<(String, Value)>,
}

impl Params {
    fn listed(&mut self, t: &ConsensusProtocols) -> Value {
        if self.bare.is_empty() {
            self.bare = NAMES
                .iter()
                .map(|n| (n.to_string(), bare(&tagged(n))))
                .collect();
        }
        let mut out = Vec::new();
        for n in NAMES.iter() {
            if let Some(p) = t.0.get(&version(n)) {
                let b = bare(p);
                let tag = self.bare.iter().find(|x| x.1 == b).map(|x| x.0.clone());
                let ups: Vec<Value> = NAMES
                    .iter()
                    .filter_map(|m| p.approved_upgrades.get(&version(m)).map(|w| json!({"to": m, "wait": w})))
                    .collect();
                out.push(json!({"v": n, "tag": tag.unwrap_or("other".to_owned()), "up": ups}));
            }
        }
        if out.len() != t.0.len() {
            out.push(json!({"v": "unnamed", "tag": "", "up": []}));
        }
        Value::Array(out)
    }

    fn file(&self) -> std::path::PathBuf {
        std::path::Path::new(&self.dir).join("consensus.json")
    }
}

impl Suite for Params {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.n += 1;
                self.dir = format!("params-{}-{}", std::process::id(), self.n);
                std::fs::create_dir_all(&self.dir).unwrap();
                self.live = ConsensusProtocols::default();
                json!("ready")
            }
            "merge" => {
                // tables are made anew each time, as the order in which they are walked differs
                let mut seen: Vec<Value> = Vec::new();
                for _ in 0..op.get("times").map(u).unwrap_or(4) {
                    let (mut t, m) = (table(&op["t"]), table(&op["m"]));
                    let before = self.listed(&t);
                    let r = t.merge(m);
                    let r = self.listed(&r);
                    if self.listed(&t) != before {
                        seen.push(json!([{"v": "changed what it was merged into", "tag": "", "up": []}]));
                    }
                    if !seen.contains(&r) {
                        seen.push(r);
                    }
                }
                json!({ "ok": seen })
            }
            "use" => {
                self.live = table(&op["t"]);
                json!(true)
            }
            "save" => {
                let (t, dir) = (table(&op["t"]), self.dir.clone());
                let r = save_configurable_consensus(&dir, t);
                json!({"ok": r.is_ok(), "file": self.file().exists()})
            }
            "preload" | "load" => {
                let mut live = self.live.clone();
                let dir = self.dir.clone();
                let pre = s(&op["a"]) == "preload";
                let r = guard(|| {
                    if pre {
                        preload_configurable_consensus_protocols(&dir, &mut live).map(Some)
                    } else {
                        load_configurable_consensus_protocols(&dir, &mut live).map(|_| None)
                    }
                });
                self.live = live.clone();
                let now = self.listed(&live);
                match r {
                    Ok(Ok(Some(t))) => json!({"ok": true, "got": self.listed(&t), "live": now}),
                    Ok(Ok(None)) => json!({"ok": true, "live": now}),
                    Ok(Err(_)) => json!({"ok": false, "live": now}),
                    Err(_) => json!({"panic": true}),
                }
            }
            "remove" => {
                let _ = std::fs::remove_file(self.file());
                json!(true)
            }
            "spoil" => {
                let junk: &[u8] = match u(&op["k"]) {
                    0 => b"",
                    1 => b"{\"V27\": ",
                    2 => b"{\"V27\": 3}",
                    3 => b"[1, 2]",
                    _ => b"\xff\xfe{}",
                };
                std::fs::write(self.file(), junk).unwrap();
                json!(true)
            }
            "builtin" => {
                let mut out = Vec::new();
                for (v, p) in &CONSENSUS.0 {
                    let ups: Vec<Value> = p
                        .approved_upgrades
                        .iter()
                        .map(|(to, w)| json!({"to": to, "wait": cap(*w)}))
                        .collect();
                    let com: Vec<Value> = [
                        (p.soft_committee_size, p.soft_committee_threshold),
                        (p.cert_committee_size, p.cert_committee_threshold),
                        (p.next_committee_size, p.next_committee_threshold),
                        (p.late_committee_size, p.late_committee_threshold),
                        (p.redo_committee_size, p.redo_committee_threshold),
                        (p.down_committee_size, p.down_committee_threshold),
                    ]
                    .iter()
                    .filter(|x| x.0 != 0 || x.1 != 0)
                    .map(|x| json!({"size": cap(x.0), "thr": cap(x.1)}))
                    .collect();
                    out.push(json!({"v": v, "min": cap(p.min_upgrade_wait_rounds), "max": cap(p.max_upgrade_wait_rounds),
                        "wait": cap(p.default_upgrade_wait_rounds), "votes": cap(p.upgrade_vote_rounds), "need": cap(p.upgrade_threshold),
                        "up": ups, "com": com}));
                }
                Value::Array(out)
            }
            x => panic!("script: operation {}", x),
        }
    }
}
