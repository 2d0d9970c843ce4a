//! Chain of block headers: upgrade voting, successor validity, block assembly (C01, C02, C03).
use crate::util::*;
use crate::Suite;
use algorsand::config::{self, ConsensusProtocols};
use algorsand::crypto::{hash_obj, CryptoHash};
use algorsand::data::basics::{Address, MicroAlgos, Round};
use algorsand::data::bookkeeping::*;
use algorsand::data::committee::Seed;
use algorsand::protocol::{CompactCertType, ConsensusVersion};
use serde_json::{json, Value};
use std::time::SystemTime;

/// Writes a consensus.json whose versions are built-in parameters with some fields replaced.
/// Input: {"V20": {"base": "V30", field: value, ..}, ..}
pub fn mkconsensus(spec: &str, out: &str) {
    let spec: Value = serde_json::from_str(&std::fs::read_to_string(spec).unwrap()).unwrap();
    let mut res = serde_json::Map::new();
    for (ver, patch) in spec.as_object().unwrap() {
        let base = version(s(&patch["base"]));
        let mut v = serde_json::to_value(&config::CONSENSUS.0[&base]).unwrap();
        for (k, x) in patch.as_object().unwrap() {
            if k != "base" {
                assert!(v.get(k).is_some(), "no parameter {}", k);
                v[k] = x.clone();
            }
        }
        res.insert(ver.clone(), v);
    }
    std::fs::write(out, Value::Object(res).to_string()).unwrap();
}

pub fn version(name: &str) -> ConsensusVersion {
    serde_json::from_value(json!(name)).unwrap_or_else(|_| panic!("script: no version {}", name))
}

pub fn vername(v: ConsensusVersion) -> String {
    serde_json::to_value(v).unwrap().as_str().unwrap().to_owned()
}

#[derive(Default)]
pub struct Chain {
    pub prev: BlockHeader,
}

pub fn ups(v: &Value) -> UpgradeState {
    UpgradeState {
        current_protocol: version(s(&v["cur"])),
        next_protocol: match s(&v["next"]) {
            "none" => None,
            n => Some(version(n)),
        },
        next_protocol_approvals: u(&v["appr"]),
        next_protocol_vote_before: Round(u(&v["before"])),
        next_protocol_switch_on: Round(u(&v["switch"])),
    }
}

pub fn ups_json(x: &UpgradeState) -> Value {
    json!({"cur": vername(x.current_protocol),
           "next": x.next_protocol.map(vername).unwrap_or_else(|| "none".to_owned()),
           "appr": x.next_protocol_approvals,
           "before": x.next_protocol_vote_before.0,
           "switch": x.next_protocol_switch_on.0})
}

/// In a header, naming the protocol in force as the proposed one is how "no proposal" is written.
pub fn vote(v: &Value, cur: ConsensusVersion) -> UpgradeVote {
    UpgradeVote {
        upgrade_propose: match s(&v["propose"]) {
            "none" => cur,
            n => version(n),
        },
        upgrade_delay: Round(u(&v["delay"])),
        upgrade_approve: b(&v["approve"]),
    }
}

fn vote_json(x: &UpgradeVote, cur: ConsensusVersion) -> Value {
    json!({"propose": if x.upgrade_propose == cur {"none".to_owned()} else {vername(x.upgrade_propose)},
           "delay": x.upgrade_delay.0, "approve": x.upgrade_approve})
}

pub fn h32(label: &str) -> CryptoHash {
    CryptoHash(bytes32(label))
}

/// Every field of a header, for before/after comparison.
fn fingerprint(h: &BlockHeader) -> String {
    format!("{:?}|{:?}|{:?}|{:?}|{}|{}|{:?}|{:?}|{}|{:?}|{:?}|{}|{}", h.round, h.branch, h.seed.0, h.tx_root,
        h.timestamp, h.genesis_id, h.genesis_hash, h.rewards_state, ups_json(&h.upgrade_state),
        vername(h.upgrade_vote.upgrade_propose), h.upgrade_vote.upgrade_delay, h.upgrade_vote.upgrade_approve,
        format!("{} {:?}", h.tx_counter, h.compact_certs.iter().map(|(k, v)| (*k, v.compactcert_voters.clone(), v.compactcert_voters_total, v.compactcert_next_round)).collect::<Vec<_>>()))
}

pub fn mutate(h: &mut BlockHeader, field: &str) {
    let one = |r: &mut Round| r.0 ^= 1;
    match field {
        "round" => one(&mut h.round),
        "branch" => h.branch.0[5] ^= 1,
        "seed" => h.seed.0[31] ^= 1,
        "tx_root" => h.tx_root.0[0] ^= 1,
        "timestamp" => h.timestamp ^= 1,
        "genesis_id" => h.genesis_id.push('x'),
        "genesis_hash" => h.genesis_hash.0[7] ^= 1,
        "fee_sink" => h.rewards_state.fee_sink.0[1] ^= 1,
        "rewards_pool" => h.rewards_state.rewards_pool.0[1] ^= 1,
        "rewards_level" => h.rewards_state.rewards_level ^= 1,
        "rewards_rate" => h.rewards_state.rewards_rate ^= 1,
        "rewards_residue" => h.rewards_state.rewards_residue ^= 1,
        "rewards_recalc" => one(&mut h.rewards_state.rewards_recalculation_round),
        "ups_cur" => h.upgrade_state.current_protocol = if h.upgrade_state.current_protocol == ConsensusVersion::V22 {ConsensusVersion::V21} else {ConsensusVersion::V22},
        "ups_next" => h.upgrade_state.next_protocol = if h.upgrade_state.next_protocol.is_none() {Some(ConsensusVersion::V21)} else {None},
        "ups_appr" => h.upgrade_state.next_protocol_approvals ^= 1,
        "ups_before" => one(&mut h.upgrade_state.next_protocol_vote_before),
        "ups_switch" => one(&mut h.upgrade_state.next_protocol_switch_on),
        "vote_propose" => h.upgrade_vote.upgrade_propose = if h.upgrade_vote.upgrade_propose == ConsensusVersion::V22 {ConsensusVersion::V21} else {ConsensusVersion::V22},
        "vote_delay" => one(&mut h.upgrade_vote.upgrade_delay),
        "vote_approve" => h.upgrade_vote.upgrade_approve ^= true,
        "tx_counter" => h.tx_counter ^= 1,
        "compact_certs" => { h.compact_certs.insert(CompactCertType::Basic, CompactCertState {
            compactcert_voters: CryptoHash([3; 32]), compactcert_voters_total: MicroAlgos(1), compactcert_next_round: Round(9) }); }
        _ => panic!("script: no header field {}", field),
    }
}

fn branch_of(prev: &BlockHeader, how: &str) -> CryptoHash {
    match how {
        "ok" => hash_obj(prev),
        "zero" => CryptoHash::default(),
        "grandparent" => prev.branch.clone(),
        f => {
            // digest of a header that differs from the previous one in one field
            let mut p = prev.clone();
            mutate(&mut p, f);
            hash_obj(&p)
        }
    }
}

fn now() -> u64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs()
}

impl Chain {
    fn check(prev: &BlockHeader, cand: &BlockHeader) -> Value {
        let (fp, fc) = (fingerprint(prev), fingerprint(cand));
        let mut p = prev.clone();
        let r1 = verdict(guard(|| cand.pre_check(&mut p)));
        let pure = fingerprint(&p) == fp && fingerprint(cand) == fc;
        let r2 = verdict(guard(|| cand.pre_check(&mut p)));
        json!({"ok": r1, "again": r2, "pure": pure})
    }
}

impl Suite for Chain {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            // start from an explicit previous header
            "init" => {
                let h = &op["hdr"];
                self.prev = BlockHeader {
                    round: Round(u(&h["round"])),
                    branch: h32("grandparent"),
                    seed: Seed(bytes32("seed")),
                    tx_root: h32("txroot"),
                    timestamp: u(&h["ts"]),
                    genesis_id: s(&h["gid"]).to_owned(),
                    genesis_hash: h32(s(&h["gh"])),
                    upgrade_state: ups(&h["ups"]),
                    tx_counter: 4,
                    ..Default::default()
                };
                self.prev.upgrade_vote.upgrade_propose = self.prev.upgrade_state.current_protocol;
                self.prev.rewards_state.fee_sink = Address(bytes32("sink"));
                self.prev.rewards_state.rewards_pool = Address(bytes32("pool"));
                self.prev.rewards_state.rewards_level = 77;
                json!("ready")
            }
            // check an explicit candidate header; on acceptance it becomes the previous header
            "check" => {
                let h = &op["hdr"];
                let cand = BlockHeader {
                    round: Round(u(&h["round"])),
                    branch: branch_of(&self.prev, s(&h["branch"])),
                    seed: Seed(bytes32("seed2")),
                    tx_root: h32("txroot2"),
                    timestamp: u(&h["ts"]),
                    genesis_id: s(&h["gid"]).to_owned(),
                    genesis_hash: h32(s(&h["gh"])),
                    rewards_state: self.prev.rewards_state.clone(),
                    upgrade_state: ups(&h["ups"]),
                    upgrade_vote: vote(&h["vote"], self.prev.upgrade_state.current_protocol),
                    tx_counter: 5,
                    ..Default::default()
                };
                let mut cand = cand;
                // one number of the header is further off by a power of two
                if let Some(far) = op.get("far").filter(|f| s(&f["f"]) != "none") {
                    let by = 1u64 << u(&far["k"]);
                    let x = match s(&far["f"]) {
                        "round" => &mut cand.round.0,
                        "appr" => &mut cand.upgrade_state.next_protocol_approvals,
                        "before" => &mut cand.upgrade_state.next_protocol_vote_before.0,
                        "switch" => &mut cand.upgrade_state.next_protocol_switch_on.0,
                        "delay" => &mut cand.upgrade_vote.upgrade_delay.0,
                        f => panic!("script: far {}", f),
                    };
                    *x = x.wrapping_add(by);
                }
                let r = Chain::check(&self.prev, &cand);
                if r["ok"] == "ok" {
                    self.prev = cand;
                }
                r
            }
            // which protocol is expected next, and when
            "nextver" => match guard(|| self.prev.next_version_info()) {
                Ok((v, r, sup)) => json!({"ver": v.map(vername).unwrap_or_else(|| "none".to_owned()), "round": r.0, "sup": sup}),
                Err(_) => json!({"panic": true}),
            },
            // assemble a block on the previous header; d: parent timestamp relative to now, in seconds
            "assemble" => {
                let d = &op["d"];
                let zero_ts = b(&d["zero"]);
                let shift = u(&d["by"]) as i64 * if b(&d["neg"]) { -1 } else { 1 };
                let (parent, blk, t) = loop {
                    let t = now();
                    let mut parent = self.prev.clone();
                    parent.timestamp = if zero_ts { 0 } else { (t as i64 + shift) as u64 };
                    let fp = fingerprint(&parent);
                    let mut p = parent.clone();
                    let blk = guard(|| Block::new(&mut p));
                    let pure = fingerprint(&p) == fp;
                    if now() == t {
                        break (parent, blk.map(|b| (b, pure)), t);
                    }
                };
                match blk {
                    Err(_) => json!({"panic": true}),
                    Ok((blk, pure)) => {
                        let h = &blk.header;
                        let chk = Chain::check(&parent, h);
                        let cur = parent.upgrade_state.current_protocol;
                        let empty = Block { header: h.clone(), payset: Default::default() };
                        let root_ok = guard(|| empty.payset_commit().map(|c| c == h.tx_root).unwrap_or(false)).unwrap_or(false);
                        let res = json!({
                            "round": h.round.0, "vote": vote_json(&h.upgrade_vote, cur), "ups": ups_json(&h.upgrade_state),
                            "td": h.timestamp as i64 - t as i64,
                            "gen": h.genesis_id == parent.genesis_id && h.genesis_hash == parent.genesis_hash,
                            "special": h.rewards_state.fee_sink == parent.rewards_state.fee_sink && h.rewards_state.rewards_pool == parent.rewards_state.rewards_pool,
                            "empty": blk.payset.0.is_empty() && root_ok,
                            "pure": pure, "chk": chk});
                        if res["chk"]["ok"] == "ok" && b(&op["advance"]) {
                            self.prev = blk.header;
                        }
                        res
                    }
                }
            }
            x => panic!("script: unknown operation {}", x),
        }
    }
}
