//! Account rewards, minimum balance, stake (C05).
use crate::util::*;
use crate::Suite;
use algorsand::data::basics::user_balance::verif_hooks as h;
use algorsand::data::basics::*;
use serde_json::{json, Value};

#[derive(Default)]
pub struct Account {
    ad: AccountData,
}

fn schema(v: &Value) -> StateSchema {
    StateSchema { num_uint: u(&v["uint"]), num_byte_slice: u(&v["bytes"]) }
}

fn status(v: &Value) -> Status {
    match s(v) {
        "offline" => Status::Offline,
        "online" => Status::Online,
        "notpart" => Status::NotParticipating,
        x => panic!("script: no status {}", x),
    }
}

fn kv(n: u64) -> TealKeyValue {
    let m: serde_json::Map<String, Value> =
        (0..n).map(|i| (format!("k{}", i), serde_json::to_value(TealValue::new_uint(i)).unwrap())).collect();
    serde_json::from_value(json!(m)).unwrap()
}

/// Everything about the account that no rule here looks at: usual values, or others.
fn fill(ad: &mut AccountData, other: u64) {
    if other == 0 {
        return;
    }
    ad.vote_id = keypair("A").public;
    ad.selection_id = serde_json::from_value(json!(bytes32("sel").to_vec())).unwrap();
    let (f, l) = [(5, 10), (10, 5), (u64::MAX, u64::MAX), (0, 1)][other as usize % 4];
    ad.vote_first_valid = Round(f);
    ad.vote_last_valid = Round(l);
    ad.vote_key_dilution = other % 3;
    if other % 2 == 1 {
        ad.auth_addr = addr("auth");
    }
    for i in 0..other {
        ad.assets.insert(i, AssetHolding { amount: u64::MAX - i, frozen: i % 2 == 0 });
        ad.asset_params.insert(
            100 + i,
            AssetParams {
                total: u64::MAX - i,
                decimals: i as u32,
                default_frozen: true,
                unit_name: "u".to_owned(),
                asset_name: "name".to_owned(),
                url: "url".to_owned(),
                metadata_hash: bytes32("meta"),
                manager: addr("A"),
                reserve: addr("B"),
                freeze: addr("C"),
                clawback: addr("D"),
            },
        );
        let ls = AppLocalState { schema: StateSchema { num_uint: 7, num_byte_slice: 7 }, key_value: kv(other) };
        ad.app_local_states.insert(AppIndex(i), ls);
        ad.app_params.insert(AppIndex(200 + i), app());
    }
    ad.total_app_schema = StateSchema { num_uint: 9 * other, num_byte_slice: u64::MAX };
    ad.total_extra_app_pages = u32::MAX - other as u32;
}

fn app() -> AppParams {
    AppParams {
        approval_program: vec![1, 2],
        clear_state_program: vec![3],
        global_state: kv(1),
        state_schemas: StateSchemas {
            local_state_schema: StateSchema { num_uint: 5, num_byte_slice: 5 },
            global_state_schema: StateSchema { num_uint: 5, num_byte_slice: 5 },
        },
        extra_program_pages: 3,
    }
}

/// The account as text, without what updating its rewards changes.
fn rest(ad: &AccountData) -> String {
    let mut a = ad.clone();
    a.micro_algos = MicroAlgos(0);
    a.rewards_base = 0;
    a.rewarded_micro_algos = MicroAlgos(0);
    serde_json::to_string(&a).unwrap()
}

impl Suite for Account {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                let r = &op["st"];
                self.ad = h::new(status(&r["status"]), MicroAlgos(u(&r["algos"])));
                self.ad.rewards_base = u(&r["base"]);
                self.ad.rewarded_micro_algos = MicroAlgos(u(&r["rewarded"]));
                fill(&mut self.ad, op.get("other").map_or(0, u));
                json!("ready")
            }
            // the ledger moves money or changes the status
            "set" => {
                self.ad.micro_algos = MicroAlgos(u(&op["algos"]));
                self.ad.status = status(&op["status"]);
                json!("done")
            }
            "update" => {
                let p = params(&json!({"reward_unit": op["unit"]}));
                let level = u(&op["level"]);
                let before = self.ad.clone();
                let (money, total) = h::money(&self.ad, &p, level);
                let pending = h::pending_rewards(&self.ad, p.clone(), self.ad.micro_algos, self.ad.rewards_base, level);
                let n = h::with_updated_rewards(&self.ad, &p, level);
                let pure = serde_json::to_string(&before).unwrap() == serde_json::to_string(&self.ad).unwrap();
                let r = json!({"algos": b64(n.micro_algos.0), "base": b64(n.rewards_base),
                               "rewarded": b64(n.rewarded_micro_algos.0), "money": b64(money.0), "total": b64(total.0),
                               "pending": b64(pending.0), "pure": pure, "rest": rest(&n) == rest(&before)});
                self.ad = n;
                r
            }
            "stake" => {
                let mut a = self.ad.clone();
                a.vote_key_dilution = u(&op["dilution"]);
                json!({"stake": b64(a.voting_stake().0),
                       "norm": b64(h::normalized_online_balance(&a, params(&json!({"reward_unit": op["unit"]})))),
                       "dilution": b64(h::key_dilution(&a, params(&json!({"default_key_dilution": op["default"]}))))})
            }
            "minbal" => {
                let p = params(&json!({
                    "min_balance": op["base"], "app_flat_params_min_balance": op["perApp"],
                    "app_flat_opt_in_min_balance": op["perOptIn"], "schema_min_balance_per_entry": op["perEntry"],
                    "schema_uint_min_balance": op["perUint"], "schema_bytes_min_balance": op["perBytes"]}));
                let mut a = self.ad.clone();
                a.assets.clear();
                a.app_params.clear();
                a.app_local_states.clear();
                for i in 0..u(&op["assets"]) {
                    a.assets.insert(i, AssetHolding { amount: i, frozen: false });
                }
                for i in 0..u(&op["apps"]) {
                    a.app_params.insert(AppIndex(i), app());
                }
                for i in 0..u(&op["optIns"]) {
                    let ls = AppLocalState {
                        schema: schema(&json!({"uint": 7, "bytes": 7})),
                        key_value: kv(0),
                    };
                    a.app_local_states.insert(AppIndex(i), ls);
                }
                // created assets carry no charge of their own
                a.total_app_schema = schema(&op["schema"]);
                a.total_extra_app_pages = u(&op["pages"]) as u32;
                json!({"min": b64(h::min_balance(&a, &p).0), "schema": b64(a.total_app_schema.min_balance(&p).0)})
            }
            x => panic!("script: no operation {}", x),
        }
    }
}
