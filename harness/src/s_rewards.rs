//! The rewards state from round to round (C04).
use crate::util::*;
use crate::Suite;
use algorsand::data::basics::{MicroAlgos, Round};
use algorsand::data::bookkeeping::RewardsState;
use serde_json::{json, Value};

#[derive(Default)]
pub struct Rewards {
    st: RewardsState,
}

impl Suite for Rewards {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                let r = &op["st"];
                self.st = RewardsState {
                    fee_sink: addr("sink"),
                    rewards_pool: addr("pool"),
                    rewards_level: u(&r["level"]),
                    rewards_rate: u(&r["rate"]),
                    rewards_residue: u(&r["residue"]),
                    rewards_recalculation_round: Round(u(&r["recalc"])),
                };
                json!("ready")
            }
            "next" => {
                let n = self.st.next_state(
                    Round(u(&op["round"])),
                    params(&json!({"min_balance": op["minBal"], "pending_residue_rewards": op["pending"],
                                   "rewards_rate_refresh_interval": op["interval"]})),
                    MicroAlgos(u(&op["pool"])),
                    u(&op["units"]),
                );
                let special = n.fee_sink == addr("sink") && n.rewards_pool == addr("pool");
                let r = json!({"level": b64(n.rewards_level), "rate": b64(n.rewards_rate),
                               "residue": b64(n.rewards_residue), "recalc": b64(n.rewards_recalculation_round.0),
                               "special": special});
                self.st = n;
                r
            }
            x => panic!("script: no operation {}", x),
        }
    }
}
