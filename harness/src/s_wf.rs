//! Stand-alone well-formedness of transactions (C06).
use crate::txs;
use crate::util::*;
use crate::Suite;
use serde_json::{json, Value};

#[derive(Default)]
pub struct Wf;

impl Suite for Wf {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => json!("ready"),
            "wf" => {
                let t = txs::tx(&op["tx"]);
                let q = &op["p"];
                let p = params(&json!({
                    "enable_fee_pooling": q["pooling"], "min_tx_fee": q["minFee"], "max_tx_life": q["maxLife"],
                    "max_tx_note_bytes": q["maxNote"], "support_transaction_leases": q["leases"],
                    "support_tx_groups": q["groups"], "support_rekeying": q["rekeying"],
                    "enable_keyreg_coherency_check": q["coherency"],
                    "support_become_non_participating_transactions": q["nonpart"],
                    "asset": q["asset"], "max_asset_name_bytes": q["maxName"], "max_asset_unit_name_bytes": q["maxUnit"],
                    "max_asset_url_bytes": q["maxUrl"], "max_asset_decimals": q["maxDec"],
                    "application": q["app"], "max_app_args": q["maxArgs"], "max_app_total_arg_len": q["maxArgLen"],
                    "max_app_program_len": q["maxProg"], "max_app_total_program_len": q["maxProgSum"],
                    "max_extra_app_program_pages": q["maxPages"], "max_app_tx_accounts": q["maxAccts"],
                    "max_app_tx_foreign_apps": q["maxApps"], "max_app_tx_foreign_assets": q["maxAssets"],
                    "max_app_total_tx_references": q["maxRefs"], "max_local_schema_entries": q["maxLocal"],
                    "max_global_schema_entries": q["maxGlobal"], "enable_extra_pages_on_app_update": q["pagesOnUpdate"],
                    "compact_cert_rounds": q["certRounds"]}));
                json!({ "ok": verdict(guard(|| t.is_well_formed(&txs::spec(), &p))) })
            }
            x => panic!("script: no operation {}", x),
        }
    }
}
