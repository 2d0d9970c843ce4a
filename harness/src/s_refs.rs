//! Liveness of transactions (C07); addresses and references they name (C25).
use crate::txs;
use crate::util::*;
use crate::Suite;
use algorsand::data::basics::*;
use algorsand::data::transactions::application::verif_hooks as ah;
use algorsand::data::transactions::transaction::verif_hooks as h;
use algorsand::data::transactions::SpecialAddresses;
use serde_json::{json, Value};

#[derive(Default)]
pub struct Refs;

fn label(a: &Address, names: &Value) -> Value {
    for n in arr(names) {
        if *a == txs::address(n) {
            return n.clone();
        }
    }
    json!("?")
}

fn opt<T>(r: Result<Result<T, ()>, String>, f: impl Fn(T) -> Value) -> Value {
    match r {
        Ok(Ok(x)) => json!({"ok": true, "v": [f(x)]}),
        Ok(Err(())) => json!({"ok": false, "v": []}),
        Err(_) => json!({"panic": true}),
    }
}

impl Suite for Refs {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => json!("ready"),
            "alive" => {
                let mut hd = txs::header(&op["tx"]);
                hd.note = vec![1];
                let p = params(&json!({"support_genesis_hash": op["supGH"], "require_genesis_hash": op["reqGH"]}));
                let r = guard(|| h::alive(&hd, Round(u(&op["round"])), p, s(&op["gid"]), txs::hash(&op["gh"])));
                json!({ "ok": verdict(r) })
            }
            "addrs" => {
                let t = txs::tx(&op["tx"]);
                let spec = SpecialAddresses { fee_sink: txs::address(&op["sink"]), rewards_pool: addr("pool") };
                // which of the named addresses are listed, however often and in whatever order
                let got = h::relevant_addrs(&t, &spec);
                let mut list: Vec<Value> =
                    arr(&op["names"]).iter().filter(|n| got.contains(&txs::address(n))).cloned().collect();
                if got.iter().any(|a| label(a, &op["names"]) == json!("?")) {
                    list.push(json!("?"));
                }
                let matched: Vec<Value> = arr(&op["names"])
                    .iter()
                    .filter(|n| h::match_address(&t, &txs::address(n), &spec))
                    .cloned()
                    .collect();
                let rcv = h::get_receiver_address(&t).map(|a| vec![label(&a, &op["names"])]).unwrap_or_default();
                json!({"addrs": list, "matched": matched, "rcv": rcv, "amt": b64(h::tx_amount(&t).0)})
            }
            "acct_at" => {
                let f = txs::app(&op["tx"]);
                let sender = txs::address(&op["sender"]);
                let i = u(&op["i"]);
                opt(guard(|| ah::address_by_index(&f, i, sender)), |a| label(&a, &op["names"]))
            }
            "acct_ix" => {
                let f = txs::app(&op["tx"]);
                let sender = txs::address(&op["sender"]);
                let a = txs::address(&op["addr"]);
                opt(guard(|| f.index_by_address(a, sender)), |i| b64(i))
            }
            "app_at" => {
                let f = txs::app(&op["tx"]);
                let i = u(&op["i"]);
                opt(guard(|| f.app_id_by_index(i)), |x| b64(x.0))
            }
            "app_ix" => {
                let f = txs::app(&op["tx"]);
                let a = AppIndex(u(&op["id"]));
                opt(guard(|| f.index_by_app_id(a)), |i| b64(i))
            }
            x => panic!("script: no operation {}", x),
        }
    }
}
