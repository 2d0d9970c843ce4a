//! Executes scripts of operations against the code under test and reports what was observed.
//!
//! usage: vharness SUITE SCRIPT.ndjson OUT.ndjson
//! Every script line is one operation (a JSON object); every output line is {"obs": ...}.
//! A panic of the code under test inside an operation that does not expect one is reported
//! as {"obs": {"panic": true}, "msg": ...}: panics are observations, not failures of the harness.
#![allow(dead_code, unused_imports, clippy::all)]
mod util;
#[cfg(any(feature = "wf", feature = "refs", feature = "payset", feature = "codec", feature = "algokey", feature = "kinds", feature = "history"))]
mod txs;
#[cfg(feature = "chain")]
mod s_chain;
#[cfg(feature = "refs")]
mod s_refs;
#[cfg(feature = "wf")]
mod s_wf;
#[cfg(feature = "payset")]
mod s_payset;
#[cfg(feature = "marray")]
mod s_marray;
#[cfg(feature = "trie")]
mod s_trie;
#[cfg(feature = "ots")]
mod s_ots;
#[cfg(any(feature = "multisig", feature = "batch"))]
mod s_msig;
#[cfg(feature = "cred")]
mod s_cred;
#[cfg(feature = "text")]
mod s_text;
#[cfg(feature = "params")]
mod s_params;
#[cfg(feature = "files")]
mod s_files;
#[cfg(feature = "genesis")]
mod s_genesis;
#[cfg(feature = "vrf")]
mod s_vrf;
#[cfg(feature = "codec")]
mod s_codec;
#[cfg(feature = "algokey")]
mod s_algokey;
#[cfg(feature = "part")]
mod s_part;
#[cfg(feature = "teal")]
mod s_teal;
#[cfg(feature = "account")]
mod s_account;
#[cfg(feature = "rewards")]
mod s_rewards;

#[cfg(feature = "kinds")]
mod s_kinds;
#[cfg(feature = "history")]
mod s_history;

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, BufWriter, Write};

pub trait Suite {
    /// Executes one operation; the returned value is the observation.
    fn step(&mut self, op: &Value) -> Value;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    #[cfg(feature = "chain")]
    if args.len() == 4 && args[1] == "mkconsensus" {
        return s_chain::mkconsensus(&args[2], &args[3]);
    }
    #[cfg(feature = "part")]
    if args.len() == 2 && args[1] == "part-child" {
        return s_part::child();
    }
    assert!(args.len() == 4, "usage: vharness SUITE SCRIPT OUT");
    std::panic::set_hook(Box::new(|_| {}));
    let mut suite: Box<dyn Suite> = match args[1].as_str() {
        #[cfg(feature = "chain")]
        "chain" => Box::new(s_chain::Chain::default()),
        #[cfg(feature = "history")]
        "history" => Box::new(s_history::History::default()),
        #[cfg(feature = "rewards")]
        "rewards" => Box::new(s_rewards::Rewards::default()),
        #[cfg(feature = "account")]
        "account" => Box::new(s_account::Account::default()),
        #[cfg(feature = "teal")]
        "teal" => Box::new(s_teal::Teal::default()),
        #[cfg(feature = "wf")]
        "wf" => Box::new(s_wf::Wf::default()),
        #[cfg(feature = "refs")]
        "refs" => Box::new(s_refs::Refs::default()),
        #[cfg(feature = "ots")]
        "ots" => Box::new(s_ots::Ots::default()),
        #[cfg(feature = "multisig")]
        "multisig" => Box::new(s_msig::Multisig::default()),
        #[cfg(feature = "multisig")]
        "batch" => Box::new(s_msig::Batch::default()),
        #[cfg(feature = "cred")]
        "cred" => Box::new(s_cred::Cred::default()),
        #[cfg(feature = "text")]
        "text" => Box::new(s_text::Text::default()),
        #[cfg(feature = "params")]
        "params" => Box::new(s_params::Params::default()),
        #[cfg(feature = "files")]
        "files" => Box::new(s_files::Files::default()),
        #[cfg(feature = "genesis")]
        "genesis" => Box::new(s_genesis::Genesis::default()),
        #[cfg(feature = "codec")]
        "codec" => Box::new(s_codec::Codec::default()),
        #[cfg(feature = "vrf")]
        "vrf" => Box::new(s_vrf::Vrf::default()),
        #[cfg(feature = "algokey")]
        "algokey" => Box::new(s_algokey::Algokey::default()),
        #[cfg(feature = "part")]
        "part" => Box::new(s_part::Part::default()),
        #[cfg(feature = "payset")]
        "payset" => Box::new(s_payset::PaysetSuite::default()),
        #[cfg(feature = "marray")]
        "marray" => Box::new(s_marray::MArray::default()),
        #[cfg(feature = "trie")]
        "trie" => Box::new(s_trie::TrieSuite::default()),
        #[cfg(feature = "kinds")]
        "kinds" => Box::new(s_kinds::Kinds::default()),
        #[cfg(feature = "kinds")]
        "rounds" => Box::new(s_kinds::Rounds::default()),
        x => {
            eprintln!("unknown suite {}", x);
            std::process::exit(2);
        }
    };
    let inp = BufReader::new(std::fs::File::open(&args[2]).expect("script"));
    let mut out = BufWriter::new(std::fs::File::create(&args[3]).expect("out"));
    for line in inp.lines() {
        let line = line.expect("script line");
        if line.trim().is_empty() {
            continue;
        }
        let op: Value = serde_json::from_str(&line).expect("script json");
        util::choose_twin(&op);
        let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| suite.step(&op))) {
            Ok(v) => json!({ "obs": v }),
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".to_owned()
                };
                if m.starts_with("script:") {
                    eprintln!("{}: {}", m, line);
                    std::process::exit(2);
                }
                json!({ "obs": {"panic": true}, "msg": m })
            }
        };
        writeln!(out, "{}", res).unwrap();
        out.flush().unwrap();
    }
}
