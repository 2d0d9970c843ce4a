//! Building transactions from their description in a script.
use crate::util::*;
use algorsand::crypto::{self, CryptoHash};
use algorsand::data::basics::*;
use algorsand::data::transactions::*;
use serde_json::{json, Value};

pub fn address(v: &Value) -> Address {
    match s(v) {
        "cert" => *COMPACT_CERT_SENDER,
        x => addr(x),
    }
}

pub fn spec() -> SpecialAddresses {
    SpecialAddresses { fee_sink: addr("sink"), rewards_pool: addr("pool") }
}

pub fn hash(v: &Value) -> CryptoHash {
    CryptoHash(bytes32(s(v)))
}

pub fn vrf_pk(set: bool) -> crypto::VrfPublicKey {
    let raw = if set { bytes32("vrfpk") } else { [0; 32] };
    serde_json::from_value(json!(raw.to_vec())).unwrap()
}

pub fn text(v: &Value) -> String {
    let c = match u(&v["w"]) {
        1 => 'a',
        2 => 'é',
        3 => '一',
        _ => '😀',
    };
    std::iter::repeat(c).take(u(&v["n"]) as usize).collect()
}

pub fn schema(v: &Value) -> StateSchema {
    StateSchema { num_uint: u(&v["uint"]), num_byte_slice: u(&v["bytes"]) }
}

pub fn bytes(v: &Value) -> Vec<u8> {
    (0..u(v)).map(|i| (i % 251) as u8 + 1).collect()
}

pub fn header(v: &Value) -> Header {
    Header {
        sender: address(&v["sender"]),
        fee: MicroAlgos(u(&v["fee"])),
        first_valid: Round(u(&v["fv"])),
        last_valid: Round(u(&v["lv"])),
        note: bytes(&v["note"]),
        genesis_id: s(&v["gid"]).to_owned(),
        genesis_hash: hash(&v["gh"]),
        group: hash(&v["grp"]),
        lease: bytes32(s(&v["lease"])),
        rekey_to: address(&v["rekey"]),
    }
}

pub fn fields(v: &Value) -> TxFields {
    // values no rule looks at: the usual ones, or others
    let free = v.get("free").map_or(0, u) as usize;
    match s(&v["kind"]) {
        "pay" => TxFields::Payment(PaymentFields {
            receiver: address(&v["rcv"]),
            amount: MicroAlgos(u(&v["amt"])),
            close_remainder_to: match s(&v["close"]) {
                "none" => None,
                _ => Some(address(&v["close"])),
            },
        }),
        "keyreg" => TxFields::Keyreg(KeyregFields {
            vote_pk: if b(&v["votePk"]) { keypair("vote").public } else { Default::default() },
            selection_pk: vrf_pk(b(&v["selPk"])),
            vote_first: Round(u(&v["vf"])),
            vote_last: Round(u(&v["vl"])),
            vote_key_dilution: u(&v["dil"]),
            nonparticipation: b(&v["nonpart"]),
        }),
        "acfg" => TxFields::AssetConfig(AssetConfigFields {
            config_asset: [0, 5, u64::MAX, 0][free],
            asset_params: AssetParams {
                total: [7, 0, u64::MAX, 1][free],
                decimals: u(&v["dec"]) as u32,
                default_frozen: free == 1,
                unit_name: text(&v["unit"]),
                asset_name: text(&v["name"]),
                url: text(&v["url"]),
                metadata_hash: [free as u8; 32],
                manager: addr(["A", "zero", "B", "pool"][free]),
                reserve: addr(["zero", "zero", "B", "A"][free]),
                freeze: addr(["zero", "B", "zero", "A"][free]),
                clawback: addr(["zero", "B", "C", "zero"][free]),
            },
        }),
        "axfer" => TxFields::AssetTransfer(AssetTransferFields {
            transfer_asset: [4, 4, 0, u64::MAX][free],
            asset_amount: [9, 0, u64::MAX, 1][free],
            asset_sender: address(&v["asnd"]),
            asset_receiver: address(&v["rcv"]),
            asset_close_to: address(&v["closeTo"]),
        }),
        "afrz" => TxFields::AssetFreeze(AssetFreezeFields {
            freeze_account: address(&v["acct"]),
            freeze_asset: [4, 4, 0, u64::MAX][free],
            asset_frozen: free != 1,
        }),
        "appl" => TxFields::AppCall(app(v)),
        "cert" => TxFields::CompactCert(CompactCertFields {
            cert_round: Round([128, 0, u64::MAX, 129][free]),
            cert_type: algorsand::protocol::CompactCertType::Basic,
        }),
        x => panic!("script: no kind {}", x),
    }
}

pub fn app(v: &Value) -> AppCallFields {
    AppCallFields {
        application_id: AppIndex(u(&v["app"])),
        on_completion: match s(&v["oc"]) {
            "noop" => OnCompletion::NoOpOC,
            "optin" => OnCompletion::OptInOC,
            "closeout" => OnCompletion::CloseOutOC,
            "clear" => OnCompletion::ClearStateOC,
            "update" => OnCompletion::UpdateApplicationOC,
            "delete" => OnCompletion::DeleteApplicationOC,
            x => panic!("script: no completion {}", x),
        },
        application_args: arr(&v["args"]).iter().map(bytes).collect(),
        accounts: arr(&v["accts"]).iter().map(address).collect(),
        foreign_apps: arr(&v["fapps"]).iter().map(|x| AppIndex(u(x))).collect(),
        foreign_assets: arr(&v["fassets"]).iter().map(u).collect(),
        local_state_schema: schema(&v["ls"]),
        global_state_schema: schema(&v["gs"]),
        approval_program: bytes(&v["ap"]),
        clear_state_program: bytes(&v["cs"]),
        extra_program_pages: u(&v["epp"]) as u32,
    }
}

pub fn tx(v: &Value) -> Transaction {
    Transaction { header: header(v), fields: fields(v) }
}

// ------------------------------------------------------------------ whole objects, field by field

pub const KINDS: [&str; 7] = ["pay", "keyreg", "acfg", "axfer", "afrz", "appl", "cert"];

fn sig(n: u8) -> crypto::Signature {
    let mut x = [n; 64];
    x[63] = 0;
    crypto::Signature::from(x)
}

fn msig(n: u8) -> crypto::MultisigSignature {
    crypto::MultisigSignature {
        version: 1,
        threshold: 2,
        subsigs: vec![
            crypto::MultisigSubsig { key: keypair("m1").public, sig: Some(sig(n)) },
            crypto::MultisigSubsig { key: keypair("m2").public, sig: None },
        ],
    }
}

fn state_delta(keys: &[(&str, u64)]) -> StateDelta {
    let m: serde_json::Map<String, Value> = keys
        .iter()
        .map(|(k, n)| ((*k).to_owned(), json!({"action": "SetUint", "bytes": [], "uint": n})))
        .collect();
    serde_json::from_value(Value::Object(m)).unwrap()
}

/// A transaction of a kind with every field set, told apart from others by its id.
pub fn full_tx(kind: &str, id: u64) -> Transaction {
    let fields = match kind {
        "pay" => TxFields::Payment(PaymentFields { receiver: addr("B"), amount: MicroAlgos(7), close_remainder_to: Some(addr("C")) }),
        "keyreg" => TxFields::Keyreg(KeyregFields {
            vote_pk: keypair("vote").public,
            selection_pk: vrf_pk(true),
            vote_first: Round(9),
            vote_last: Round(90),
            vote_key_dilution: 4,
            nonparticipation: true,
        }),
        "acfg" => TxFields::AssetConfig(AssetConfigFields {
            config_asset: 3,
            asset_params: AssetParams {
                total: 7,
                decimals: 2,
                default_frozen: true,
                unit_name: "un".to_owned(),
                asset_name: "name".to_owned(),
                url: "http".to_owned(),
                metadata_hash: [5; 32],
                manager: addr("A"),
                reserve: addr("B"),
                freeze: addr("C"),
                clawback: addr("D"),
            },
        }),
        "axfer" => TxFields::AssetTransfer(AssetTransferFields {
            transfer_asset: 4,
            asset_amount: 9,
            asset_sender: addr("B"),
            asset_receiver: addr("C"),
            asset_close_to: addr("D"),
        }),
        "afrz" => TxFields::AssetFreeze(AssetFreezeFields { freeze_account: addr("B"), freeze_asset: 4, asset_frozen: true }),
        "appl" => TxFields::AppCall(AppCallFields {
            application_id: AppIndex(6),
            on_completion: OnCompletion::OptInOC,
            application_args: vec![vec![1, 2], vec![3]],
            accounts: vec![addr("B"), addr("C")],
            foreign_apps: vec![AppIndex(8), AppIndex(9)],
            foreign_assets: vec![10, 11],
            local_state_schema: StateSchema { num_uint: 1, num_byte_slice: 2 },
            global_state_schema: StateSchema { num_uint: 3, num_byte_slice: 4 },
            approval_program: vec![1, 2, 3],
            clear_state_program: vec![4, 5, 6],
            extra_program_pages: 1,
        }),
        "cert" => TxFields::CompactCert(CompactCertFields { cert_round: Round(128), cert_type: algorsand::protocol::CompactCertType::Basic }),
        x => panic!("script: no kind {}", x),
    };
    Transaction {
        header: Header {
            sender: addr("A"),
            fee: MicroAlgos(1000 + id),
            first_valid: Round(5),
            last_valid: Round(50),
            note: vec![1, 2, 3],
            genesis_id: "g".to_owned(),
            genesis_hash: CryptoHash(bytes32("h")),
            group: CryptoHash(bytes32("grp")),
            lease: bytes32("lease"),
            rekey_to: addr("R"),
        },
        fields,
    }
}

pub fn full_ad() -> ApplyData {
    let mut d = ApplyData {
        closing_amount: MicroAlgos(1),
        asset_closing_amount: 2,
        sender_rewards: MicroAlgos(3),
        receiver_rewards: MicroAlgos(4),
        close_rewards: MicroAlgos(5),
        eval_delta: EvalDelta {
            global_delta: state_delta(&[("a", 1), ("b", 2), ("c", 3), ("d", 4)]),
            local_deltas: Default::default(),
            logs: vec!["one".to_owned(), "two".to_owned()],
            inner_txs: Vec::new(),
        },
        config_asset: 6,
        application_id: AppIndex(7),
    };
    for i in 0..5 {
        d.eval_delta.local_deltas.insert(i, state_delta(&[("a", 1), ("b", 2), ("e", i)]));
    }
    d
}

pub fn full_stib(kind: &str, id: u64) -> SignedTxInBlock {
    SignedTxInBlock {
        tx: SignedTxWithAD {
            tx: SignedTx { sig: sig(1), msig: None, lsig: None, tx: full_tx(kind, id), auth_addr: addr("auth") },
            ad: full_ad(),
        },
        has_genesis_id: false,
        has_genesis_hash: false,
    }
}

/// Changes one thing about a stored transaction ("none": nothing).  The result always differs from
/// what `full_stib` gave, and from that of any other alteration of the same transaction.
pub fn alter(x: &mut SignedTxInBlock, what: &str) {
    let (st, ad) = (&mut x.tx.tx, &mut x.tx.ad);
    let h = &mut st.tx.header;
    match what {
        "none" => {}
        // the envelope
        "sig" => st.sig = sig(2),
        "nosig" => st.sig = sig(0),
        "msig" => st.msig = Some(msig(1)),
        "msig2" => st.msig = Some(msig(2)),
        "msig0" => st.msig = Some(Default::default()),
        "lsig" => st.lsig = Some(LogicSig { logic: vec![1], sig: sig(1), msig: msig(1), args: vec![vec![1]] }),
        "lsig2" => st.lsig = Some(LogicSig { logic: vec![1], sig: sig(1), msig: msig(1), args: vec![vec![1], vec![]] }),
        "auth" => st.auth_addr = addr("auth2"),
        "noauth" => st.auth_addr = Default::default(),
        // applied effects
        "noad" => *ad = Default::default(),
        "ad_close" => ad.closing_amount.0 += 10,
        "ad_aclose" => ad.asset_closing_amount += 10,
        "ad_srw" => ad.sender_rewards.0 += 10,
        "ad_rrw" => ad.receiver_rewards.0 += 10,
        "ad_crw" => ad.close_rewards.0 += 10,
        "ad_swap" => std::mem::swap(&mut ad.sender_rewards, &mut ad.receiver_rewards),
        "ad_global" => ad.eval_delta.global_delta = state_delta(&[("a", 1), ("b", 2), ("c", 3), ("d", 5)]),
        "ad_noglobal" => ad.eval_delta.global_delta = state_delta(&[]),
        "ad_local" => {
            ad.eval_delta.local_deltas.insert(4, state_delta(&[("a", 1), ("b", 2), ("e", 9)]));
        }
        "ad_local_ix" => {
            let d = ad.eval_delta.local_deltas.remove(&4).unwrap();
            ad.eval_delta.local_deltas.insert(5, d);
        }
        "ad_log" => ad.eval_delta.logs[1] = "twO".to_owned(),
        "ad_logs" => ad.eval_delta.logs = vec!["onetwo".to_owned()],
        "ad_inner" => ad.eval_delta.inner_txs.push(SignedTxWithAD { tx: full_stib("pay", 1).tx.tx, ad: Default::default() }),
        "ad_cfg" => ad.config_asset += 10,
        "ad_app" => ad.application_id.0 += 10,
        // common transaction fields
        "sender" => h.sender = addr("A2"),
        "nosender" => h.sender = Default::default(),
        "fee" => h.fee.0 += 500_000,
        "nofee" => h.fee.0 = 0,
        "fv" => h.first_valid.0 = 6,
        "fv0" => h.first_valid.0 = 0,
        "lv" => h.last_valid.0 = 51,
        "lv0" => h.last_valid.0 = 0,
        "fvlv" => {
            h.first_valid.0 = 50;
            h.last_valid.0 = 5;
        }
        "note" => h.note = vec![1, 2, 4],
        "nonote" => h.note = vec![],
        "note0" => h.note = vec![0],
        "grp" => h.group = CryptoHash(bytes32("grp2")),
        "nogrp" => h.group = Default::default(),
        "lease" => h.lease = bytes32("lease2"),
        "nolease" => h.lease = [0; 32],
        "grplease" => {
            h.lease = bytes32("grp");
            h.group = CryptoHash(bytes32("lease"));
        }
        "rekey" => h.rekey_to = addr("R2"),
        "norekey" => h.rekey_to = Default::default(),
        w => alter_fields(&mut st.tx.fields, w),
    }
}

/// All alterations that apply to every kind.
pub const COMMON: [&str; 42] = [
    "sig", "nosig", "msig", "msig2", "msig0", "lsig", "lsig2", "auth", "noauth", "noad", "ad_close", "ad_aclose", "ad_srw", "ad_rrw",
    "ad_crw", "ad_swap", "ad_global", "ad_noglobal", "ad_local", "ad_local_ix", "ad_log", "ad_logs", "ad_inner", "ad_cfg", "ad_app",
    "sender", "nosender", "fee", "nofee", "fv", "fv0", "lv", "lv0", "fvlv", "note", "nonote", "note0", "grp", "nogrp", "lease",
    "nolease", "grplease",
];

fn alter_fields(fields: &mut TxFields, what: &str) {
    match (fields, what) {
        (TxFields::Payment(f), "rcv") => f.receiver = addr("B2"),
        (TxFields::Payment(f), "norcv") => f.receiver = Default::default(),
        (TxFields::Payment(f), "amt") => f.amount.0 = 8,
        (TxFields::Payment(f), "noamt") => f.amount.0 = 0,
        (TxFields::Payment(f), "close") => f.close_remainder_to = Some(addr("C2")),
        (TxFields::Payment(f), "noclose") => f.close_remainder_to = None,
        (TxFields::Payment(f), "rcvclose") => {
            f.receiver = addr("C");
            f.close_remainder_to = Some(addr("B"));
        }
        (TxFields::Keyreg(f), "votePk") => f.vote_pk = keypair("vote2").public,
        (TxFields::Keyreg(f), "novotePk") => f.vote_pk = Default::default(),
        (TxFields::Keyreg(f), "selPk") => f.selection_pk = vrf_pk(false),
        (TxFields::Keyreg(f), "vf") => f.vote_first.0 = 10,
        (TxFields::Keyreg(f), "vl") => f.vote_last.0 = 91,
        (TxFields::Keyreg(f), "dil") => f.vote_key_dilution = 5,
        (TxFields::Keyreg(f), "nonpart") => f.nonparticipation = false,
        (TxFields::AssetConfig(f), "asset") => f.config_asset = 0,
        (TxFields::AssetConfig(f), "total") => f.asset_params.total = 8,
        (TxFields::AssetConfig(f), "dec") => f.asset_params.decimals = 3,
        (TxFields::AssetConfig(f), "frozen") => f.asset_params.default_frozen = false,
        (TxFields::AssetConfig(f), "unit") => f.asset_params.unit_name = "uo".to_owned(),
        (TxFields::AssetConfig(f), "name") => f.asset_params.asset_name = "namf".to_owned(),
        (TxFields::AssetConfig(f), "url") => f.asset_params.url = "".to_owned(),
        (TxFields::AssetConfig(f), "unitname") => {
            f.asset_params.unit_name = "name".to_owned();
            f.asset_params.asset_name = "un".to_owned();
        }
        (TxFields::AssetConfig(f), "meta") => f.asset_params.metadata_hash = [0; 32],
        (TxFields::AssetConfig(f), "manager") => f.asset_params.manager = addr("A2"),
        (TxFields::AssetConfig(f), "reserve") => f.asset_params.reserve = Default::default(),
        (TxFields::AssetConfig(f), "freeze") => f.asset_params.freeze = addr("C2"),
        (TxFields::AssetConfig(f), "clawback") => f.asset_params.clawback = addr("D2"),
        (TxFields::AssetTransfer(f), "asset") => f.transfer_asset = 5,
        (TxFields::AssetTransfer(f), "amt") => f.asset_amount = 0,
        (TxFields::AssetTransfer(f), "snd") => f.asset_sender = Default::default(),
        (TxFields::AssetTransfer(f), "rcv") => f.asset_receiver = addr("C2"),
        (TxFields::AssetTransfer(f), "close") => f.asset_close_to = addr("D2"),
        (TxFields::AssetTransfer(f), "sndrcv") => std::mem::swap(&mut f.asset_sender, &mut f.asset_receiver),
        (TxFields::AssetFreeze(f), "acct") => f.freeze_account = addr("B2"),
        (TxFields::AssetFreeze(f), "asset") => f.freeze_asset = 5,
        (TxFields::AssetFreeze(f), "frozen") => f.asset_frozen = false,
        (TxFields::AppCall(f), "app") => f.application_id.0 = 0,
        (TxFields::AppCall(f), "oc") => f.on_completion = OnCompletion::DeleteApplicationOC,
        (TxFields::AppCall(f), "oc0") => f.on_completion = OnCompletion::NoOpOC,
        (TxFields::AppCall(f), "args") => f.application_args = vec![vec![1, 2], vec![4]],
        (TxFields::AppCall(f), "argsplit") => f.application_args = vec![vec![1], vec![2, 3]],
        (TxFields::AppCall(f), "argempty") => f.application_args = vec![vec![1, 2], vec![3], vec![]],
        (TxFields::AppCall(f), "accts") => f.accounts.reverse(),
        (TxFields::AppCall(f), "acct1") => f.accounts.truncate(1),
        (TxFields::AppCall(f), "fapps") => f.foreign_apps.reverse(),
        (TxFields::AppCall(f), "fassets") => f.foreign_assets.reverse(),
        (TxFields::AppCall(f), "refs") => {
            f.foreign_apps = vec![AppIndex(10), AppIndex(11)];
            f.foreign_assets = vec![8, 9];
        }
        (TxFields::AppCall(f), "ls") => f.local_state_schema.num_uint = 0,
        (TxFields::AppCall(f), "lsx") => f.local_state_schema = StateSchema { num_uint: 2, num_byte_slice: 1 },
        (TxFields::AppCall(f), "gs") => f.global_state_schema.num_byte_slice = 5,
        (TxFields::AppCall(f), "lsgs") => std::mem::swap(&mut f.local_state_schema, &mut f.global_state_schema),
        (TxFields::AppCall(f), "ap") => f.approval_program = vec![1, 2, 4],
        (TxFields::AppCall(f), "cs") => f.clear_state_program = vec![],
        (TxFields::AppCall(f), "apcs") => {
            f.approval_program = vec![1, 2, 3, 4];
            f.clear_state_program = vec![5, 6];
        }
        (TxFields::AppCall(f), "epp") => f.extra_program_pages = 0,
        (TxFields::CompactCert(f), "round") => f.cert_round.0 = 256,
        (_, w) => panic!("script: no alteration {}", w),
    }
}

pub fn alterations(kind: &str) -> Vec<&'static str> {
    let mut v = COMMON.to_vec();
    v.push("rekey");
    v.push("norekey");
    v.extend(match kind {
        "pay" => vec!["rcv", "norcv", "amt", "noamt", "close", "noclose", "rcvclose"],
        "keyreg" => vec!["votePk", "novotePk", "selPk", "vf", "vl", "dil", "nonpart"],
        "acfg" => vec!["asset", "total", "dec", "frozen", "unit", "name", "url", "unitname", "meta", "manager", "reserve", "freeze", "clawback"],
        "axfer" => vec!["asset", "amt", "snd", "rcv", "close", "sndrcv"],
        "afrz" => vec!["acct", "asset", "frozen"],
        "appl" => vec!["app", "oc", "oc0", "args", "argsplit", "argempty", "accts", "acct1", "fapps", "fassets", "refs", "ls", "lsx", "gs", "lsgs", "ap", "cs", "apcs", "epp"],
        "cert" => vec!["round"],
        x => panic!("script: no kind {}", x),
    });
    v
}

/// A stored transaction: {kind, id, v (alteration), gid, gh, fGid, fGh}
pub fn entry(v: &Value) -> SignedTxInBlock {
    let mut x = full_stib(s(&v["kind"]), u(&v["id"]));
    alter(&mut x, s(&v["v"]));
    x.tx.tx.tx.header.genesis_id = s(&v["gid"]).to_owned();
    x.tx.tx.tx.header.genesis_hash = hash(&v["gh"]);
    if let Some(g) = v.get("grp") {
        x.tx.tx.tx.header.group = hash(g);
    }
    x.has_genesis_id = b(&v["fGid"]);
    x.has_genesis_hash = b(&v["fGh"]);
    x
}

/// The genesis label of a value ("?" if it is none of them).
pub fn gh_label(x: &CryptoHash) -> &'static str {
    for l in ["zero", "h", "other"] {
        if x.0 == bytes32(l) {
            return l;
        }
    }
    "?"
}
