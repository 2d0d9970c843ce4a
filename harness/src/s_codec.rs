//! Encodings and identifiers of whole objects (C22).
use crate::txs::hash;
use crate::util::*;
use crate::Suite;
use algorsand::crypto::{self, hash_obj, CryptoHash, Hashable};
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::genesis::verif_hooks as genesis;
use algorsand::data::bookkeeping::*;
use algorsand::data::committee::Seed;
use algorsand::data::transactions::*;
use algorsand::protocol::{self, CompactCertType, ConsensusVersion};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;

/// The description of an object: {w, k, base, d: [[field, value], ..], ord}
struct Desc<'a> {
    v: &'a Value,
    /// the fields asked for, with the number of values they take
    used: RefCell<Vec<(String, u64)>>,
}

impl Desc<'_> {
    /// the value of a field that takes `card` values
    fn n(&self, field: &str, card: u64) -> u64 {
        self.used.borrow_mut().push((field.to_owned(), card));
        let own = arr(&self.v["d"]).iter().find(|e| s(&e[0]) == field);
        let n = own.map_or_else(|| u(&self.v["base"]).min(card - 1), |e| u(&e[1]));
        assert!(n < card, "script: {} = {}", field, n);
        n
    }

    fn flag(&self, field: &str) -> bool {
        self.n(field, 2) == 1
    }

    fn num(&self, field: &str) -> u64 {
        [0, 1, u64::MAX, 128, 1 << 32, 1 << 63][self.n(field, 6) as usize]
    }

    fn num32(&self, field: &str) -> u32 {
        [0, 1, u32::MAX, 256][self.n(field, 4) as usize]
    }

    fn raw(&self, field: &str) -> [u8; 32] {
        pattern(self.n(field, 6))
    }

    fn addr(&self, field: &str) -> Address {
        Address(self.raw(field))
    }

    fn hash(&self, field: &str) -> CryptoHash {
        CryptoHash(self.raw(field))
    }

    fn text(&self, field: &str) -> String {
        ["", "a", "ab", "\0", "a ", "é"][self.n(field, 6) as usize].to_owned()
    }

    fn public(&self, field: &str) -> crypto::OTSVerifier {
        match self.n(field, 3) {
            0 => Default::default(),
            n => keypair(["A", "B"][n as usize - 1]).public,
        }
    }

    fn vrf_pk(&self, field: &str) -> crypto::VrfPublicKey {
        serde_json::from_value(json!(self.raw(field).to_vec())).unwrap()
    }

    fn version(&self, field: &str) -> ConsensusVersion {
        [ConsensusVersion::default(), ConsensusVersion::V7, ConsensusVersion::V25][self.n(field, 3) as usize]
    }

    fn schema(&self, uint: &str, bytes: &str) -> StateSchema {
        StateSchema { num_uint: self.num(uint), num_byte_slice: self.num(bytes) }
    }

    /// a map of these entries, inserted in one of several orders
    fn map<K: Hash + Eq + Clone, V: Clone>(&self, e: &[(K, V)]) -> HashMap<K, V> {
        collect(u(&self.v["ord"]), e)
    }

    fn done(&self) {
        for e in arr(&self.v["d"]) {
            assert!(self.used.borrow().iter().any(|(f, _)| f == s(&e[0])), "script: no field {}", e);
        }
    }
}

/// none, all or just one of the bytes set
fn pattern(n: u64) -> [u8; 32] {
    let mut x = bytes32(["zero", "A", "B", "", "", ""][n as usize]);
    match n {
        3 => x[31] = 1,
        4 => x[0] = 1,
        5 => x[16] = 1,
        _ => {}
    }
    x
}

fn collect<K: Hash + Eq + Clone, V: Clone>(ord: u64, e: &[(K, V)]) -> HashMap<K, V> {
    let mut e = e.to_vec();
    let mut m = HashMap::with_capacity(if ord == 2 { 1000 } else { 0 });
    match ord {
        1 => e.reverse(),
        2 => {
            let k = e.len() / 2;
            e.rotate_left(k)
        }
        3 => {
            // through intermediate states
            for (k, v) in &e {
                m.insert(k.clone(), v.clone());
                m.remove(k);
            }
            if let Some((k, v)) = e.last() {
                m.insert(k.clone(), v.clone());
            }
        }
        _ => {}
    }
    m.extend(e);
    m
}

// ------------------------------------------------------------------ transactions

fn header(d: &Desc) -> Header {
    Header {
        sender: d.addr("sender"),
        fee: MicroAlgos(d.num("fee")),
        first_valid: Round(d.num("fv")),
        last_valid: Round(d.num("lv")),
        note: [vec![], vec![0], vec![1, 2], vec![0, 0]][d.n("note", 4) as usize].clone(),
        genesis_id: d.text("gid"),
        genesis_hash: d.hash("gh"),
        group: d.hash("grp"),
        lease: d.raw("lease"),
        rekey_to: d.addr("rekey"),
    }
}

fn asset(d: &Desc) -> AssetParams {
    AssetParams {
        total: d.num("total"),
        decimals: d.num32("dec"),
        default_frozen: d.flag("frozen"),
        unit_name: d.text("unit"),
        asset_name: d.text("name"),
        url: d.text("url"),
        metadata_hash: d.raw("meta"),
        manager: d.addr("manager"),
        reserve: d.addr("reserve"),
        freeze: d.addr("freeze"),
        clawback: d.addr("clawback"),
    }
}

fn fields(kind: &str, d: &Desc) -> TxFields {
    match kind {
        "pay" => TxFields::Payment(PaymentFields {
            receiver: d.addr("rcv"),
            amount: MicroAlgos(d.num("amt")),
            close_remainder_to: [None, Some(addr("zero")), Some(addr("A")), Some(addr("B"))][d.n("close", 4) as usize],
        }),
        "keyreg" => TxFields::Keyreg(KeyregFields {
            vote_pk: d.public("votePk"),
            selection_pk: d.vrf_pk("selPk"),
            vote_first: Round(d.num("vf")),
            vote_last: Round(d.num("vl")),
            vote_key_dilution: d.num("dil"),
            nonparticipation: d.flag("nonpart"),
        }),
        "acfg" => TxFields::AssetConfig(AssetConfigFields { config_asset: d.num("asset"), asset_params: asset(d) }),
        "axfer" => TxFields::AssetTransfer(AssetTransferFields {
            transfer_asset: d.num("asset"),
            asset_amount: d.num("amt"),
            asset_sender: d.addr("snd"),
            asset_receiver: d.addr("rcv"),
            asset_close_to: d.addr("close"),
        }),
        "afrz" => TxFields::AssetFreeze(AssetFreezeFields {
            freeze_account: d.addr("acct"),
            freeze_asset: d.num("asset"),
            asset_frozen: d.flag("frz"),
        }),
        "appl" => {
            let ids = [vec![], vec![0], vec![1, 2], vec![2, 1]];
            let code = [vec![], vec![0], vec![1, 2], vec![1, 2, 0]];
            TxFields::AppCall(AppCallFields {
                application_id: AppIndex(d.num("app")),
                on_completion: match d.n("oc", 6) {
                    0 => OnCompletion::NoOpOC,
                    1 => OnCompletion::OptInOC,
                    2 => OnCompletion::CloseOutOC,
                    3 => OnCompletion::ClearStateOC,
                    4 => OnCompletion::UpdateApplicationOC,
                    _ => OnCompletion::DeleteApplicationOC,
                },
                application_args: [vec![], vec![vec![]], vec![vec![1, 2]], vec![vec![1], vec![2]], vec![vec![1, 2], vec![]]]
                    [d.n("args", 5) as usize]
                    .clone(),
                accounts: [vec![], vec![addr("zero")], vec![addr("A"), addr("B")], vec![addr("B"), addr("A")]][d.n("accts", 4) as usize]
                    .clone(),
                foreign_apps: ids[d.n("fapps", 4) as usize].iter().map(|i| AppIndex(*i)).collect(),
                foreign_assets: ids[d.n("fassets", 4) as usize].clone(),
                local_state_schema: d.schema("lsu", "lsb"),
                global_state_schema: d.schema("gsu", "gsb"),
                approval_program: code[d.n("ap", 4) as usize].clone(),
                clear_state_program: code[d.n("cs", 4) as usize].clone(),
                extra_program_pages: d.num32("epp"),
            })
        }
        "cert" => TxFields::CompactCert(CompactCertFields { cert_round: Round(d.num("round")), cert_type: CompactCertType::Basic }),
        x => panic!("script: no kind {}", x),
    }
}

fn tx(kind: &str, d: &Desc) -> Transaction {
    Transaction { header: header(d), fields: fields(kind, d) }
}

fn sig(n: u64) -> crypto::Signature {
    let mut x = [n as u8 % 3; 64];
    x[63] = 0;
    if n > 2 {
        x = [0; 64];
        x[[62, 0, 32][n as usize - 3]] = 1;
    }
    crypto::Signature::from(x)
}

fn subs(n: u64) -> Vec<crypto::MultisigSubsig> {
    let (a, b) = (keypair("A").public, keypair("B").public);
    let sub = |key, sig| crypto::MultisigSubsig { key, sig };
    match n {
        0 => vec![],
        1 => vec![sub(a, None)],
        2 => vec![sub(a, None), sub(b, None)],
        3 => vec![sub(b, None), sub(a, None)],
        4 => vec![sub(a, Some(sig(1))), sub(b, None)],
        5 => vec![sub(a, Some(sig(0))), sub(b, None)],
        _ => vec![sub(a, Some(sig(2))), sub(b, Some(sig(1)))],
    }
}

fn multisig(n: u64) -> crypto::MultisigSignature {
    match n {
        1 => Default::default(),
        n => crypto::MultisigSignature { version: 1, threshold: 2, subsigs: subs(n) },
    }
}

fn lsig(logic: &[u8], s: u64, m: u64, args: &[&[u8]]) -> Option<LogicSig> {
    Some(LogicSig { logic: logic.to_vec(), sig: sig(s), msig: multisig(m), args: args.iter().map(|a| a.to_vec()).collect() })
}

fn signed(kind: &str, d: &Desc) -> SignedTx {
    SignedTx {
        sig: sig(d.n("sig", 6)),
        msig: match d.n("msig", 7) {
            0 => None,
            n => Some(multisig(n)),
        },
        lsig: match d.n("lsig", 6) {
            0 => None,
            1 => lsig(&[], 0, 1, &[]),
            2 => lsig(&[1], 1, 1, &[&[1, 2]]),
            3 => lsig(&[1], 1, 1, &[&[1], &[2]]),
            4 => lsig(&[1], 1, 2, &[&[1, 2]]),
            _ => lsig(&[1], 2, 1, &[&[1, 2]]),
        },
        tx: tx(kind, d),
        auth_addr: d.addr("auth"),
    }
}

fn state_delta(d: &Desc, n: u64) -> StateDelta {
    let set = |action: &str, bytes: &[u8], uint: u64| json!({"action": action, "bytes": bytes, "uint": uint});
    let e = match n {
        0 => vec![],
        1 => vec![("a", set("SetUint", &[], 1))],
        2 => vec![("a", set("SetUint", &[], u64::MAX)), ("b", set("SetBytes", &[1], 0)), ("", set("Delete", &[], 0))],
        3 => vec![("b", set("SetUint", &[], 1))],
        4 => vec![("a", set("SetBytes", &[], 1))],
        5 => vec![("a", set("Delete", &[], 1))],
        _ => vec![("a", set("SetUint", &[1], 1))],
    };
    // entries read one after the other are inserted in that order
    let mut text = "{".to_owned();
    let mut order: Vec<usize> = (0..e.len()).collect();
    match u(&d.v["ord"]) {
        0 => {}
        1 => order.reverse(),
        _ => {
            let k = e.len() / 2;
            order.rotate_left(k)
        }
    }
    for i in order {
        text += &format!("{}{}:{}", if text.len() > 1 { "," } else { "" }, json!(e[i].0), e[i].1);
    }
    serde_json::from_str(&(text + "}")).unwrap()
}

fn effects(d: &Desc) -> ApplyData {
    let inner = |id: &str, n: u64| {
        let v = json!({"d": [["sender", n]], "base": 0, "ord": 0});
        let x = Desc { v: &v, used: Default::default() };
        SignedTxWithAD { tx: SignedTx { auth_addr: addr(id), ..signed("pay", &x) }, ad: Default::default() }
    };
    let nested = || {
        let mut x = inner("zero", 0);
        x.ad.eval_delta.inner_txs.push(inner("A", 1));
        x
    };
    ApplyData {
        closing_amount: MicroAlgos(d.num("adClose")),
        asset_closing_amount: d.num("adAclose"),
        sender_rewards: MicroAlgos(d.num("adSrw")),
        receiver_rewards: MicroAlgos(d.num("adRrw")),
        close_rewards: MicroAlgos(d.num("adCrw")),
        eval_delta: EvalDelta {
            global_delta: state_delta(d, d.n("adGlobal", 7)),
            local_deltas: match d.n("adLocal", 6) {
                0 => d.map(&[]),
                1 => d.map(&[(0, state_delta(d, 1))]),
                2 => d.map(&(0..9).map(|i| (i * 7919 % 256, state_delta(d, 2))).collect::<Vec<_>>()),
                3 => d.map(&[(1, state_delta(d, 1))]),
                4 => d.map(&[(0, state_delta(d, 0))]),
                _ => d.map(&[(0, state_delta(d, 1)), (1, state_delta(d, 2)), (u64::MAX, state_delta(d, 3))]),
            },
            logs: [vec![], vec!["".to_owned()], vec!["ab".to_owned()], vec!["a".to_owned(), "b".to_owned()], vec!["b".to_owned(), "a".to_owned()]]
                [d.n("adLogs", 5) as usize]
                .clone(),
            inner_txs: match d.n("adInner", 5) {
                0 => vec![],
                1 => vec![inner("zero", 0)],
                2 => vec![inner("A", 1), inner("zero", 0)],
                3 => vec![inner("zero", 0), inner("A", 1)],
                _ => vec![nested()],
            },
        },
        config_asset: d.num("adCfg"),
        application_id: AppIndex(d.num("adApp")),
    }
}

fn stored(kind: &str, d: &Desc) -> SignedTxInBlock {
    SignedTxInBlock {
        tx: SignedTxWithAD { tx: signed(kind, d), ad: effects(d) },
        has_genesis_id: d.flag("hasId"),
        has_genesis_hash: d.flag("hasHash"),
    }
}

// ------------------------------------------------------------------ other objects

fn block_header(d: &Desc) -> BlockHeader {
    let cert = |voters: &str, total, next| CompactCertState {
        compactcert_voters: CryptoHash(bytes32(voters)),
        compactcert_voters_total: MicroAlgos(total),
        compactcert_next_round: Round(next),
    };
    BlockHeader {
        round: Round(d.num("round")),
        branch: d.hash("branch"),
        seed: Seed(d.raw("seed")),
        tx_root: d.hash("txRoot"),
        timestamp: d.num("ts"),
        genesis_id: d.text("gid"),
        genesis_hash: d.hash("gh"),
        rewards_state: RewardsState {
            fee_sink: d.addr("sink"),
            rewards_pool: d.addr("pool"),
            rewards_level: d.num("level"),
            rewards_rate: d.num("rate"),
            rewards_residue: d.num("residue"),
            rewards_recalculation_round: Round(d.num("recalc")),
        },
        upgrade_state: UpgradeState {
            current_protocol: d.version("cur"),
            next_protocol: [None, Some(ConsensusVersion::default()), Some(ConsensusVersion::V7), Some(ConsensusVersion::V25)]
                [d.n("next", 4) as usize],
            next_protocol_approvals: d.num("approvals"),
            next_protocol_vote_before: Round(d.num("before")),
            next_protocol_switch_on: Round(d.num("switch")),
        },
        upgrade_vote: UpgradeVote {
            upgrade_propose: d.version("propose"),
            upgrade_delay: Round(d.num("delay")),
            upgrade_approve: d.flag("approve"),
        },
        tx_counter: d.num("counter"),
        compact_certs: match d.n("certs", 5) {
            0 => d.map(&[]),
            1 => d.map(&[(CompactCertType::Basic, cert("zero", 0, 0))]),
            2 => d.map(&[(CompactCertType::Basic, cert("A", 0, 0))]),
            3 => d.map(&[(CompactCertType::Basic, cert("zero", 1, 0))]),
            _ => d.map(&[(CompactCertType::Basic, cert("zero", 0, 1))]),
        },
    }
}

fn key_value(ord: u64, n: u64) -> TealKeyValue {
    let bytes = |b: &[u8]| json!({"teal_type": "Bytes", "bytes": b, "uint": 0});
    let uint = |n: u64| json!({"teal_type": "Uint", "bytes": [], "uint": n});
    let many: Vec<(String, Value)> = (0..9).map(|i| (format!("k{}", i * 7919 % 256), uint(i))).collect();
    let name = |k: &str, v: Value| (k.to_owned(), v);
    let mut e = match n {
        0 => vec![],
        1 => vec![name("a", uint(0))],
        2 => many,
        3 => vec![name("a", bytes(&[]))],
        4 => vec![name("b", uint(0))],
        5 => vec![name("a", uint(u64::MAX)), name("", bytes(&[1]))],
        6 => vec![name("", uint(u64::MAX)), name("a", bytes(&[1]))],
        _ => vec![name("a", bytes(&[1])), name("b", uint(0))],
    };
    match ord {
        0 => {}
        1 => e.reverse(),
        _ => {
            let k = e.len() / 2;
            e.rotate_left(k)
        }
    }
    let parts: Vec<String> = e.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
    serde_json::from_str(&format!("{{{}}}", parts.join(","))).unwrap()
}

fn account(d: &Desc) -> AccountData {
    let ord = u(&d.v["ord"]);
    let asset_of = |n: u64| {
        let v = json!({"d": [], "base": n, "ord": ord});
        asset(&Desc { v: &v, used: Default::default() })
    };
    let hold = |amount, frozen| AssetHolding { amount, frozen };
    let local = |s: u64, kv: u64| AppLocalState { schema: StateSchema { num_uint: s, num_byte_slice: 1 }, key_value: key_value(ord, kv) };
    let app = |a: &[u8], c: &[u8], kv: u64, l: u64, g: u64, e: u32| AppParams {
        approval_program: a.to_vec(),
        clear_state_program: c.to_vec(),
        global_state: key_value(ord, kv),
        state_schemas: StateSchemas {
            local_state_schema: StateSchema { num_uint: l, num_byte_slice: 0 },
            global_state_schema: StateSchema { num_uint: g, num_byte_slice: 0 },
        },
        extra_program_pages: e,
    };
    let id = AppIndex;
    let ids: Vec<u64> = (0..9).map(|i| i * 7919 % 256).collect();
    AccountData {
        status: [Status::Offline, Status::Online, Status::NotParticipating][d.n("status", 3) as usize],
        micro_algos: MicroAlgos(d.num("algos")),
        rewards_base: d.num("rbase"),
        rewarded_micro_algos: MicroAlgos(d.num("rewarded")),
        vote_id: d.public("votePk"),
        selection_id: d.vrf_pk("selPk"),
        vote_first_valid: Round(d.num("vf")),
        vote_last_valid: Round(d.num("vl")),
        vote_key_dilution: d.num("dil"),
        asset_params: match d.n("assetParams", 5) {
            0 => d.map(&[]),
            1 => d.map(&[(1, asset_of(1))]),
            2 => d.map(&ids.iter().map(|i| (*i, asset_of(1))).collect::<Vec<_>>()),
            3 => d.map(&[(2, asset_of(1))]),
            _ => d.map(&[(1, asset_of(2))]),
        },
        assets: match d.n("assets", 6) {
            0 => d.map(&[]),
            1 => d.map(&[(1, hold(1, false))]),
            2 => d.map(&ids.iter().map(|i| (*i, hold(i * 3, true))).collect::<Vec<_>>()),
            3 => d.map(&[(1, hold(1, true))]),
            4 => d.map(&[(1, hold(1, false)), (2, hold(2, true))]),
            _ => d.map(&[(1, hold(2, true)), (2, hold(1, false))]),
        },
        auth_addr: d.addr("auth"),
        app_local_states: match d.n("locals", 6) {
            0 => d.map(&[]),
            1 => d.map(&[(id(1), local(0, 0))]),
            2 => d.map(&ids.iter().map(|i| (id(*i), local(*i, 2))).collect::<Vec<_>>()),
            3 => d.map(&[(id(2), local(0, 0))]),
            4 => d.map(&[(id(1), local(1, 0))]),
            _ => d.map(&[(id(1), local(0, 1))]),
        },
        app_params: match d.n("apps", 7) {
            0 => d.map(&[]),
            1 => d.map(&[(id(1), app(&[1], &[2], 0, 1, 2, 0))]),
            2 => d.map(&ids.iter().map(|i| (id(*i), app(&[], &[], 2, 0, 0, 0))).collect::<Vec<_>>()),
            3 => d.map(&[(id(1), app(&[2], &[1], 0, 1, 2, 0))]),
            4 => d.map(&[(id(1), app(&[1], &[2], 1, 1, 2, 0))]),
            5 => d.map(&[(id(1), app(&[1], &[2], 0, 2, 1, 0))]),
            _ => d.map(&[(id(1), app(&[1], &[2], 0, 1, 2, 1))]),
        },
        total_app_schema: d.schema("schU", "schB"),
        total_extra_app_pages: d.num32("pages"),
    }
}

fn config(d: &Desc) -> Vec<u8> {
    let acct = |n| AccountData { micro_algos: MicroAlgos(n), ..Default::default() };
    let one = |a: &str, c: &str, n| (a.to_owned(), c.to_owned(), acct(n));
    let allocs = match d.n("allocs", 6) {
        0 => vec![],
        1 => vec![one("a", "", 1)],
        2 => vec![one("a", "b", 1), one("b", "a", 2)],
        3 => vec![one("b", "a", 2), one("a", "b", 1)],
        4 => vec![one("", "a", 1)],
        _ => vec![one("a", "", u64::MAX)],
    };
    genesis::encode_genesis(
        &d.text("schema"),
        d.text("network"),
        d.version("proto"),
        allocs,
        &d.text("rp"),
        &d.text("sink"),
        d.num("ts"),
        &d.text("comment"),
        d.flag("dev"),
    )
}

// ------------------------------------------------------------------ what is observed of an object

struct Seen {
    back: bool,
    enc: Vec<u8>,
    id: Option<CryptoHash>,
    decode: fn(&[u8]) -> bool,
}

fn reads<T: DeserializeOwned>(b: &[u8]) -> bool {
    protocol::decode::<T>(b).is_ok()
}

/// an object that is compared by its encoding
fn coded<T: Serialize + DeserializeOwned>(x: &T, id: Option<CryptoHash>) -> Seen {
    let enc = protocol::encode(x);
    let back = protocol::decode::<T>(&enc).map_or(false, |y| protocol::encode(&y) == enc);
    Seen { back: back && protocol::encode(x) == enc, enc, id, decode: reads::<T> }
}

fn equal<T: Serialize + DeserializeOwned + PartialEq>(x: &T, id: Option<CryptoHash>) -> Seen {
    let mut r = coded(x, id);
    r.back = r.back && protocol::decode::<T>(&r.enc).map_or(false, |y| y == *x);
    r
}

fn plain(id: CryptoHash) -> Seen {
    Seen { back: true, enc: vec![], id: Some(id), decode: |_| false }
}

fn reads_genesis(b: &[u8]) -> bool {
    genesis::recode(b).is_ok()
}

/// whether a logic signature knows its own size
fn measured(l: &LogicSig) -> bool {
    let mut n = l.logic.len();
    for a in &l.args {
        n += a.len();
    }
    l.len() == n && l.is_empty() == l.logic.is_empty()
}

fn observe(v: &Value) -> Seen {
    observe_fields(v).0
}

/// What is seen of an object, and the fields of its type.
fn observe_fields(v: &Value) -> (Seen, Vec<(String, u64)>) {
    let d = Desc { v, used: Default::default() };
    let k = s(&v["k"]);
    let r = match s(&v["w"]) {
        "tx" => {
            let x = tx(k, &d);
            equal(&x, Some(x.id().0))
        }
        "stx" => {
            let x = signed(k, &d);
            let mut r = equal(&x, Some(x.id().0));
            r.back = r.back && x.get_encoded_length() == r.enc.len() && x.lsig.as_ref().map_or(true, measured);
            r
        }
        "stib" => {
            let x = stored(k, &d);
            let mut r = equal(&x, Some(hash_obj(&x)));
            r.back = r.back && x.get_encoded_length() == r.enc.len();
            r
        }
        "header" => {
            let x = block_header(&d);
            let mut r = coded(&x, Some(hash_obj(&x)));
            let y: Result<BlockHeader, _> = protocol::decode(&r.enc);
            r.back = r.back && y.map_or(false, |y| hash_obj(&y) == hash_obj(&x) && y.round == x.round && y.upgrade_state == x.upgrade_state);
            r
        }
        "account" => coded(&account(&d), None),
        "record" => {
            let (enc, id, back) = algorsand::data::basics::user_balance::verif_hooks::record(d.addr("addr"), account(&d));
            Seen { back, enc, id: Some(id), decode: algorsand::data::basics::user_balance::verif_hooks::reads_record }
        }
        "genesis" => {
            let enc = config(&d);
            let r = genesis::recode(&enc);
            let back = r.as_ref().map_or(false, |x| x.0 == enc);
            let id = r.map_or(Default::default(), |x| x.2);
            Seen { back, enc, id: Some(id), decode: reads_genesis }
        }
        "vrf" => {
            let x = crypto::VrfKeypair::from_seed(d.raw("key"));
            equal(&x, None)
        }
        "vrfpk" => equal(&d.vrf_pk("key"), None),
        "pair" => {
            let x = keypair(["C", "A", "B"][d.n("key", 3) as usize]);
            coded(&x, None)
        }
        "msig" => {
            let x = crypto::MultisigSignature {
                version: [0, 1, 255][d.n("version", 3) as usize],
                threshold: [0, 1, 255][d.n("threshold", 3) as usize],
                subsigs: subs(d.n("subs", 7)),
            };
            equal(&x, None)
        }
        "kv" => coded(&key_value(u(&v["ord"]), d.n("kv", 8)), None),
        "ots1" => {
            let x = crypto::OTSSubkeyBatchID { sub_key_pk: d.public("key"), batch: d.num("batch") };
            coded(&x, Some(hash_obj(&x)))
        }
        "ots2" => {
            let x = crypto::OTSSubkeyOffsetID { sub_key_pk: d.public("key"), batch: d.num("batch"), offset: d.num("offset") };
            coded(&x, Some(hash_obj(&x)))
        }
        "app" => {
            let x = AppIndex(d.num("n"));
            equal(&x, Some(hash_obj(&x)))
        }
        "seed" => {
            let x = Seed(d.raw("v"));
            coded(&x, Some(hash_obj(&x)))
        }
        "group" => {
            let (a, b) = (CryptoHash(bytes32("A")), CryptoHash(bytes32("B")));
            let q = match d.n("q", 7) {
                0 => vec![],
                1 => vec![a],
                2 => vec![a, b],
                3 => vec![b, a],
                4 => vec![a.clone(), a],
                5 => vec![CryptoHash::default()],
                _ => vec![CryptoHash::default(), CryptoHash::default()],
            };
            let id = algorsand::data::transactions::transaction::verif_hooks::group_id(q.clone());
            equal(&q, Some(id))
        }
        "node" => plain(hash_obj(&crypto::layer::Pair { l: d.hash("l"), r: d.hash("r") })),
        "text" => {
            let x = match d.n("x", 6) {
                0 => String::new(),
                1 => "\0".to_owned(),
                2 => "\0\0\0\0\0\0\0\0".to_owned(),
                3 => "\0\0\0\0\0\0\0\u{1}".to_owned(),
                4 => "a".to_owned(),
                _ => "\u{80}".to_owned(),
            };
            plain(hash_obj(&x))
        }
        x => panic!("script: no type {}", x),
    };
    d.done();
    (r, d.used.into_inner())
}

#[derive(Default)]
pub struct Codec {
    _s: (),
}

fn label(seen: &mut HashMap<Vec<u8>, usize>, x: Vec<u8>, i: usize) -> usize {
    *seen.entry(x).or_insert(i)
}

/// What hashes an object, as a sequence of bytes.
fn prefixes() -> Vec<(&'static str, Vec<u8>)> {
    let v = json!({"d": [], "base": 0, "ord": 0});
    let d = Desc { v: &v, used: Default::default() };
    let of = |x: &dyn Fn() -> (protocol::HashID, Vec<u8>)| x().0.as_bytes().to_vec();
    let pk = || keypair("A").public;
    vec![
        ("tx", of(&|| tx("pay", &d).to_be_hashed())),
        ("stib", of(&|| stored("pay", &d).to_be_hashed())),
        ("payset", of(&|| Payset::default().to_be_hashed())),
        ("header", of(&|| block_header(&d).to_be_hashed())),
        ("leaf", of(&|| TxMerkleElem { tx: tx("pay", &d), stib: stored("pay", &d) }.to_be_hashed())),
        ("node", of(&|| crypto::layer::Pair { l: Default::default(), r: Default::default() }.to_be_hashed())),
        ("seed", of(&|| Seed::default().to_be_hashed())),
        ("app", of(&|| AppIndex(1).to_be_hashed())),
        ("text", of(&|| String::new().to_be_hashed())),
        ("ots1", of(&|| crypto::OTSSubkeyBatchID { sub_key_pk: pk(), batch: 0 }.to_be_hashed())),
        ("ots2", of(&|| crypto::OTSSubkeyOffsetID { sub_key_pk: pk(), batch: 0, offset: 0 }.to_be_hashed())),
        ("group", protocol::TX_GROUP.into()),
        ("genesis", protocol::GENESIS.into()),
        ("record", protocol::BALANCE_RECORD.into()),
        ("credential", protocol::CREDENTIAL.into()),
        ("special", protocol::SPECIAL_ADDR.into()),
        ("selector", protocol::AGREEMENT_SELECTOR.into()),
        ("bid", protocol::AUCTION_BID.into()),
        ("deposit", protocol::AUCTION_DEPOSIT.into()),
        ("outcomes", protocol::AUCTION_OUTCOMES.into()),
        ("auction", protocol::AUCTION_PARAMS.into()),
        ("settlement", protocol::AUCTION_SETTLEMENT.into()),
        ("coin", protocol::COMPACT_CERT_COIN.into()),
        ("part", protocol::COMPACT_CERT_PART.into()),
        ("certsig", protocol::COMPACT_CERT_SIG.into()),
        ("prio", protocol::NET_PRIO_RESPONSE.into()),
        ("payload", protocol::PAYLOAD.into()),
        ("program", protocol::PROGRAM.into()),
        ("data", protocol::PROGRAM_DATA.into()),
        ("proposer", protocol::PROPOSER_SEED.into()),
        ("test", protocol::TEST_HASHABLE.into()),
        ("vote", protocol::VOTE.into()),
    ]
}

impl Suite for Codec {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => json!("ready"),
            "list" => {
                let mut enc: HashMap<&str, HashMap<Vec<u8>, usize>> = HashMap::new();
                let mut ids = HashMap::new();
                let res = arr(&op["x"]).iter().enumerate().map(|(i, v)| {
                    let x = observe(v);
                    let e = match x.enc.is_empty() {
                        true => 0,
                        false => label(enc.entry(s(&v["w"])).or_default(), x.enc, i + 1),
                    };
                    let id = x.id.map_or(0, |h| label(&mut ids, h.0.to_vec(), i + 1));
                    json!({"back": x.back, "enc": e, "id": id})
                });
                Value::Array(res.collect())
            }
            "square" => {
                let mut v = json!({"w": op["w"], "k": op["k"], "base": op["base"], "d": [], "ord": 0});
                let (_, fields) = observe_fields(&v);
                let base = u(&op["base"]);
                let other = |i: usize| -> Vec<Value> {
                    let (f, c) = &fields[i];
                    (0..*c.min(&3)).filter(|x| *x != base.min(c - 1)).map(|x| json!([f, x])).collect()
                };
                let mut all = vec![json!([])];
                for i in 0..fields.len() {
                    for x in other(i) {
                        all.push(json!([x]));
                        for j in 0..i {
                            all.extend(other(j).into_iter().map(|y| json!([x, y])));
                        }
                    }
                }
                let (mut back, mut encs, mut ids) = (true, HashSet::new(), HashSet::new());
                for (i, d) in all.iter().enumerate() {
                    v["d"] = d.clone();
                    v["ord"] = json!(i % 4);
                    let x = observe(&v);
                    back &= x.back;
                    if !x.enc.is_empty() {
                        encs.insert(x.enc);
                    }
                    ids.extend(x.id.map(|h| h.0));
                }
                json!({"back": back, "objects": all.len(), "enc": encs.len(), "id": ids.len()})
            }
            "cut" => {
                let x = observe(&op["x"]);
                json!({"refused": (0..x.enc.len()).all(|n| !(x.decode)(&x.enc[..n]))})
            }
            "fields" => {
                let (_, f) = observe_fields(&json!({"w": op["w"], "k": op["k"], "base": 0, "d": [], "ord": 0}));
                Value::Object(f.into_iter().map(|(f, c)| (f, json!(c))).collect())
            }
            "prefixes" => Value::Array(prefixes().iter().map(|(n, p)| json!({"n": n, "p": p})).collect()),
            "ots" => {
                let mut x = crypto::OTSSecrets::generate(u(&op["start"]), u(&op["n"]));
                let fresh = protocol::encode(&x);
                let dil = u(&op["dil"]);
                x.delete_before(crypto::OTSIdentifier { batch: u(&op["batch"]), offset: u(&op["offset"]) }, dil);
                let y = coded(&x, None);
                let apart = fresh != protocol::encode(&crypto::OTSSecrets::generate(u(&op["start"]), u(&op["n"])));
                json!({"back": y.back && coded_again(&fresh), "apart": apart})
            }
            x => panic!("script: unknown operation {}", x),
        }
    }
}

fn coded_again(b: &[u8]) -> bool {
    protocol::decode::<crypto::OTSSecrets>(b).map_or(false, |y| protocol::encode(&y) == b)
}
