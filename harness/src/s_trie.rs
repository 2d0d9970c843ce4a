//! Merkle trie (C11).
use crate::util::*;
use crate::Suite;
use algorsand::crypto::merkletrie::{Bitset, InMemoryStorage, Node, NodeID, Storage, Trie};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

/// which call on the storage fails, and how
#[derive(Default)]
struct Fault {
    left: Option<u64>,
    how: String,
    hit: &'static str,
}

#[derive(Clone, Default)]
struct Store(Rc<RefCell<HashMap<NodeID, Vec<u8>>>>, Rc<RefCell<Fault>>);

impl Store {
    fn strikes(&self, what: &'static str) -> bool {
        let mut f = self.1.borrow_mut();
        if what == "store" && f.how != "io" {
            return false;
        }
        match f.left {
            Some(0) => {
                f.left = None;
                f.hit = what;
                true
            }
            Some(n) => {
                f.left = Some(n - 1);
                false
            }
            None => false,
        }
    }
    fn how(&self) -> String {
        self.1.borrow().how.clone()
    }
}

fn broken() -> std::io::Error {
    std::io::Error::from(std::io::ErrorKind::Other)
}

impl Storage for Store {
    fn store_node(&mut self, id: NodeID, content: &[u8]) -> Result<(), std::io::Error> {
        if self.strikes("store") {
            return Err(broken());
        }
        if content.is_empty() {
            self.0.borrow_mut().remove(&id);
        } else {
            self.0.borrow_mut().insert(id, content.to_vec());
        }
        Ok(())
    }
    fn load_node(&mut self, id: NodeID) -> Result<Option<Vec<u8>>, std::io::Error> {
        if self.strikes("load") {
            return match self.how().as_str() {
                "io" => Err(broken()),
                "gone" => Ok(None),
                _ => Ok(Some(vec![5, 1])),
            };
        }
        Ok(self.0.borrow().get(&id).cloned())
    }
    fn current_storage_size(&self) -> usize {
        self.0.borrow().values().map(|x| x.len()).sum()
    }
}

// instead of a set of elements, what is wrong: [[256]] nodes that cannot be read, 257 storages that differ,
// 258 two sets with one root, 259 a root of no known set, 260 an error, 261 a panic
pub struct TrieSuite {
    trie: Trie,
    /// the same trie on the repository's own storages
    others: Vec<Trie>,
    db: sled::Db,
    tree: sled::Tree,
    episode: u64,
    store: Store,
    /// root -> the set of which a new trie has that root
    names: HashMap<[u8; 32], Value>,
}

impl Default for TrieSuite {
    fn default() -> Self {
        let store = Store::default();
        let mut names = HashMap::new();
        names.insert([0; 32], json!([]));
        let db = sled::Config::new().temporary(true).path("trie.db").open().unwrap();
        let tree = db.open_tree("0").unwrap();
        TrieSuite { trie: Trie::new(store.clone()), others: Vec::new(), tree, db, episode: 0, store, names }
    }
}

fn elem(v: &Value) -> Vec<u8> {
    arr(v).iter().map(|x| u(x) as u8).collect()
}

/// the elements spelled by the nodes in a storage
fn spelled(t: &mut Trie) -> Result<Vec<Vec<u8>>, ()> {
    fn walk(st: &mut Box<dyn Storage>, id: NodeID, path: &[u8], out: &mut Vec<Vec<u8>>) -> Result<(), ()> {
        let raw = st.load_node(id).map_err(|_| ())?.ok_or(())?;
        let n = Node::deserialize(&raw).ok_or(())?;
        match n.children {
            None => out.push([path, &n.hash[..]].concat()),
            Some(cs) => {
                for (i, c) in cs.iter().enumerate() {
                    if let Some(c) = c {
                        walk(st, *c, &[path, &[i as u8]].concat(), out)?;
                    }
                }
            }
        }
        Ok(())
    }
    let mut out = Vec::new();
    if let Some(r) = t.root {
        walk(&mut t.cache.storage, r, &[], &mut out)?;
    }
    out.sort();
    Ok(out)
}

impl TrieSuite {
    fn kept(&mut self) -> Value {
        let k = match guard(|| spelled(&mut self.trie)) {
            Ok(Ok(k)) => k,
            _ => return json!([[256]]),
        };
        for t in self.others.iter_mut() {
            if guard(|| spelled(t)) != Ok(Ok(k.clone())) {
                return json!([[257]]);
            }
        }
        json!(k)
    }

    fn nodes(&self) -> Value {
        let n = self.store.0.borrow().len();
        // bytes in the in-memory storage, entries in the database
        let bytes = self.trie.cache.storage.current_storage_size();
        match n == self.tree.len() && self.others.iter().take(1).all(|t| t.cache.storage.current_storage_size() == bytes) {
            true => json!(n),
            false => json!(999_999),
        }
    }

    fn run(&mut self, f: impl Fn(&mut Trie) -> Result<bool, ()>) -> Value {
        let r = guard(|| f(&mut self.trie));
        for t in self.others.iter_mut() {
            if guard(|| f(t)) != r {
                return json!({"ok": "storages differ", "did": false, "nodes": 0});
            }
        }
        let nodes = self.nodes();
        match r {
            Ok(Ok(x)) => json!({"ok": "ok", "did": x, "nodes": nodes}),
            Ok(Err(_)) => json!({"ok": "err", "did": false, "nodes": nodes}),
            Err(_) => json!({"ok": "panic", "did": false, "nodes": nodes}),
        }
    }
}

/// the node that a script describes
fn node(op: &Value) -> Node {
    let mut n = Node { dirty: false, hash: elem(&op["hash"]), children: None };
    if b(&op["inner"]) {
        let mut cs = [None; 256];
        for k in arr(&op["kids"]) {
            cs[u(&k["at"]) as usize] = Some(u(&k["id"]));
        }
        n.children = Some(cs);
    }
    n
}

fn told(n: Option<Node>) -> Value {
    match n {
        None => json!({"k": "none", "hash": [], "inner": false, "kids": []}),
        Some(n) => {
            let kids: Vec<Value> = match n.children {
                None => vec![],
                Some(cs) => cs.iter().enumerate().filter_map(|(i, c)| c.map(|c| json!({"at": i, "id": big(c as u128)}))).collect(),
            };
            json!({"k": "ok", "hash": n.hash, "inner": n.children.is_some(), "kids": kids})
        }
    }
}

fn decoded(raw: &[u8]) -> Value {
    match guard(|| told(Node::deserialize(raw))) {
        Ok(v) => v,
        Err(_) => json!({"k": "panic", "hash": [], "inner": false, "kids": []}),
    }
}

impl Suite for TrieSuite {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.store = Store::default();
                self.trie = Trie::new(self.store.clone());
                self.others.clear();
                self.db.drop_tree(self.episode.to_string()).unwrap();
                self.episode += 1;
                self.tree = self.db.open_tree(self.episode.to_string()).unwrap();
                self.others = vec![Trie::new(InMemoryStorage::default()), Trie::new(self.tree.clone())];
                json!("ready")
            }
            "add" => {
                let e = elem(&op["e"]);
                self.run(|t| t.add(&e).map_err(|_| ()))
            }
            "del" => {
                let e = elem(&op["e"]);
                self.run(|t| t.delete(&e).map_err(|_| ()))
            }
            "root" => {
                let mut t = Trie::new(Store::default());
                for e in arr(&op["as"]) {
                    t.add(&elem(e)).unwrap();
                }
                let fresh = t.root_hash().unwrap().0;
                if *self.names.entry(fresh).or_insert(op["as"].clone()) != op["as"] {
                    return json!({"root": [[258]], "nodes": 0, "kept": []});
                }
                let root = match guard(|| self.trie.root_hash()) {
                    Ok(Ok(h)) => self.names.get(&h.0).cloned().unwrap_or(json!([[259]])),
                    Ok(Err(_)) => json!([[260]]),
                    Err(_) => json!([[261]]),
                };
                for t in self.others.iter_mut() {
                    match guard(|| t.root_hash().map_err(|_| ())) {
                        Ok(Ok(h)) if self.names.get(&h.0) == Some(&root) => {}
                        _ => return json!({"root": [[257]], "nodes": 0, "kept": []}),
                    }
                }
                json!({"root": root, "nodes": self.nodes(), "kept": self.kept()})
            }
            "fault" => {
                let what = s(&op["what"]).to_owned();
                let e = elem(&op["e"]);
                let act = |t: &mut Trie| match what.as_str() {
                    "add" => t.add(&e).map_err(|_| ()),
                    "del" => t.delete(&e).map_err(|_| ()),
                    "root" => t.root_hash().map(|_| true).map_err(|_| ()),
                    x => panic!("script: fault in {}", x),
                };
                *self.store.1.borrow_mut() = Fault { left: Some(u(&op["at"])), how: s(&op["how"]).to_owned(), hit: "no" };
                let r = guard(|| act(&mut self.trie));
                let hit = std::mem::take(&mut *self.store.1.borrow_mut()).hit;
                if r.is_ok() && r != Ok(Err(())) {
                    for t in self.others.iter_mut() {
                        if guard(|| act(t)) != r {
                            return json!({"ok": "storages differ", "did": false, "hit": hit});
                        }
                    }
                }
                match r {
                    Ok(Ok(x)) => json!({"ok": "ok", "did": x, "hit": hit}),
                    Ok(Err(_)) => json!({"ok": "err", "did": false, "hit": hit}),
                    Err(_) => json!({"ok": "panic", "did": false, "hit": hit}),
                }
            }
            "node" => {
                let mut raw = Vec::new();
                node(op).serialize(&mut raw);
                // what is left of it when the end is missing
                let short: Vec<Value> = (0..raw.len()).map(|n| decoded(&raw[..n])).collect();
                json!({"back": decoded(&raw), "cut": short.iter().any(|v| v["k"] == "panic")})
            }
            "raw" => {
                // bytes of unknown origin
                let v = decoded(&elem(&op["bytes"]));
                json!({"panic": v["k"] == "panic"})
            }
            "bits" => {
                let build = |l: &Value| {
                    let mut x = Bitset::default();
                    for o in arr(l) {
                        if b(&o["set"]) {
                            x.set_bit(u(&o["bit"]))
                        } else {
                            x.clear_bit(u(&o["bit"]))
                        }
                    }
                    x
                };
                let x = build(&op["ops"]);
                let bits: Vec<u64> = (0..256).filter(|i| x.bit(*i)).collect();
                json!({"bits": bits, "zero": x.is_zero(), "same": x == build(&op["other"])})
            }
            x => panic!("script: no operation {}", x),
        }
    }
}
