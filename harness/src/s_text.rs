//! Text forms (C19).  Runs in a directory with the word list under data/.
use crate::util::*;
use crate::Suite;
use algorsand::crypto::{mnemonic, CryptoHash, VrfPublicKey};
use algorsand::data::basics::{Address, Status};
use algorsand::data::transactions::TxID;
use serde_json::{json, Value};
use std::convert::TryFrom;
use std::str::FromStr;

#[derive(Default)]
pub struct Text {
    list: Vec<String>,
}

fn bytes(v: &Value) -> [u8; 32] {
    let mut o = [0; 32];
    for (i, x) in arr(v).iter().enumerate() {
        o[i] = u(x) as u8;
    }
    o
}

fn codes(t: &str) -> Value {
    json!(t.chars().map(|c| c as u32).collect::<Vec<_>>())
}

fn back<E>(r: Result<[u8; 32], E>) -> Value {
    match r {
        Ok(b) => json!({"ok": true, "b": b}),
        Err(_) => json!({"ok": false}),
    }
}

impl Suite for Text {
    fn step(&mut self, op: &Value) -> Value {
        match s(&op["a"]) {
            "init" => {
                self.list = std::fs::read_to_string("data/mnemonics_wordlist.txt").expect("script: word list").lines().map(|x| x.to_owned()).collect();
                json!("ready")
            }
            "print" => {
                let b = bytes(&op["b"]);
                codes(&match s(&op["kind"]) {
                    "address" => Address(b).to_string(),
                    "hash" => CryptoHash(b).to_string(),
                    "txid" => TxID(CryptoHash(b)).to_string(),
                    _ => serde_json::from_value::<VrfPublicKey>(json!(b)).unwrap().to_string(),
                })
            }
            "parse" => {
                let t: String = arr(&op["text"]).iter().map(|c| std::char::from_u32(u(c) as u32).expect("script: code point")).collect();
                match s(&op["kind"]) {
                    "address" => back(Address::from_str(&t).map(|x| x.0)),
                    "hash" => back(CryptoHash::try_from(t.as_str()).map(|x| x.0)),
                    _ => back(TxID::try_from(t.as_str()).map(|x| (x.0).0)),
                }
            }
            "words" => {
                let w: Vec<i64> = mnemonic::key_to_mnemonic(bytes(&op["b"]))
                    .iter()
                    .map(|x| self.list.iter().position(|y| x == y).map_or(-1, |i| i as i64))
                    .collect();
                json!(w)
            }
            "key" => {
                let w: Vec<String> = arr(&op["words"])
                    .iter()
                    .map(|x| match x.as_i64().unwrap() {
                        -1 => "zzz".to_owned(),
                        -2 => "".to_owned(),
                        -3 => self.list[0].to_uppercase(),
                        -4 => self.list[0][..4].to_owned(),
                        -5 => self.list[0].clone() + " ",
                        -6 => self.list[0].clone() + "x",
                        // a word slightly misspelt
                        i if i <= -3000 => {
                            let (w, how) = (&self.list[((-3000 - i) / 4) as usize], (-3000 - i) % 4);
                            let mut x = match how {
                                0 => w[..w.len().min(4)].to_owned(),
                                1 => w[..w.len() - 1].to_owned() + if w.ends_with('e') { "y" } else { "e" },
                                2 => w[..w.len() - 1].to_owned(),
                                _ => w[..1].to_uppercase() + &w[1..],
                            };
                            while self.list.contains(&x) {
                                x.push('q');
                            }
                            x
                        }
                        i if i < 0 => self.list[(-10 - i) as usize].to_uppercase(),
                        i => self.list[i as usize].clone(),
                    })
                    .collect();
                match s(&op["how"]) {
                    "list" => back(mnemonic::mnemonic_to_key(&w)),
                    "lines" => back(mnemonic::phrase_to_key(&format!("\n{}\r\n", w.join("\n\t ")))),
                    _ => back(mnemonic::phrase_to_key(&w.join(" "))),
                }
            }
            "status" => match Status::try_from(s(&op["text"])) {
                Ok(x) => json!({"ok": true, "b": x.to_string()}),
                Err(()) => json!({"ok": false}),
            },
            x => panic!("script: unknown operation {}", x),
        }
    }
}
