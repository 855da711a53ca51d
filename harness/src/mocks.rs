//! Scripted counterparties. Their ledgers are the ground truth the monitors compare the contracts with.
use crate::vm::{Action, PRes, Prom, Ret};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct Ft {
    pub bal: BTreeMap<String, u128>,
    /// ft_transfer to these accounts fails
    pub deny: BTreeSet<String>,
    /// every ft_transfer / ft_transfer_call fails
    pub fail: bool,
    pub is_wnear: bool,
    pub fail_near_withdraw: bool,
    /// extra view-like methods (rate providers)
    pub script: Script,
}

#[derive(Clone, Debug)]
pub enum Reply { Json(Value), Raw(Vec<u8>), Fail, Nothing }

#[derive(Clone, Debug)]
pub struct Answer { pub emit: Vec<(String, String, Value, u128)>, pub reply: Reply, pub forward_last: bool }
impl Answer {
    pub fn json(v: Value) -> Self { Answer { emit: vec![], reply: Reply::Json(v), forward_last: false } }
    pub fn fail() -> Self { Answer { emit: vec![], reply: Reply::Fail, forward_last: false } }
}

/// A contract that answers each method with a prepared reply and can emit calls of its own.
#[derive(Clone, Debug, Default)]
pub struct Script { pub answers: BTreeMap<String, Answer>, pub price_table: BTreeMap<String, Value> }

#[derive(Clone, Debug)]
pub enum Mock { Ft(Ft), Script(Script) }

pub type Out = (Ret, Vec<Prom>);

fn u(v: &Value) -> Result<u128, String> { v.as_str().ok_or("not a string")?.parse::<u128>().map_err(|e| e.to_string()) }
fn s(v: &Value) -> Result<String, String> { Ok(v.as_str().ok_or("not a string")?.to_string()) }
fn call(receiver: &str, method: &str, args: Value, deposit: u128, deps: Vec<usize>) -> Prom {
    Prom { receiver: receiver.into(), actions: vec![Action::Call { method: method.into(), args: args.to_string().into_bytes(), deposit, gas: 100_000_000_000_000 }], deps }
}

impl Mock {
    pub fn ft(&mut self) -> &mut Ft { match self { Mock::Ft(f) => f, _ => panic!() } }
    pub fn ft_ref(&self) -> &Ft { match self { Mock::Ft(f) => f, _ => panic!() } }
    pub fn script(&mut self) -> &mut Script { match self { Mock::Script(f) => f, _ => panic!() } }

    pub fn call(&mut self, me: &str, pred: &str, method: &str, args: &[u8], deposit: u128, _balance: u128, ts: u64, results: &[PRes]) -> Result<Out, String> {
        let a: Value = if args.is_empty() { Value::Null } else { serde_json::from_slice(args).map_err(|e| e.to_string())? };
        match self {
            Mock::Ft(f) => if f.script.answers.contains_key(method) { f.script.call(method, &a, ts) } else { f.call(me, pred, method, &a, deposit, results) },
            Mock::Script(x) => x.call(method, &a, ts),
        }
    }
}

impl Ft {
    fn mv(&mut self, from: &str, to: &str, amount: u128) -> Result<(), String> {
        if self.fail { return Err("token: transfers disabled".into()); }
        if self.deny.contains(to) { return Err("token: receiver denied".into()); }
        if amount == 0 { return Err("token: amount must be positive".into()); }
        if from == to { return Err("token: self transfer".into()); }
        let fb = *self.bal.get(from).ok_or("token: sender not registered")?;
        if fb < amount { return Err("token: not enough balance".into()); }
        if !self.bal.contains_key(to) { return Err("token: receiver not registered".into()); }
        self.bal.insert(from.into(), fb - amount);
        *self.bal.get_mut(to).unwrap() += amount;
        Ok(())
    }
    fn call(&mut self, me: &str, pred: &str, method: &str, a: &Value, deposit: u128, results: &[PRes]) -> Result<Out, String> {
        match method {
            "ft_transfer" => {
                if deposit != 1 { return Err("token: one yocto".into()); }
                self.mv(pred, &s(&a["receiver_id"])?, u(&a["amount"])?)?;
                Ok((Ret::None, vec![]))
            }
            "ft_transfer_call" => {
                if deposit != 1 { return Err("token: one yocto".into()); }
                let (to, amount) = (s(&a["receiver_id"])?, u(&a["amount"])?);
                self.mv(pred, &to, amount)?;
                let p0 = call(&to, "ft_on_transfer", json!({"sender_id": pred, "amount": amount.to_string(), "msg": a["msg"].as_str().unwrap_or("")}), 0, vec![]);
                let p1 = call(me, "ft_resolve_transfer", json!({"sender_id": pred, "receiver_id": to, "amount": amount.to_string()}), 0, vec![0]);
                Ok((Ret::Promise(1), vec![p0, p1]))
            }
            "ft_resolve_transfer" => {
                if pred != me { return Err("private".into()); }
                let (sender, to, amount) = (s(&a["sender_id"])?, s(&a["receiver_id"])?, u(&a["amount"])?);
                let unused = match results.get(0) {
                    Some(PRes::Ok(v)) => match serde_json::from_slice::<Value>(v).ok().and_then(|v| v.as_str().and_then(|x| x.parse::<u128>().ok())) { Some(x) => x.min(amount), None => amount },
                    _ => amount,
                };
                let mut refund = 0;
                if unused > 0 {
                    let have = *self.bal.get(&to).unwrap_or(&0);
                    refund = unused.min(have);
                    if refund > 0 && self.bal.contains_key(&sender) { *self.bal.get_mut(&to).unwrap() -= refund; *self.bal.get_mut(&sender).unwrap() += refund; }
                }
                Ok((Ret::Value(format!("\"{}\"", amount - refund).into_bytes()), vec![]))
            }
            "storage_deposit" => { let id = a["account_id"].as_str().unwrap_or(pred); self.bal.entry(id.into()).or_insert(0); Ok((Ret::None, vec![])) }
            "near_deposit" if self.is_wnear => { *self.bal.entry(pred.into()).or_insert(0) += deposit; Ok((Ret::None, vec![])) }
            "near_withdraw" if self.is_wnear => {
                if deposit != 1 { return Err("token: one yocto".into()); }
                if self.fail_near_withdraw { return Err("wnear: disabled".into()); }
                let amount = u(&a["amount"])?;
                let b = *self.bal.get(pred).ok_or("wnear: not registered")?;
                if b < amount { return Err("wnear: not enough".into()); }
                self.bal.insert(pred.into(), b - amount);
                Ok((Ret::Promise(0), vec![Prom { receiver: pred.into(), actions: vec![Action::Transfer(amount + 1)], deps: vec![] }]))
            }
            _ => Err(format!("MethodNotFound: {}", method)),
        }
    }
    pub fn get(&self, id: &str) -> u128 { *self.bal.get(id).unwrap_or(&0) }
}

impl Script {
    fn call(&mut self, method: &str, a: &Value, ts: u64) -> Result<Out, String> {
        // price oracle with a table: answers only what was asked
        if method == "get_price_data" && !self.answers.contains_key(method) {
            let ids: Vec<String> = a["asset_ids"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
            let prices: Vec<Value> = ids.iter().map(|i| json!({"asset_id": i, "price": self.price_table.get(i).cloned().unwrap_or(Value::Null)})).collect();
            return Ok((Ret::Value(json!({"timestamp": ts.to_string(), "recency_duration_sec": 90, "prices": prices}).to_string().into_bytes()), vec![]));
        }
        if method == "get_price" && !self.answers.contains_key(method) {
            let id = a["price_identifier"].as_str().unwrap_or("");
            let mut v = self.price_table.get(id).cloned().unwrap_or(Value::Null);
            stamp(&mut v, ts);
            return Ok((Ret::Value(v.to_string().into_bytes()), vec![]));
        }
        if method == "list_prices_no_older_than" && !self.answers.contains_key(method) {
            let mut m = serde_json::Map::new();
            for x in a["price_ids"].as_array().cloned().unwrap_or_default() {
                let id = x.as_str().unwrap_or("").to_string();
                let mut v = self.price_table.get(&id).cloned().unwrap_or(Value::Null);
                stamp(&mut v, ts);
                m.insert(id, v);
            }
            return Ok((Ret::Value(Value::Object(m).to_string().into_bytes()), vec![]));
        }
        let ans = match self.answers.get(method) { Some(x) => x.clone(), None => return Err(format!("MethodNotFound: {}", method)) };
        let mut proms: Vec<Prom> = vec![];
        for (r, m, v, d) in &ans.emit { proms.push(call(r, m, v.clone(), *d, vec![])); }
        if ans.forward_last && !proms.is_empty() { let n = proms.len() - 1; return Ok((Ret::Promise(n), proms)); }
        match ans.reply {
            Reply::Json(v) => Ok((Ret::Value(v.to_string().into_bytes()), proms)),
            Reply::Raw(v) => Ok((Ret::Value(v), proms)),
            Reply::Nothing => Ok((Ret::None, proms)),
            Reply::Fail => Err("mock: scripted failure".into()),
        }
    }
}

/// `publish_time: "now"` is replaced by the current block time in seconds.
fn stamp(v: &mut Value, ts: u64) { if v["publish_time"] == json!("now") { v["publish_time"] = json!(ts / 1_000_000_000); } }
