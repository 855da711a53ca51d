//! In-memory NEAR-like chain: accounts, receipts, promise joins, refunds, schedules.
use crate::mocks::Mock;
use crate::vm::{self, Action, Code, Ctx, PRes, Prom, Ret, Storage};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub const NEAR: u128 = 1_000_000_000_000_000_000_000_000;

#[derive(Clone)]
pub enum Kind { User, Wasm(Arc<Code>), Mock(Box<Mock>) }

#[derive(Clone)]
pub struct Account { pub balance: u128, pub storage: Arc<Storage>, pub usage: u64, pub kind: Kind,
    /// bumped whenever the storage changes
    pub ver: u64,
    cache: RefCell<ViewCache> }

/// Memoised views: a result stays valid until one of the storage records it read changes.
#[derive(Clone, Default)]
struct ViewCache { views: HashMap<(String, String), Rc<Value>>, by_key: HashMap<Vec<u8>, Vec<(String, String)>> }
impl ViewCache { fn dirty(&mut self, k: &[u8]) { if let Some(v) = self.by_key.remove(k) { for x in v { self.views.remove(&x); } } } }

#[derive(Clone, Debug)]
pub struct Receipt { pub id: usize, pub parent: Option<usize>, pub pred: String, pub signer: String, pub receiver: String, pub actions: Vec<Action>, pub deps: Vec<usize> }

#[derive(Clone, Debug)]
pub struct Ev {
    pub rid: usize, pub parent: Option<usize>, pub ts: u64, pub pred: String, pub receiver: String, pub method: String,
    pub args: String, pub deposit: u128, pub ok: Result<String, String>, pub logs: Vec<String>, pub created: Vec<usize>,
    /// storage accesses and bytes (contracts under test only)
    pub work: (u64, u64),
}

#[derive(Clone)]
pub struct Chain {
    pub accounts: BTreeMap<String, Account>,
    pub ts: u64, pub block: u64, pub dt: u64,
    pub pending: VecDeque<Receipt>,
    pub results: HashMap<usize, PRes>,
    forward: HashMap<usize, Vec<usize>>,
    pub next_id: usize,
    pub log: Vec<Ev>,
    pub errors: HashMap<usize, String>,
    pub calls_made: u64, work: (u64, u64),
    /// receipts executed with a refund of these deposits to the predecessor (bookkeeping for NEAR conservation)
    pub near_issued: u128,
}

enum Back { Full(Box<Account>), Light(u128, u64) }

pub fn is_system_fail(m: &str) -> bool { m.starts_with("instantiate") || m.starts_with("MethodNotFound") || m.starts_with("mem oob") }

impl Chain {
    pub fn new(ts: u64) -> Self {
        Chain { accounts: BTreeMap::new(), ts, block: 100, dt: 1_000_000_000, pending: VecDeque::new(), results: HashMap::new(), forward: HashMap::new(), next_id: 0, log: vec![], errors: HashMap::new(), calls_made: 0, work: (0, 0), near_issued: 0 }
    }
    pub fn add_user(&mut self, id: &str, balance: u128) { self.near_issued += balance; self.accounts.insert(id.into(), Account { balance, storage: Default::default(), usage: 182, kind: Kind::User, ver: 0, cache: Default::default() }); }
    pub fn add_wasm(&mut self, id: &str, code: Arc<Code>, balance: u128) { self.near_issued += balance; let usage = 182 + code.len as u64; self.accounts.insert(id.into(), Account { balance, storage: Default::default(), usage, kind: Kind::Wasm(code), ver: 0, cache: Default::default() }); }
    pub fn add_mock(&mut self, id: &str, m: Mock, balance: u128) { self.near_issued += balance; self.accounts.insert(id.into(), Account { balance, storage: Default::default(), usage: 182, kind: Kind::Mock(Box::new(m)), ver: 0, cache: Default::default() }); }
    pub fn mock(&mut self, id: &str) -> &mut Mock { match &mut self.accounts.get_mut(id).expect(id).kind { Kind::Mock(m) => m, _ => panic!("not a mock: {}", id) } }
    pub fn mock_ref(&self, id: &str) -> &Mock { match &self.accounts.get(id).expect(id).kind { Kind::Mock(m) => m, _ => panic!("not a mock: {}", id) } }
    pub fn bal(&self, id: &str) -> u128 { self.accounts[id].balance }

    /// Enqueue a transaction of `signer` (one receipt).
    pub fn send(&mut self, signer: &str, receiver: &str, method: &str, args: Value, deposit: u128) -> usize {
        self.send_raw(signer, receiver, method, args.to_string().into_bytes(), deposit)
    }
    pub fn send_raw(&mut self, signer: &str, receiver: &str, method: &str, args: Vec<u8>, deposit: u128) -> usize {
        let id = self.next_id; self.next_id += 1;
        let a = self.accounts.get_mut(signer).expect(signer);
        assert!(a.balance >= deposit, "harness: signer {} lacks NEAR", signer);
        a.balance -= deposit;
        self.pending.push_back(Receipt { id, parent: None, pred: signer.into(), signer: signer.into(), receiver: receiver.into(),
            actions: vec![Action::Call { method: method.into(), args, deposit, gas: 300_000_000_000_000 }], deps: vec![] });
        id
    }
    /// Replace an account's code (bytes that are no contract leave an account that answers nothing).
    pub fn set_code(&mut self, id: &str, bytes: &[u8]) {
        let a = self.accounts.get_mut(id).expect(id);
        let old = match &a.kind { Kind::Wasm(c) => c.len as u64, _ => 0 };
        a.kind = match vm::cached(bytes) { Some(c) => Kind::Wasm(c), None => Kind::User };
        a.usage = a.usage - old + match &a.kind { Kind::Wasm(c) => c.len as u64, _ => 0 };
        a.ver += 1; a.cache = Default::default();
    }
    /// Write storage records behind the contract's back (legacy formats).
    pub fn poke(&mut self, id: &str, recs: Vec<(Vec<u8>, Option<Vec<u8>>)>) {
        let a = self.accounts.get_mut(id).expect(id);
        let st = Arc::make_mut(&mut a.storage);
        for (k, v) in recs {
            if let Some(o) = st.remove(&k) { a.usage -= (k.len() + o.len() + 40) as u64; }
            if let Some(v) = v { a.usage += (k.len() + v.len() + 40) as u64; st.insert(k, v); }
        }
        a.ver += 1; a.cache = Default::default();
    }
    fn set_result(&mut self, id: usize, r: PRes) {
        let mut st = vec![id];
        while let Some(i) = st.pop() {
            self.results.insert(i, r.clone());
            if let Some(v) = self.forward.remove(&i) { st.extend(v); }
        }
    }
    /// Indices into `pending` of receipts that may run now (dependencies resolved; FIFO per sender/receiver pair).
    pub fn ready(&self) -> Vec<usize> {
        let mut out = vec![];
        let mut seen: Vec<(&str, &str)> = vec![];
        for (i, r) in self.pending.iter().enumerate() {
            if r.deps.iter().all(|d| self.results.contains_key(d)) {
                let k = (r.pred.as_str(), r.receiver.as_str());
                if r.deps.is_empty() && r.parent.is_some() {
                    if seen.contains(&k) { continue; }
                    seen.push(k);
                }
                out.push(i);
            }
        }
        out
    }
    /// Run everything in FIFO order.
    pub fn drain(&mut self) { let mut n = 0; while let Some(&i) = self.ready().first() { self.exec(i); n += 1; assert!(n < 10_000, "harness: receipt storm"); } }
    pub fn tx(&mut self, signer: &str, receiver: &str, method: &str, args: Value, deposit: u128) -> Result<Value, String> {
        let id = self.send(signer, receiver, method, args, deposit);
        self.drain();
        self.outcome(id)
    }
    /// Execute only the transaction's own receipt (its promises stay pending).
    pub fn tx_first(&mut self, signer: &str, receiver: &str, method: &str, args: Value, deposit: u128) -> (usize, Result<String, String>) {
        let id = self.send(signer, receiver, method, args, deposit);
        let i = self.pending.iter().position(|r| r.id == id).unwrap();
        let ev = self.exec(i);
        (id, self.log[ev].ok.clone())
    }
    pub fn outcome(&self, id: usize) -> Result<Value, String> {
        match self.results.get(&id) {
            None => Err("pending".into()),
            Some(PRes::Failed) => Err(self.errors.get(&id).cloned().unwrap_or_else(|| "failed".into())),
            Some(PRes::Ok(v)) => Ok(if v.is_empty() { Value::Null } else { serde_json::from_slice(v).unwrap_or(Value::String(String::from_utf8_lossy(v).to_string())) }),
        }
    }

    /// Execute pending[i]; returns the index of its log entry.
    pub fn exec(&mut self, i: usize) -> usize {
        let r = self.pending.remove(i).unwrap();
        self.ts += self.dt; self.block += 1; self.work = (0, 0);
        let results: Vec<PRes> = r.deps.iter().map(|d| self.results[d].clone()).collect();
        let total: u128 = r.actions.iter().map(|a| match a { Action::Call { deposit, .. } => *deposit, Action::Transfer(d) => *d, _ => 0 }).sum();
        let mut method = String::from("-"); let mut args = String::new(); let mut logs = vec![]; let mut created = vec![];
        let mut outcome: Result<Ret, String> = Ok(Ret::None);
        let mut new_receipts: Vec<Receipt> = vec![];
        if !self.accounts.contains_key(&r.receiver) {
            if let Some(Action::Call { method: m, args: a, .. }) = r.actions.first() { method = m.clone(); args = String::from_utf8_lossy(a).to_string(); }
            outcome = Err("AccountDoesNotExist".into());
        } else {
            let backup = { let a = &self.accounts[&r.receiver];
                // a wasm account's storage is only written once its (single) call has succeeded
                if r.actions.len() > 1 || matches!(a.kind, Kind::Mock(_)) { Back::Full(Box::new(a.clone())) } else { Back::Light(a.balance, a.usage) } };
            for act in &r.actions {
                match act {
                    Action::Transfer(d) => { method = "transfer".into(); self.accounts.get_mut(&r.receiver).unwrap().balance += *d; outcome = Ok(Ret::None); }
                    Action::Deploy(b) => { method = "deploy".into(); if r.pred != r.receiver { outcome = Err("deploy not allowed".into()); } else { self.set_code(&r.receiver, b); } }
                    Action::Other(n) => { method = n.to_string(); outcome = Err("unsupported action".into()); }
                    Action::Call { method: m, args: a, deposit, gas } => {
                        method = m.clone(); args = String::from_utf8_lossy(a).to_string();
                        match self.call_contract(&r, m, a, *deposit, *gas, results.clone()) {
                            Err(e) => outcome = Err(e),
                            Ok((ret, proms, l)) => {
                                logs.extend(l);
                                let base = self.next_id;
                                for (k, p) in proms.iter().enumerate() {
                                    new_receipts.push(Receipt { id: base + k, parent: Some(r.id), pred: r.receiver.clone(), signer: r.signer.clone(), receiver: p.receiver.clone(), actions: p.actions.clone(), deps: p.deps.iter().map(|d| base + d).collect() });
                                    created.push(base + k);
                                }
                                self.next_id += proms.len();
                                outcome = Ok(match ret { Ret::Promise(p) => Ret::Promise(base + p), x => x });
                            }
                        }
                    }
                }
                if outcome.is_err() { break; }
            }
            if outcome.is_err() {
                match backup { Back::Full(a) => { self.accounts.insert(r.receiver.clone(), *a); } Back::Light(b, u) => { let a = self.accounts.get_mut(&r.receiver).unwrap(); a.balance = b; a.usage = u; } }
                new_receipts.clear(); created.clear();
            }
        }
        let ok = match &outcome {
            Err(e) => {
                // deposits return to the predecessor
                if let Some(a) = self.accounts.get_mut(&r.pred) { a.balance += total; }
                self.errors.insert(r.id, e.clone());
                self.set_result(r.id, PRes::Failed);
                Err(e.clone())
            }
            Ok(ret) => {
                self.pending.extend(new_receipts);
                match ret {
                    Ret::None => { self.set_result(r.id, PRes::Ok(vec![])); Ok(String::new()) }
                    Ret::Value(v) => { let s = String::from_utf8_lossy(v).to_string(); self.set_result(r.id, PRes::Ok(v.clone())); Ok(s) }
                    Ret::Promise(p) => { self.forward.entry(*p).or_default().push(r.id); Ok(format!("<promise {}>", p)) }
                }
            }
        };
        self.log.push(Ev { rid: r.id, parent: r.parent, ts: self.ts, pred: r.pred, receiver: r.receiver, method, args, deposit: total, ok, logs, created, work: self.work });
        self.log.len() - 1
    }

    fn call_contract(&mut self, r: &Receipt, method: &str, args: &[u8], deposit: u128, gas: u64, results: Vec<PRes>) -> Result<(Ret, Vec<Prom>, Vec<String>), String> {
        self.calls_made += 1;
        let (ts, block) = (self.ts, self.block);
        let acc = self.accounts.get_mut(&r.receiver).unwrap();
        acc.balance += deposit;
        match &mut acc.kind {
            Kind::User => Err("CodeDoesNotExist".into()),
            Kind::Mock(m) => {
                let out = m.call(&r.receiver, &r.pred, method, args, deposit, acc.balance, ts, &results)?;
                let spent: u128 = out.1.iter().flat_map(|p| p.actions.iter()).map(|a| match a { Action::Call { deposit, .. } => *deposit, Action::Transfer(d) => *d, _ => 0 }).sum();
                if spent > acc.balance { return Err("mock balance exceeded".into()); }
                acc.balance -= spent;
                Ok((out.0, out.1, vec![]))
            }
            Kind::Wasm(code) => {
                let code = code.clone();
                let mut c = Ctx::new(&r.receiver, &r.signer, &r.pred, args.to_vec(), deposit, acc.balance, acc.storage.clone(), acc.usage);
                c.ts = ts; c.block = block; c.gas = gas.max(1); c.results = results; c.epoch = 1 + block / 43200;
                let out = vm::run(&code, method, &mut c);
                self.work.0 += c.work.0; self.work.1 += c.work.1;
                out?;
                // storage staking rule
                if c.balance < (c.usage as u128) * vm::STORAGE_AMOUNT_PER_BYTE { return Err("LackBalanceForState".into()); }
                let overlay = std::mem::take(&mut c.overlay);
                c.base = Default::default();
                acc.balance = c.balance; acc.usage = c.usage;
                if !overlay.is_empty() {
                    acc.ver += 1;
                    let st = Arc::make_mut(&mut acc.storage);
                    let mut cache = acc.cache.borrow_mut();
                    for (k, v) in overlay {
                        match v {
                            Some(v) => { if st.get(&k) != Some(&v) { cache.dirty(&k); st.insert(k, v); } }
                            None => { if st.remove(&k).is_some() { cache.dirty(&k); } }
                        }
                    }
                }
                Ok((std::mem::replace(&mut c.ret, Ret::None), std::mem::take(&mut c.proms), std::mem::take(&mut c.logs)))
            }
        }
    }

    pub fn view(&self, contract: &str, method: &str, args: Value) -> Result<Value, String> { self.view_rc(contract, method, args).map(|v| (*v).clone()) }
    pub fn view_rc(&self, contract: &str, method: &str, args: Value) -> Result<Rc<Value>, String> {
        let acc = self.accounts.get(contract).ok_or("no account")?;
        let code = match &acc.kind { Kind::Wasm(c) => c, _ => return Err("not wasm".into()) };
        let key = (method.to_string(), args.to_string());
        if let Some(v) = acc.cache.borrow().views.get(&key) { return Ok(v.clone()); }
        let mut c = Ctx::new(contract, contract, contract, key.1.clone().into_bytes(), 0, acc.balance, acc.storage.clone(), acc.usage);
        c.ts = self.ts; c.block = self.block; c.is_view = true; c.epoch = 1 + self.block / 43200;
        vm::run(code, method, &mut c)?;
        let v: Value = match &c.ret { Ret::Value(v) => serde_json::from_slice(v).map_err(|e| e.to_string())?, _ => Value::Null };
        let v = Rc::new(v);
        if !c.env_dep {
            let mut cache = acc.cache.borrow_mut();
            for k in std::mem::take(&mut c.reads) { cache.by_key.entry(k).or_default().push(key.clone()); }
            cache.views.insert(key, v.clone());
        }
        Ok(v)
    }
    /// View evaluated as if the next receipt were executing now (execution advances the clock by dt first).
    pub fn view_next(&self, contract: &str, method: &str, args: Value) -> Result<Value, String> { self.view_at(contract, method, args, self.ts + self.dt) }
    /// uncached
    pub fn view_at(&self, contract: &str, method: &str, args: Value, ts: u64) -> Result<Value, String> {
        let acc = self.accounts.get(contract).ok_or("no account")?;
        match &acc.kind {
            Kind::Wasm(code) => {
                let mut c = Ctx::new(contract, contract, contract, args.to_string().into_bytes(), 0, acc.balance, acc.storage.clone(), acc.usage);
                c.ts = ts; c.block = self.block + 1; c.is_view = true; c.epoch = 1 + self.block / 43200;
                vm::run(code, method, &mut c)?;
                match c.ret { Ret::Value(v) => serde_json::from_slice(&v).map_err(|e| e.to_string()), _ => Ok(Value::Null) }
            }
            _ => Err("not wasm".into()),
        }
    }
    pub fn total_near(&self) -> u128 {
        self.accounts.values().map(|a| a.balance).sum::<u128>()
            + self.pending.iter().flat_map(|r| r.actions.iter()).map(|a| match a { Action::Call { deposit, .. } => *deposit, Action::Transfer(d) => *d, _ => 0 }).sum::<u128>()
    }
}
