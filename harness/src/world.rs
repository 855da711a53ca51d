//! The exchange world: accounts, tokens, pools, oracles, and snapshots of everything the exchange reports.
use crate::chain::{Chain, Ev, NEAR};
use crate::mocks::{Answer, Ft, Mock, Script};
use crate::util::*;
use crate::vm::Code;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const EX: &str = "exchange.near";
pub const OWNER: &str = "owner.near";
pub const GUARD: &str = "guard.near";
pub const REF1: &str = "ref1.near";
pub const REF2: &str = "ref2.near";
pub const BOOST: &str = "boost.near";
pub const BURROW: &str = "burrow.near";
pub const ORACLE: &str = "oracle.near";
pub const PYTH: &str = "pyth.near";
pub const LIQ: &str = "liquidator.near";
pub const USERS: [&str; 4] = ["ua.near", "ub.near", "uc.near", "ud.near"];
pub const WNEAR: &str = "wrap.t";
pub const PREC24: u128 = 1_000_000_000_000_000_000_000_000;
pub const SEC: u64 = 1_000_000_000;
pub const DAY: u64 = 86_400 * SEC;
pub const PYTH_A: &str = "aa00000000000000000000000000000000000000000000000000000000000001";
pub const PYTH_B: &str = "bb00000000000000000000000000000000000000000000000000000000000002";

#[derive(Clone, Debug, PartialEq, Eq, Copy)]
pub enum PK { Simple, Stable, Rated, Degen }

#[derive(Clone, Debug, PartialEq)]
pub struct PoolS { pub kind: PK, pub tokens: Vec<String>, pub amounts: Vec<u128>, pub c: Vec<u128>, pub dec: Vec<u8>, pub fee: u32, pub supply: u128, pub amp: u64, pub rates: Vec<u128> }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
    pub dep: BTreeMap<String, BTreeMap<String, u128>>,
    pub storage: BTreeMap<String, (u128, u128)>,
    pub shares: Vec<BTreeMap<String, u128>>,
    pub shadow: BTreeMap<String, BTreeMap<u64, (u128, u128)>>,
    pub lost: BTreeMap<String, BTreeMap<String, u128>>,
    pub pools: Vec<PoolS>,
    pub vols: Vec<Vec<(U512, U512)>>,
    pub meta: Value,
    pub frozen: BTreeSet<String>,
    pub white: BTreeSet<String>,
    pub refs: BTreeMap<String, u128>,
    pub rated: Value,
    pub degen: Value,
    pub limits: Value,
}
impl Snap {
    pub fn deposit(&self, a: &str, t: &str) -> u128 { self.dep.get(a).and_then(|m| m.get(t)).copied().unwrap_or(0) }
    pub fn share(&self, p: usize, a: &str) -> u128 { self.shares.get(p).and_then(|m| m.get(a)).copied().unwrap_or(0) }
    pub fn lostf(&self, a: &str, t: &str) -> u128 { self.lost.get(a).and_then(|m| m.get(t)).copied().unwrap_or(0) }
    pub fn shad(&self, a: &str, p: u64) -> (u128, u128) { self.shadow.get(a).and_then(|m| m.get(&p)).copied().unwrap_or((0, 0)) }
    pub fn registered(&self, a: &str) -> bool { self.storage.contains_key(a) }
    pub fn free(&self, a: &str, p: usize) -> u128 { let (f, b) = self.shad(a, p as u64); self.share(p, a).saturating_sub(f.max(b)) }
    /// sum of everything the exchange says it owes in this token
    pub fn liabilities(&self, t: &str) -> u128 {
        let mut x = 0u128;
        for m in self.dep.values() { x += m.get(t).copied().unwrap_or(0); }
        for m in self.lost.values() { x += m.get(t).copied().unwrap_or(0); }
        for p in &self.pools { for (i, tk) in p.tokens.iter().enumerate() { if tk == t { x += p.amounts[i]; } } }
        x
    }
}

pub const F_DEP: u32 = 1; pub const F_SHARES: u32 = 2; pub const F_SHADOW: u32 = 4; pub const F_LOST: u32 = 8; pub const F_POOLS: u32 = 16;
pub const F_VOLS: u32 = 32; pub const F_META: u32 = 64; pub const F_STORAGE: u32 = 128; pub const F_PRICES: u32 = 256;
pub const F_MONEY: u32 = F_DEP | F_SHARES | F_LOST | F_POOLS | F_SHADOW;
pub const F_ALL: u32 = 511;

#[derive(Clone)]
pub struct World {
    pub ch: Chain,
    pub accts: Vec<String>,
    pub toks: BTreeMap<String, u8>,
    pub flags: u32,
    pub cached: Option<(u64, u32, u64, Arc<Snap>)>,
    /// pools that cannot be listed (a token of theirs has no price) keep the entry last read
    pub lenient: bool,
    pub oplog: Vec<String>,
    pub keep_oplog: bool,
}

#[derive(Clone)]
pub struct Codes { pub ex: Arc<Code>, pub farm: Arc<Code>, pub ex_bytes: Arc<Vec<u8>>, pub farm_bytes: Arc<Vec<u8>> }

pub struct Step { pub pre: Arc<Snap>, pub post: Arc<Snap>, pub ev: Ev, pub idx: usize }

pub fn pk_of(d: &Value) -> PK {
    if d.get("SimplePoolInfo").is_some() { PK::Simple } else if d.get("StablePoolInfo").is_some() { PK::Stable } else if d.get("RatedPoolInfo").is_some() { PK::Rated } else { PK::Degen }
}
pub fn parse_pool(d: &Value) -> PoolS {
    let kind = pk_of(d);
    let i = d.as_object().unwrap().values().next().unwrap();
    let g = |k: &str| -> Vec<u128> { i.get(k).map(nums).unwrap_or_default() };
    PoolS {
        kind, tokens: strs(&i["token_account_ids"]), amounts: g("amounts"), c: g("c_amounts"),
        dec: i.get("decimals").map(|v| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default(),
        fee: i["total_fee"].as_u64().unwrap() as u32, supply: num(&i["shares_total_supply"]), amp: i.get("amp").and_then(|x| x.as_u64()).unwrap_or(0),
        rates: if kind == PK::Rated { g("rates") } else if kind == PK::Degen { g("degens") } else { vec![] },
    }
}

pub struct ViewFail(pub String);

impl World {
    pub fn v(&self, m: &str, a: Value) -> Value { match self.ch.view(EX, m, a.clone()) { Ok(v) => v, Err(e) => std::panic::panic_any(ViewFail(format!("view {} {} failed: {}", m, a, e))) } }
    pub fn vc(&self, m: &str, a: Value) -> std::rc::Rc<Value> { match self.ch.view_rc(EX, m, a.clone()) { Ok(v) => v, Err(e) => std::panic::panic_any(ViewFail(format!("view {} {} failed: {}", m, a, e))) } }
    pub fn vr(&self, m: &str, a: Value) -> Result<Value, String> { self.ch.view(EX, m, a) }
    pub fn vnext(&self, m: &str, a: Value) -> Result<Value, String> { self.ch.view_next(EX, m, a) }

    pub fn snap(&mut self) -> Arc<Snap> { let f = self.flags; self.snap_with(f) }
    pub fn snap_with(&mut self, f: u32) -> Arc<Snap> {
        let st = self.ch.accounts[EX].ver;
        if let Some((p, fl, ts, s)) = &self.cached {
            // amplification and price validity depend on time; everything else only on storage
            if *p == st && *fl == f && (f & (F_PRICES | F_POOLS) == 0 || *ts == self.ch.ts) { return s.clone(); }
        }
        let s = Arc::new(self.read(f));
        self.cached = Some((st, f, self.ch.ts, s.clone()));
        s
    }
    pub fn read(&self, f: u32) -> Snap {
        let mut s = Snap::default();
        let n = self.vc("get_number_of_pools", json!({})).as_u64().unwrap();
        let ids: Vec<u64> = (0..n).collect();
        if f & (F_POOLS | F_SHARES) != 0 {
            let last = if self.lenient { self.cached.as_ref().map(|c| c.3.clone()).filter(|c| c.pools.len() as u64 == n) } else { None };
            s.pools = match (last, self.lenient && self.vr("get_pool_detail_infos", json!({"from_index":0,"limit":n})).is_err()) {
                (Some(last), true) => ids.iter().map(|i| match self.vr("get_pool_detail_info", json!({"pool_id":i})) { Ok(v) => parse_pool(&v), Err(_) => last.pools[*i as usize].clone() }).collect(),
                _ => self.vc("get_pool_detail_infos", json!({"from_index":0,"limit":n})).as_array().unwrap().iter().map(parse_pool).collect(),
            };
        }
        if f & F_SHARES != 0 { s.shares = vec![BTreeMap::new(); n as usize]; }
        for a in &self.accts {
            if f & F_STORAGE != 0 {
                let v = self.vc("get_user_storage_state", json!({"account_id":a}));
                if !v.is_null() { s.storage.insert(a.clone(), (num(&v["deposit"]), num(&v["usage"]))); }
            }
            if f & F_DEP != 0 {
                let v = self.vc("get_deposits", json!({"account_id":a}));
                let m: BTreeMap<String, u128> = v.as_object().unwrap().iter().map(|(k, x)| (k.clone(), num(x))).collect();
                if !m.is_empty() { s.dep.insert(a.clone(), m); }
            }
            if f & F_SHARES != 0 && n > 0 {
                let v = nums(&self.vc("get_pool_shares_batch", json!({"pool_ids":ids,"account_id":a})));
                for (i, x) in v.into_iter().enumerate() { if x > 0 { s.shares[i].insert(a.clone(), x); } }
            }
            if f & F_SHADOW != 0 {
                let v = self.vc("get_shadow_records", json!({"account_id":a}));
                let m: BTreeMap<u64, (u128, u128)> = v.as_object().unwrap().iter().map(|(k, x)| (k.parse().unwrap(), (num(&x["shadow_in_farm"]), num(&x["shadow_in_burrow"])))).collect();
                if !m.is_empty() { s.shadow.insert(a.clone(), m); }
            }
            if f & F_LOST != 0 {
                let v = self.vc("list_lostfound_tokens", json!({"account_id":a}));
                let m: BTreeMap<String, u128> = v.as_object().unwrap().iter().map(|(k, x)| (k.clone(), num(x))).collect();
                if !m.is_empty() { s.lost.insert(a.clone(), m); }
            }
        }
        if f & F_VOLS != 0 {
            s.vols = self.vc("list_pool_volumes", json!({"from_index":0,"limit":n})).as_array().unwrap().iter()
                .map(|p| p.as_array().unwrap().iter().map(|x| (U512::from_dec_str(x["input"].as_str().unwrap()).unwrap(), U512::from_dec_str(x["output"].as_str().unwrap()).unwrap())).collect()).collect();
        }
        if f & F_META != 0 {
            s.meta = self.v("metadata", json!({}));
            if let Some(o) = s.meta.as_object_mut() {
                for k in ["guardians", "auto_whitelisted_postfix"].iter() { let mut v = strs(&o[*k]); v.sort(); o.insert(k.to_string(), json!(v)); }
            }
            s.frozen = strs(&self.vc("get_frozenlist_tokens", json!({}))).into_iter().collect();
            s.white = strs(&self.vc("get_whitelisted_tokens", json!({}))).into_iter().collect();
            s.refs = self.vc("list_referrals", json!({})).as_object().unwrap().iter().map(|(k, x)| (k.clone(), num(x))).collect();
            s.limits = self.v("get_pool_limit_paged", json!({}));
        }
        if f & F_PRICES != 0 {
            s.rated = self.v("list_rated_tokens", json!({}));
            s.degen = self.vr("list_degen_tokens", json!({})).unwrap_or(Value::Null);
        }
        s
    }

    /// Execute one pending receipt and return what changed.
    pub fn exec(&mut self, i: usize) -> Step {
        let pre = self.snap();
        let idx = self.ch.exec(i);
        let post = self.snap();
        let ev = self.ch.log[idx].clone();
        if self.keep_oplog { self.oplog.push(fmt_ev(&ev)); }
        Step { pre, post, ev, idx }
    }
    /// Execute without snapshots.
    pub fn exec_fast(&mut self, i: usize) -> usize {
        let idx = self.ch.exec(i);
        if self.keep_oplog { let s = fmt_ev(&self.ch.log[idx]); self.oplog.push(s); }
        idx
    }
    pub fn pos(&self, rid: usize) -> Option<usize> { self.ch.pending.iter().position(|r| r.id == rid) }
    /// Send a transaction and execute every receipt FIFO; Err = the transaction's final outcome failed.
    pub fn tx(&mut self, signer: &str, recv: &str, m: &str, a: Value, dep: u128) -> Result<Value, String> {
        let id = self.ch.send(signer, recv, m, a, dep);
        self.drain();
        self.ch.outcome(id)
    }
    pub fn drain(&mut self) { let mut n = 0; while let Some(&i) = self.ch.ready().first() { self.exec_fast(i); n += 1; assert!(n < 10_000, "receipt storm"); } }
    pub fn ok(&mut self, signer: &str, recv: &str, m: &str, a: Value, dep: u128) -> Value {
        match self.tx(signer, recv, m, a.clone(), dep) { Ok(v) => v, Err(e) => panic!("setup: {} {}.{} {} -> {}", signer, recv, m, a, e) }
    }
    pub fn ex(&mut self, signer: &str, m: &str, a: Value, dep: u128) -> Result<Value, String> { self.tx(signer, EX, m, a, dep) }
    /// one call receipt on the exchange, without snapshots, leaving everything else pending
    pub fn quiet(&mut self, signer: &str, m: &str, a: Value, dep: u128) -> Result<String, String> {
        let id = self.ch.send(signer, EX, m, a, dep);
        let i = self.pos(id).unwrap();
        let k = self.exec_fast(i);
        self.ch.log[k].ok.clone()
    }
    /// one call receipt on the exchange, with snapshots, leaving created receipts pending
    pub fn ex_step(&mut self, signer: &str, m: &str, a: Value, dep: u128) -> Step {
        let id = self.ch.send(signer, EX, m, a, dep);
        let i = self.pos(id).unwrap();
        self.exec(i)
    }
    pub fn ledger(&self, t: &str, a: &str) -> u128 { self.ch.mock_ref(t).ft_ref().get(a) }
    pub fn mint(&mut self, t: &str, a: &str, x: u128) { *self.ch.mock(t).ft().bal.entry(a.to_string()).or_insert(0) += x; }
    pub fn dec(&self, t: &str) -> u8 { self.toks[t] }
    pub fn unit(&self, t: &str) -> u128 { 10u128.pow(self.toks[t] as u32) }

    /// deposit into the internal account (mints the tokens first)
    pub fn fund(&mut self, a: &str, t: &str, x: u128) {
        self.mint(t, a, x);
        let before = self.v("get_deposit", json!({"account_id":a,"token_id":t}));
        let r = self.tx(a, t, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":""}), 1);
        let after = self.v("get_deposit", json!({"account_id":a,"token_id":t}));
        if num(&after) != num(&before) + x { panic!("setup: fund {} {} {} -> {:?}", a, t, x, r); }
    }
    pub fn quiet_fund(&mut self, a: &str, t: &str, x: u128) { let k = self.keep_oplog; self.keep_oplog = false; self.fund(a, t, x); self.keep_oplog = k; }
    pub fn add_token(&mut self, id: &str, dec: u8, whitelisted: bool) {
        let mut f = Ft::default();
        f.is_wnear = id == WNEAR;
        for a in self.accts.iter() { f.bal.insert(a.clone(), 0); }
        let near = if f.is_wnear { 1_000_000_000 * NEAR } else { NEAR };
        self.ch.add_mock(id, Mock::Ft(f), near);
        self.toks.insert(id.into(), dec);
        if whitelisted { self.ok(OWNER, EX, "extend_whitelisted_tokens", json!({"tokens":[id]}), 1); }
    }
    pub fn pool_count(&self) -> u64 { self.v("get_number_of_pools", json!({})).as_u64().unwrap() }
    pub fn pool(&self, p: u64) -> PoolS { parse_pool(&self.v("get_pool_detail_info", json!({"pool_id":p}))) }
    pub fn share_of(&self, p: u64, a: &str) -> u128 { num(&self.v("get_pool_shares", json!({"pool_id":p,"account_id":a}))) }
    pub fn deposit_of(&self, a: &str, t: &str) -> u128 { num(&self.v("get_deposit", json!({"account_id":a,"token_id":t}))) }

    pub fn base(codes: &Codes, admin: (u32, u32)) -> World { World::base_on(codes.ex.clone(), admin) }
    pub fn base_on(code: Arc<Code>, admin: (u32, u32)) -> World {
        let ch = Chain::new(1_700_000_000 * SEC);
        let mut w = World { ch, accts: vec![], toks: BTreeMap::new(), flags: F_ALL, cached: None, lenient: false, oplog: vec![], keep_oplog: true };
        let mut accts: Vec<String> = [EX, OWNER, GUARD, REF1, REF2, LIQ].iter().map(|x| x.to_string()).collect();
        accts.extend(USERS.iter().map(|x| x.to_string()));
        for a in accts.iter().filter(|a| *a != EX) { w.ch.add_user(a, 1_000_000 * NEAR); }
        w.ch.add_wasm(EX, code, 1000 * NEAR);
        for m in [BOOST, BURROW].iter() {
            let mut s = Script::default();
            s.answers.insert("on_cast_shadow".into(), Answer::json(Value::Null));
            s.answers.insert("on_remove_shadow".into(), Answer::json(Value::Null));
            s.answers.insert("mft_on_transfer".into(), Answer::json(json!("0")));
            w.ch.add_mock(m, Mock::Script(s), 1000 * NEAR);
        }
        w.ch.add_mock(ORACLE, Mock::Script(Script::default()), NEAR);
        w.ch.add_mock(PYTH, Mock::Script(Script::default()), NEAR);
        accts.push(BOOST.into()); accts.push(BURROW.into());
        w.accts = accts;
        w.ok(OWNER, EX, "new", json!({"owner_id":OWNER,"boost_farm_id":BOOST,"burrowland_id":BURROW,"exchange_fee":admin.0,"referral_fee":admin.1}), 0);
        w.ok(OWNER, EX, "extend_guardians", json!({"guardians":[GUARD]}), 1);
        let _ = w.tx(OWNER, EX, "modify_wnear_id", json!({"wnear_id":WNEAR}), 1);
        for a in [OWNER, LIQ].iter().chain(USERS.iter()) { w.ok(a, EX, "storage_deposit", json!({}), NEAR); }
        w
    }
    pub fn add_simple(&mut self, toks: &[&str], fee: u32) -> u64 { num(&self.ok(USERS[0], EX, "add_simple_pool", json!({"tokens":toks,"fee":fee}), NEAR / 10)) as u64 }
    pub fn add_stable(&mut self, kind: PK, toks: &[&str], fee: u32, amp: u64) -> u64 {
        let decs: Vec<u8> = toks.iter().map(|t| self.dec(t)).collect();
        let m = match kind { PK::Stable => "add_stable_swap_pool", PK::Rated => "add_rated_swap_pool", _ => "add_degen_swap_pool" };
        num(&self.ok(OWNER, EX, m, json!({"tokens":toks,"decimals":decs,"fee":fee,"amp_factor":amp}), NEAR / 10)) as u64
    }
    /// fund `a` and add liquidity; returns shares
    pub fn seed(&mut self, a: &str, p: u64, amounts: &[u128]) -> u128 {
        let ps = self.pool(p);
        for (t, x) in ps.tokens.iter().zip(amounts) { if *x > 0 { self.fund(a, t, *x); } }
        if ps.kind == PK::Simple { num(&self.ok(a, EX, "add_liquidity", json!({"pool_id":p,"amounts":js(amounts)}), NEAR / 10)) }
        else { num(&self.ok(a, EX, "add_stable_liquidity", json!({"pool_id":p,"amounts":js(amounts),"min_shares":"1"}), NEAR / 10)) }
    }
    // ---- providers
    pub fn set_rate(&mut self, t: &str, method: &str, rate: u128) { self.ch.mock(t).ft().script.answers.insert(method.into(), Answer::json(json!(rate.to_string()))); }
    pub fn set_price(&mut self, asset: &str, mult: u128, decimals: u8) { self.ch.mock(ORACLE).script().price_table.insert(asset.into(), json!({"multiplier":mult.to_string(),"decimals":decimals})); }
    pub fn set_pyth(&mut self, id: &str, price: i64, expo: i32) { self.ch.mock(PYTH).script().price_table.insert(id.into(), json!({"price":price.to_string(),"conf":"1","expo":expo,"publish_time":"now"})); }
    /// Bring all degen prices and rates up to date.
    pub fn refresh_prices(&mut self) {
        let rated: Vec<String> = self.v("list_rated_tokens", json!({})).as_object().unwrap().keys().cloned().collect();
        for t in rated { let _ = self.tx(USERS[0], EX, "update_token_rate", json!({"token_id":t}), 0); }
        for t in self.degen_tokens() { let _ = self.tx(USERS[0], EX, "update_degen_token_price", json!({"token_id":t}), 0); }
    }
    pub fn degen_tokens(&self) -> Vec<String> { self.toks.keys().filter(|t| t.starts_with("dg")).cloned().collect() }
    pub fn setup_oracles(&mut self) {
        let expire = 3600 * SEC;
        self.ok(OWNER, EX, "register_degen_oracle_config", json!({"degen_oracle_config":{"PriceOracle":{"oracle_id":ORACLE,"expire_ts":expire.to_string(),"maximum_recency_duration_sec":90,"maximum_staleness_duration_sec":90}}}), 1);
        self.ok(OWNER, EX, "register_degen_oracle_config", json!({"degen_oracle_config":{"PythOracle":{"oracle_id":PYTH,"expire_ts":expire.to_string(),"pyth_price_valid_duration_sec":60}}}), 1);
    }
    /// Reverse-chronological story for a replay file.
    pub fn story(&self, n: usize) -> Vec<String> { let k = self.oplog.len().saturating_sub(n); self.oplog[k..].to_vec() }
}

pub fn fmt_ev(e: &Ev) -> String {
    let a: String = e.args.chars().take(400).collect();
    let r = match &e.ok { Ok(v) => format!("ok {}", v.chars().take(160).collect::<String>()), Err(x) => format!("FAILED {}", x.chars().take(160).collect::<String>()) };
    format!("#{} t={}s {} -> {}.{} {} (attached {}) = {}", e.rid, e.ts / SEC, e.pred, e.receiver, e.method, a, e.deposit, r)
}
