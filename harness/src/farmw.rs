//! The farming world: the real farming contract next to the real exchange (whose pool shares are multi-token seeds).
use crate::chain::{Ev, Receipt, NEAR};
use crate::gen::{op_at, Op};
use crate::util::*;
use crate::vm::Action;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const FARM: &str = "farm.near";
pub const FOWN: &str = "farmowner.near";
pub const FBYTE: u128 = 10_000_000_000_000_000_000;
pub const FTOKS: [(&str, u8); 4] = [("seed.t", 18), ("rwa.t", 24), ("rwb.t", 6), ("ta.t", 18)];

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SeedS { pub amount: u128, pub min: u128, pub kind: String, pub next: u64, pub farms: BTreeSet<String> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct FarmS { pub status: String, pub seed: String, pub token: String, pub start: u64, pub per: u128, pub interval: u64, pub total: u128, pub cur: u128, pub last: u128, pub claimed: u128, pub unclaimed: u128, pub benef: u128 }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct FUser { pub seeds: BTreeMap<String, u128>, pub rewards: BTreeMap<String, u128>, pub near: Option<(u128, u128)>, pub uncl: BTreeMap<String, u128> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct FSnap { pub meta: Value, pub seeds: BTreeMap<String, SeedS>, pub farms: BTreeMap<String, FarmS>, pub old: BTreeMap<String, FarmS>, pub rinfo: BTreeMap<String, u128>, pub users: BTreeMap<String, FUser> }
impl FSnap {
    pub fn stake(&self, u: &str, s: &str) -> u128 { self.users.get(u).and_then(|x| x.seeds.get(s)).copied().unwrap_or(0) }
    pub fn reward(&self, u: &str, t: &str) -> u128 { self.users.get(u).and_then(|x| x.rewards.get(t)).copied().unwrap_or(0) }
    pub fn uncl(&self, u: &str, f: &str) -> u128 { self.users.get(u).and_then(|x| x.uncl.get(f)).copied().unwrap_or(0) }
    pub fn known(&self, u: &str) -> bool { self.users.get(u).map_or(false, |x| x.near.is_some()) }
    pub fn running(&self) -> bool { self.meta["state"] == json!("Running") }
    pub fn owner(&self) -> String { self.meta["owner_id"].as_str().unwrap_or("").into() }
    pub fn farm(&self, f: &str) -> Option<&FarmS> { self.farms.get(f).or_else(|| self.old.get(f)) }
    pub fn all(&self) -> impl Iterator<Item = (&String, &FarmS)> { self.farms.iter().chain(self.old.iter()) }
    /// what the contract owes in a token: stakes, credited rewards, everything deposited into farms and not yet claimed, and the beneficiary's part
    pub fn owed(&self, t: &str) -> u128 {
        let mut x = self.seeds.get(t).map_or(0, |s| s.amount);
        for u in self.users.values() { x += u.rewards.get(t).copied().unwrap_or(0); }
        for (_, f) in self.all() { if f.token == t { x += f.total - f.claimed + f.benef; } }
        x
    }
}
pub fn parse_farm(v: &Value) -> FarmS {
    FarmS { status: v["farm_status"].as_str().unwrap().into(), seed: v["seed_id"].as_str().unwrap().into(), token: v["reward_token"].as_str().unwrap().into(), start: v["start_at"].as_u64().unwrap(), per: num(&v["reward_per_session"]), interval: v["session_interval"].as_u64().unwrap(),
        total: num(&v["total_reward"]), cur: num(&v["cur_round"]), last: num(&v["last_round"]), claimed: num(&v["claimed_reward"]), unclaimed: num(&v["unclaimed_reward"]), benef: num(&v["beneficiary_reward"]) }
}
/// Rewards released by the schedule until `ts` (nanoseconds).
pub fn released(f: &FarmS, ts: u64) -> u128 {
    if f.status == "Created" { return 0; }
    let sec = ts / SEC;
    if sec < f.start { return 0; }
    let k = (sec - f.start) / f.interval.max(1);
    let x = U256::from(k) * U256::from(f.per);
    if x > U256::from(f.total) { f.total } else { x.low_u128() }
}

pub struct FStep { pub pre: Arc<FSnap>, pub post: Arc<FSnap>, pub ev: Ev, pub bal: (u128, u128), pub grown: i64 }

#[derive(Clone)]
pub struct FW { pub w: World, pub accts: Vec<String>, pub cache: Option<(u64, u64, Arc<FSnap>)>, pub uncl: bool, pub pools: u64, pub code: Arc<crate::vm::Code> }

impl FW {
    pub fn fv(&self, m: &str, a: Value, t: u64) -> Value { match self.w.ch.view_at(FARM, m, a.clone(), t) { Ok(v) => v, Err(e) => std::panic::panic_any(ViewFail(format!("view {} {} failed: {}", m, a, e))) } }
    pub fn fc(&self, m: &str, a: Value) -> std::rc::Rc<Value> { match self.w.ch.view_rc(FARM, m, a.clone()) { Ok(v) => v, Err(e) => std::panic::panic_any(ViewFail(format!("view {} {} failed: {}", m, a, e))) } }
    pub fn read(&self, t: u64) -> FSnap {
        let mut s = FSnap::default();
        s.meta = (*self.fc("get_metadata", json!({}))).clone();
        let pg = json!({"from_index":0,"limit":1000});
        for (k, v) in self.fc("list_seeds_info", pg.clone()).as_object().unwrap() {
            s.seeds.insert(k.clone(), SeedS { amount: num(&v["amount"]), min: num(&v["min_deposit"]), kind: v["seed_type"].as_str().unwrap().into(), next: v["next_index"].as_u64().unwrap(), farms: strs(&v["farms"]).into_iter().collect() });
        }
        for v in self.fv("list_farms", pg.clone(), t).as_array().unwrap() { s.farms.insert(v["farm_id"].as_str().unwrap().into(), parse_farm(v)); }
        for v in self.fc("list_outdated_farms", pg.clone()).as_array().unwrap() { s.old.insert(v["farm_id"].as_str().unwrap().into(), parse_farm(v)); }
        for (k, v) in self.fc("list_rewards_info", pg.clone()).as_object().unwrap() { s.rinfo.insert(k.clone(), num(v)); }
        for a in &self.accts {
            let mut u = FUser::default();
            let v = self.fc("get_user_storage_state", json!({"account_id":a}));
            if !v.is_null() { u.near = Some((num(&v["deposit"]), num(&v["usage"]))); }
            for (k, x) in self.fc("list_user_seeds", json!({"account_id":a})).as_object().unwrap() { u.seeds.insert(k.clone(), num(x)); }
            for (k, x) in self.fc("list_rewards", json!({"account_id":a})).as_object().unwrap() { u.rewards.insert(k.clone(), num(x)); }
            if self.uncl { for (id, f) in &s.farms { if u.seeds.contains_key(&f.seed) || (u.near.is_some() && f.unclaimed == 0) {
                let x = num(&self.fv("get_unclaimed_reward", json!({"account_id":a,"farm_id":id}), t));
                if x > 0 { u.uncl.insert(id.clone(), x); }
            } } }
            if u != FUser::default() { s.users.insert(a.clone(), u); }
        }
        s
    }
    pub fn snap_at(&mut self, t: u64) -> Arc<FSnap> {
        let ver = self.w.ch.accounts[FARM].ver;
        if let Some((v, ts, s)) = &self.cache { if *v == ver && *ts == t { return s.clone(); } }
        let s = Arc::new(self.read(t));
        self.cache = Some((ver, t, s.clone()));
        s
    }
    pub fn snap(&mut self) -> Arc<FSnap> { let t = self.w.ch.ts; self.snap_at(t) }
    /// the last snapshot if the farm's storage has not changed since (time-dependent fields may lag)
    pub fn lazy(&mut self) -> Arc<FSnap> { let ver = self.w.ch.accounts[FARM].ver; match &self.cache { Some((v, _, s)) if *v == ver => s.clone(), _ => self.snap() } }
    /// Both snapshots are evaluated at the time the receipt runs, so only the receipt makes them differ.
    pub fn exec(&mut self, i: usize) -> FStep {
        let touches = self.w.ch.pending[i].receiver == FARM;
        let t = self.w.ch.ts + self.w.ch.dt;
        let pre = if touches { self.snap_at(t) } else { self.lazy() };
        let u0 = self.w.ch.accounts[FARM].usage;
        let b0 = self.w.ch.accounts[FARM].balance;
        let k = self.w.exec_fast(i);
        let post = if touches { self.snap_at(t) } else { self.lazy() };
        FStep { pre, post, ev: self.w.ch.log[k].clone(), bal: (b0, self.w.ch.accounts[FARM].balance), grown: self.w.ch.accounts[FARM].usage as i64 - u0 as i64 }
    }
    /// tokens on their way out of the farming contract that it no longer owes to anyone's record, or already holds but has not yet recorded
    pub fn in_flight(&self, t: &str) -> u128 {
        let mut x = 0;
        for rc in &self.w.ch.pending { if let Some((m, a)) = call_of(rc) {
            if rc.receiver == FARM && m == "ft_on_transfer" && rc.pred == t { x += amt(&a); }
            if rc.receiver == t && m == "ft_resolve_transfer" && a["receiver_id"] == json!(FARM) && rc.deps.iter().all(|d| self.w.ch.results.contains_key(d)) {
                // an answered transfer: what was not accepted is still to be refunded
                if let Some(d) = rc.deps.first() { if let Some(crate::vm::PRes::Failed) = self.w.ch.results.get(d) { x += amt(&a); } }
            }
            if rc.receiver == t && rc.pred == FARM && m == "ft_transfer" { x += amt(&a); }
            if rc.receiver == FARM && m.starts_with("callback_post_withdraw") && (a["token_id"] == json!(t) || a["seed_id"] == json!(t)) {
                if let Some(d) = rc.deps.first() { if let Some(crate::vm::PRes::Failed) = self.w.ch.results.get(d) { x += amt(&a); } }
            }
        } }
        x
    }
}
fn amt(a: &Value) -> u128 { num(&a["amount"]) }
pub fn call_of(rc: &Receipt) -> Option<(String, Value)> { match rc.actions.first() { Some(Action::Call { method, args, .. }) => Some((method.clone(), serde_json::from_slice(args).unwrap_or(Value::Null))), _ => None } }

#[derive(Clone, Copy)]
pub struct FMix { pub admin: u64, pub pause: u64, pub storage: u64, pub fault: u64, pub hostile: u64 }
impl Default for FMix { fn default() -> Self { FMix { admin: 8, pause: 1, storage: 5, fault: 5, hostile: 4 } } }

pub fn fworld(codes: &Codes, r: &mut Rng, uncl: bool) -> FW {
    let mut w = World::base(codes, (2000, 500));
    w.keep_oplog = false;
    for (t, d) in FTOKS.iter() { w.add_token(t, *d, true); }
    w.add_token("tb.t", 18, true);
    for _ in 0..2 { let p = w.add_simple(&["ta.t", "tb.t"], 30); for u in USERS.iter().take(3) { let a = w.unit("ta.t"); w.seed(u, p, &[a * (1 + r.below128(1_000_000)), a * (1 + r.below128(1_000_000))]); } }
    w.ch.add_user(FOWN, 100_000 * NEAR);
    w.ch.add_user("stray.near", 1000 * NEAR);
    w.ch.add_wasm(FARM, codes.farm.clone(), 20 * NEAR);
    w.ok(OWNER, FARM, "new", json!({"owner_id":FOWN}), 0);
    for p in 0..2 { w.ok(OWNER, EX, "mft_register", json!({"token_id":format!(":{}", p),"account_id":FARM}), NEAR / 10); }
    let mut accts: Vec<String> = USERS.iter().map(|x| x.to_string()).collect();
    accts.push("stray.near".into()); accts.push(FOWN.into());
    for (t, _) in FTOKS.iter() { w.mint(t, FARM, 0); for a in &accts { w.mint(t, a, 1u128 << 110); } }
    let mut f = FW { w, accts, cache: None, uncl, pools: 2, code: codes.farm.clone() };
    for u in USERS.iter() { if r.p(90) { f.w.ok(u, FARM, "storage_deposit", json!({}), NEAR / 10 * (1 + r.below128(5))); } }
    for _ in 0..1 + r.us(5) { let o = create(r, &f); f.w.ok(&o.signer, FARM, &o.m, o.a, o.dep); }
    let s = f.snap();
    for (id, x) in s.farms.iter() { if r.p(75) { let a = reward_amount(r, x); f.w.ok(FOWN, &x.token, "ft_transfer_call", json!({"receiver_id":FARM,"amount":a.to_string(),"msg":id}), 1); } }
    f.w.keep_oplog = true;
    f
}
pub fn seed_ids() -> Vec<String> { vec!["seed.t".into(), "seed.t".into(), "rwa.t".into(), format!("{}@0", EX), format!("{}@0", EX), format!("{}@1", EX)] }
pub fn create(r: &mut Rng, f: &FW) -> Op {
    let seed = r.pick(&seed_ids()).clone();
    let token = *r.pick(&["rwa.t", "rwa.t", "rwb.t", "rwb.t", "seed.t", "ta.t"]);
    let now = f.w.ch.ts / SEC;
    let start = match r.below(8) { 0 | 1 | 2 | 3 => 0, 4 => now - r.below(5000), 5 => now + 1, _ => now + r.below(2000) };
    let per = match r.below(6) { 0 => 1 + r.below128(5), 1 => 1_000_000, _ => r.logu(1u128 << 80) };
    let interval = match r.below(5) { 0 => 1, 1 => 3600, _ => 1 + r.below(200) };
    let min = match r.below(4) { 0 => Value::Null, 1 => json!("1"), 2 => json!("1000"), _ => json!(r.logu(1 << 60).to_string()) };
    let mut a = json!({"terms":{"seed_id":seed,"reward_token":token,"start_at":start,"reward_per_session":per.to_string(),"session_interval":interval}});
    if !min.is_null() || r.p(50) { a["min_deposit"] = min; }
    op_at(FOWN, FARM, "create_simple_farm", a, NEAR / 50 * (1 + r.below128(3)))
}
pub fn reward_amount(r: &mut Rng, x: &FarmS) -> u128 { match r.below(6) { 0 => 1 + r.below128(3), 1 => x.per, _ => (x.per * (1 + r.below128(30)) + if r.p(50) { r.below128(x.per.max(1)) } else { 0 }).min(1u128 << 100) }.max(1) }
fn stake_amount(r: &mut Rng, min: u128) -> u128 { match r.below(8) { 0 => min.saturating_sub(1).max(1), 1 => min.max(1), 2 => min + 1, 3 => r.logu(1u128 << 90), _ => min.max(1).saturating_mul(1 + r.below128(1000)) + r.below128(1000) } }
fn who(r: &mut Rng) -> String { if r.p(93) { r.pick(&USERS).to_string() } else { "stray.near".into() } }

/// the next random operation on the farming contract or around it
pub fn fop(f: &mut FW, r: &mut Rng, mx: &FMix) -> Option<Op> {
    let s = f.lazy();
    let u = who(r);
    let seeds: Vec<String> = s.seeds.keys().cloned().collect();
    let farms: Vec<String> = s.farms.keys().cloned().collect();
    let any_farm = |r: &mut Rng| -> String { match r.below(20) { 0 => "seed.t#99".into(), 1 if !s.old.is_empty() => { let v: Vec<&String> = s.old.keys().collect(); (*r.pick(&v)).clone() } _ => if farms.is_empty() { "seed.t#0".into() } else { r.pick(&farms).clone() } } };
    let weights = [22, 10, 12, 14, 10, 8, 14, 3, mx.admin, mx.pause, mx.storage, mx.fault, mx.hostile];
    Some(match r.weighted(&weights) {
        0 => { // stake
            let sd = if seeds.is_empty() || r.p(4) { "rwb.t".to_string() } else { r.pick(&seeds).clone() };
            let min = s.seeds.get(&sd).map_or(1, |x| x.min);
            if let Some(p) = sd.strip_prefix(&format!("{}@", EX)) {
                let p: u64 = p.parse().unwrap();
                let have = f.w.share_of(p, &u);
                let x = if r.p(70) { stake_amount(r, min) } else { r.amount(have.max(1)) };
                op_at(&u, EX, "mft_transfer_call", json!({"token_id":format!(":{}", p),"receiver_id":FARM,"amount":x.to_string(),"msg":if r.p(96) { "" } else { "x" }}), 1)
            } else { let x = stake_amount(r, min); op_at(&u, &sd, "ft_transfer_call", json!({"receiver_id":FARM,"amount":x.to_string(),"msg":""}), 1) }
        }
        1 => { // reward
            let id = any_farm(r);
            let (tok, x) = match s.farm(&id) { Some(x) => (if r.p(90) { x.token.clone() } else if r.p(50) && FTOKS.iter().any(|t| t.0 == x.seed) { x.seed.clone() } else { FTOKS[r.us(4)].0.to_string() }, reward_amount(r, x)), None => ("rwa.t".into(), 5) };
            op_at(if r.p(70) { FOWN } else { &u }, &tok, "ft_transfer_call", json!({"receiver_id":FARM,"amount":x.to_string(),"msg":id}), 1)
        }
        2 => { // unstake
            let rich: Vec<&String> = s.users.iter().filter(|x| !x.1.seeds.is_empty()).map(|x| x.0).collect();
            let u = if !rich.is_empty() && r.p(60) { (*r.pick(&rich)).clone() } else { u };
            let mine: Vec<String> = s.users.get(&u).map(|x| x.seeds.keys().cloned().collect()).unwrap_or_default();
            let sd = if mine.is_empty() || r.p(6) { if seeds.is_empty() { return None; } r.pick(&seeds).clone() } else { r.pick(&mine).clone() };
            let have = s.stake(&u, &sd);
            let x = match r.below(9) { 0 => have + 1, 1 => 0, 2 | 3 | 4 => have, 5 => have.saturating_sub(1 + r.below128(2)), _ => r.amount(have.max(1)) };
            op_at(&u, FARM, "withdraw_seed", json!({"seed_id":sd,"amount":x.to_string()}), if r.p(96) { 1 } else { r.below128(3) })
        }
        3 => op_at(&u, FARM, "claim_reward_by_farm", json!({"farm_id":any_farm(r)}), 0),
        4 => { if seeds.is_empty() { return None; } let sd = if r.p(4) { "zzz.t".to_string() } else { r.pick(&seeds).clone() }; op_at(&u, FARM, "claim_reward_by_seed", json!({"seed_id":sd}), 0) }
        5 => { // withdraw reward
            let rich: Vec<&String> = s.users.iter().filter(|x| !x.1.rewards.is_empty()).map(|x| x.0).collect();
            let u = if !rich.is_empty() && r.p(80) { (*r.pick(&rich)).clone() } else { u };
            let mine: Vec<String> = s.users.get(&u).map(|x| x.rewards.keys().cloned().collect()).unwrap_or_default();
            let t = if mine.is_empty() || r.p(8) { FTOKS[r.us(4)].0.to_string() } else { r.pick(&mine).clone() };
            let have = s.reward(&u, &t);
            let mut a = json!({"token_id":t});
            match r.below(7) { 0 | 1 => {} 2 => a["amount"] = json!("0"), 3 => a["amount"] = json!((have + 1).to_string()), 4 => a["amount"] = json!(have.to_string()), 5 => a["amount"] = json!(have.saturating_sub(1 + r.below128(2)).to_string()), _ => a["amount"] = json!(r.amount(have.max(1)).to_string()) }
            op_at(&u, FARM, "withdraw_reward", a, if r.p(96) { 1 } else { r.below128(3) })
        }
        6 => { // time
            let iv: u64 = farms.get(r.us(farms.len().max(1))).and_then(|x| s.farms.get(x)).map_or(60, |x| x.interval);
            let d = match r.below(6) { 0 => r.below(iv), 1 => iv, 2 => iv - 1, 3 => iv * (1 + r.below(5)), 4 => iv * (1 + r.below(60)), _ => r.below(iv * 3 + 1) };
            f.w.ch.ts += d * SEC;
            return None;
        }
        7 => op_at(&u, FARM, "remove_user_rps_by_farm", json!({"farm_id":any_farm(r)}), 0),
        8 => match r.below(8) {
            0 | 1 | 2 => create(r, f),
            3 | 4 | 5 => { let over: Vec<&String> = s.farms.iter().filter(|x| released(x.1, f.w.ch.ts) == x.1.total && x.1.total > 0).map(|x| x.0).collect(); let id = if !over.is_empty() && r.p(70) { (*r.pick(&over)).clone() } else { any_farm(r) }; op_at(if r.p(85) { FOWN } else { &u }, FARM, "force_clean_farm", json!({"farm_id":id}), 0) }
            6 => { if seeds.is_empty() { return None; } let x = r.logu(1 << 62); op_at(if r.p(80) { FOWN } else { &u }, FARM, "modify_seed_min_deposit", json!({"seed_id":r.pick(&seeds),"min_deposit":x.to_string()}), 0) }
            _ => { let mut o = create(r, f); let x = FBYTE * (550 + r.below128(700)); o.dep = *r.pick(&[0, 1, FBYTE * 100, FBYTE * 400, x, x]); o }
        },
        9 => op_at(if r.p(80) { FOWN } else { &u }, FARM, if s.running() && r.p(80) { "pause_contract" } else { "resume_contract" }, json!({}), if r.p(90) { 1 } else { 0 }),
        10 => match r.below(8) {
            0 | 1 | 2 => { let mut a = json!({}); let t = who(r); if r.p(50) { a["account_id"] = json!(t); } if r.p(40) { a["registration_only"] = json!(r.p(70)); } let min = 18_520_000_000_000_000_000_000u128; op_at(&u, FARM, "storage_deposit", a, *r.pick(&[0, 1, min - 1, min, min + 1, NEAR / 10, NEAR])) }
            3 | 4 | 5 => { let (d, us) = s.users.get(&u).and_then(|x| x.near).unwrap_or((0, 0)); let av = d.saturating_sub(us); let mut a = json!({}); if r.p(75) { a["amount"] = json!(match r.below(6) { 0 => av, 1 => av + 1, 2 => d, 3 => 0, _ => r.amount(av.max(1)) }.to_string()); } op_at(&u, FARM, "storage_withdraw", a, if r.p(95) { 1 } else { 0 }) }
            _ => { let mut a = json!({}); if r.p(30) { a["force"] = json!(r.p(70)); } op_at(&u, FARM, "storage_unregister", a, if r.p(96) { 1 } else { 0 }) }
        },
        11 => { // faults
            match r.below(6) {
                0 | 1 => { let t = FTOKS[r.us(4)].0; let b = !f.w.ch.mock_ref(t).ft_ref().fail; f.w.ch.mock(t).ft().fail = b; }
                2 | 3 => { let t = FTOKS[r.us(4)].0; let m = f.w.ch.mock(t).ft(); if !m.deny.remove(&u) { m.deny.insert(u); } }
                _ => { let st = if r.p(50) { "Paused" } else { "Running" }; let _ = f.w.quiet(OWNER, "change_state", json!({"state":st}), 1); }
            }
            return None;
        }
        _ => { // forged notices and callbacks
            let x = 1 + r.logu(1 << 90);
            let v = who(r);
            match r.below(6) {
                0 => op_at(&u, FARM, "ft_on_transfer", json!({"sender_id":v,"amount":x.to_string(),"msg":""}), 0),
                1 => op_at(&u, FARM, "ft_on_transfer", json!({"sender_id":v,"amount":x.to_string(),"msg":any_farm(r)}), 0),
                2 => op_at(&u, FARM, "mft_on_transfer", json!({"token_id":":0","sender_id":v,"amount":x.to_string(),"msg":""}), 0),
                3 => op_at(&u, FARM, "callback_post_withdraw_ft_seed", json!({"seed_id":"seed.t","sender_id":u,"amount":x.to_string()}), 0),
                4 => op_at(&u, FARM, "callback_post_withdraw_reward", json!({"token_id":"rwa.t","sender_id":u,"amount":x.to_string()}), 0),
                _ => op_at(&u, FARM, "set_owner", json!({"owner_id":u}), 0),
            }
        }
    })
}
/// restore every counterparty
pub fn heal(f: &mut FW) {
    for (t, _) in FTOKS.iter() { let m = f.w.ch.mock(t).ft(); m.fail = false; m.deny.clear(); }
    let _ = f.w.quiet(OWNER, "change_state", json!({"state":"Running"}), 1);
}
