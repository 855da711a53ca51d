//! Random hostile workload for the exchange: worlds, operations, faults, schedules.
use crate::chain::NEAR;
use crate::mocks::{Answer, Mock, Reply};
use crate::util::*;
use crate::world::*;
use serde_json::{json, Map, Value};

#[derive(Clone, Debug)]
pub struct Op { pub signer: String, pub recv: String, pub m: String, pub a: Value, pub dep: u128 }
pub fn op(signer: &str, m: &str, a: Value, dep: u128) -> Op { Op { signer: signer.into(), recv: EX.into(), m: m.into(), a, dep } }
pub fn op_at(signer: &str, recv: &str, m: &str, a: Value, dep: u128) -> Op { Op { signer: signer.into(), recv: recv.into(), m: m.into(), a, dep } }

/// Standard token universe: (id, decimals)
pub const BASE_TOKENS: [(&str, u8); 6] = [("ta.t", 18), ("tb.t", 6), ("tc.t", 24), ("td.t", 8), (WNEAR, 24), ("te.t", 18)];

pub struct WorldSpec { pub simple: usize, pub stable: usize, pub rated: bool, pub degen: bool, pub overprecise: bool }

/// rates/prices in a plausible band around 1
pub fn near_one(r: &mut Rng) -> u128 { PREC24 / 100 * (60 + r.below(240) as u128) + r.below128(PREC24 / 100) }

pub fn world(codes: &Codes, r: &mut Rng, spec: &WorldSpec) -> World {
    let admin = if r.p(15) { (0, 0) } else { (r.range(1, 4000) as u32, r.range(0, 1000) as u32) };
    let mut w = World::base(codes, admin);
    w.keep_oplog = false;
    for (t, d) in BASE_TOKENS.iter() { w.add_token(t, *d, true); }
    w.add_token("odd.t", 12, false);
    if spec.overprecise { w.add_token("op.t", 21 + r.below(4) as u8, true); }
    let fee = |r: &mut Rng| -> u32 { match r.below(6) { 0 => 0, 1 => 1, 2 => 30, 3 => 9999, _ => r.range(1, 300) as u32 } };
    let base: Vec<&str> = BASE_TOKENS.iter().map(|x| x.0).collect();
    for k in 0..spec.simple {
        let i = if k < base.len() { k } else { r.us(base.len()) };
        let mut j = (i + 1 + r.us(base.len() - 1)) % base.len();
        if k < base.len() { j = (i + 1) % base.len(); }
        let f = fee(r);
        let p = w.add_simple(&[base[i], base[j]], f);
        if r.p(92) {
            let mag = r.range(1, 9) as u32;
            let a: Vec<u128> = [base[i], base[j]].iter().map(|t| (w.unit(t) / 1000).max(1) * (1 + r.below128(10u128.pow(mag)))).collect();
            w.seed(USERS[0], p, &a);
        }
    }
    for k in 0..spec.stable {
        let n = 2 + r.us(3);
        let mut ts: Vec<&str> = vec![];
        if spec.overprecise && k == 0 { ts.push("op.t"); }
        while ts.len() < n { let t = *r.pick(&base); if !ts.contains(&t) && (w.dec(t) <= 18 || spec.overprecise) { ts.push(t); } }
        let amp = *r.pick(&[1u64, 2, 10, 80, 240, 1000, 10000, 1_000_000]);
        let f = fee(r);
        let p = w.add_stable(PK::Stable, &ts, f, amp);
        seed_stable(&mut w, r, p);
    }
    if spec.rated {
        for (t, d, m) in [("rs.t", 24u8, "get_st_near_price"), ("rl.t", 24, "ft_price"), ("rn.t", 24, "get_nearx_price")].iter() {
            w.add_token(t, *d, true);
            let x = near_one(r); w.set_rate(t, m, x);
            let ty = match *t { "rs.t" => "STNEAR", "rl.t" => "LINEAR", _ => "NEARX" };
            w.ok(OWNER, EX, "register_rated_token", json!({"rate_type":ty,"token_id":t}), 1);
        }
        w.add_token("rf.t", 18, true);
        let extra = if r.p(50) { json!({"PriceOracle":{"oracle_id":ORACLE,"base_contract_id":"frax.t","maximum_recency_duration_sec":90,"maximum_staleness_duration_sec":90}}) }
            else { json!({"PythOracle":{"oracle_id":PYTH,"base_price_identifier":PYTH_A,"rate_price_identifier":PYTH_B,"pyth_price_valid_duration_sec":60}}) };
        w.ok(OWNER, EX, "register_rated_token", json!({"rate_type":"SFRAX","token_id":"rf.t","extra_info":extra.to_string()}), 1);
    }
    if spec.degen {
        w.setup_oracles();
        for (t, d) in [("dg1.t", 18u8), ("dg2.t", 6), ("dg3.t", 24)].iter() { w.add_token(t, *d, true); }
        w.ok(OWNER, EX, "register_degen_token", json!({"token_id":"dg1.t","degen_type":{"PriceOracle":{"decimals":18}}}), 1);
        w.ok(OWNER, EX, "register_degen_token", json!({"token_id":"dg2.t","degen_type":{"PythOracle":{"price_identifier":PYTH_A}}}), 1);
        w.ok(OWNER, EX, "register_degen_token", json!({"token_id":"dg3.t","degen_type":{"PythOracle":{"price_identifier":PYTH_B}}}), 1);
    }
    shuffle_prices(&mut w, r);
    w.refresh_prices();
    if spec.rated {
        let all = ["rs.t", "rl.t", "rn.t", "rf.t"];
        for _ in 0..1 + r.us(2) {
            let mut ts: Vec<&str> = vec![*r.pick(&all)];
            if r.p(70) { ts.push(if r.p(50) { WNEAR } else { "ta.t" }); }
            let n = ts.len().max(2) + r.us(2);
            while ts.len() < n { let t = *r.pick(&all); if !ts.contains(&t) { ts.push(t); } }
            let (amp, f) = (*r.pick(&[1u64, 20, 240, 5000]), fee(r));
            let p = w.add_stable(PK::Rated, &ts, f, amp);
            seed_stable(&mut w, r, p);
        }
    }
    if spec.degen {
        let ts: Vec<&str> = if r.p(50) { vec!["dg1.t", "dg2.t"] } else if r.p(50) { vec!["dg2.t", "dg3.t"] } else { vec!["dg1.t", "dg2.t", "dg3.t"] };
        let (amp, f) = (*r.pick(&[1u64, 20, 240, 5000]), fee(r));
        let p = w.add_stable(PK::Degen, &ts, f, amp);
        seed_stable(&mut w, r, p);
    }
    if r.p(70) { w.ok(OWNER, EX, "insert_referral", json!({"referral_id":REF1,"fee_bps":r.range(1, 9999)}), 1); }
    if r.p(30) { w.ok(GUARD, EX, "insert_referral", json!({"referral_id":REF2,"fee_bps":r.range(1, 9999)}), 1); }
    let toks: Vec<String> = w.toks.keys().cloned().collect();
    for u in USERS.iter().chain([OWNER].iter()) {
        for t in &toks { if r.p(60) && t != "odd.t" { let x = w.unit(t) / 100 * (1 + r.logu(1_000_000)); w.fund(u, t, x); } let x = w.unit(t) * (1 + r.logu(100_000)); w.mint(t, u, x); }
    }
    if r.p(60) { let p = r.below(w.pool_count()); let _ = w.ex(REF1, "mft_register", json!({"token_id":format!(":{}", p),"account_id":REF1}), NEAR / 10); }
    w.ok(OWNER, EX, "extend_client_echo_token_id_whitelist", json!({"token_ids":["*.t"]}), 1);
    w.ok(OWNER, EX, "extend_client_echo_sender_id_whitelist", json!({"sender_ids":[USERS[0], BOOST]}), 1);
    w.keep_oplog = true;
    w
}
pub fn shuffle_prices(w: &mut World, r: &mut Rng) {
    for (t, m) in [("rs.t", "get_st_near_price"), ("rl.t", "ft_price"), ("rn.t", "get_nearx_price")].iter() { if w.toks.contains_key(*t) { let x = near_one(r); w.set_rate(t, m, x); } }
    let b = 9_000 + r.below128(2000); let c = 9_000 + r.below128(6000);
    w.set_price("frax.t", b, 22); w.set_price("rf.t", c, 22);
    let m = 1_000 + r.logu(200_000); w.set_price("dg1.t", m, 22);
    let (pa, pb) = (50_000_000 + r.below(200_000_000) as i64, 50_000_000 + r.below(200_000_000) as i64);
    w.set_pyth(PYTH_A, pa, -8); w.set_pyth(PYTH_B, pb, -8);
}
/// roughly balanced in value, sometimes skewed
pub fn seed_stable(w: &mut World, r: &mut Rng, p: u64) -> u128 {
    let ps = w.pool(p);
    let base = 1 + r.logu(10_000_000);
    let skew = r.p(35);
    let a: Vec<u128> = ps.tokens.iter().enumerate().map(|(_i, t)| { let u = w.unit(t); let k = if skew { 1 + r.logu(50) } else { 1 }; u * base * k + r.below128(u.max(1)) }).collect();
    w.seed(USERS[r.us(2)], p, &a)
}

#[derive(Clone)]
pub struct Mix { pub w: [u64; 26] }
pub const M_DEPOSIT: usize = 0; pub const M_DIRECT: usize = 1; pub const M_WITHDRAW: usize = 2; pub const M_CLAIM: usize = 3; pub const M_SWAP: usize = 4; pub const M_SWAPOUT: usize = 5;
pub const M_VA: usize = 6; pub const M_INSTANT: usize = 7; pub const M_HOTZAP: usize = 8; pub const M_ADD: usize = 9; pub const M_REMOVE: usize = 10; pub const M_REMTOK: usize = 11;
pub const M_MFT: usize = 12; pub const M_MFTCALL: usize = 13; pub const M_DONATE: usize = 14; pub const M_SHADOW: usize = 15; pub const M_LIQ: usize = 16; pub const M_STORAGE: usize = 17;
pub const M_REGTOK: usize = 18; pub const M_FEES: usize = 19; pub const M_TREASURY: usize = 20; pub const M_GUARD: usize = 21; pub const M_PRICE: usize = 22; pub const M_TIME: usize = 23; pub const M_FAULT: usize = 24; pub const M_AMP: usize = 25;
impl Mix {
    pub fn all() -> Mix { Mix { w: [8, 1, 6, 2, 14, 6, 4, 8, 6, 9, 6, 5, 5, 4, 3, 5, 3, 3, 2, 2, 3, 1, 4, 3, 4, 1] } }
    pub fn only(v: &[(usize, u64)]) -> Mix { let mut m = [0; 26]; for (k, x) in v { m[*k] = *x; } Mix { w: m } }
    pub fn with(mut self, v: &[(usize, u64)]) -> Mix { for (k, x) in v { self.w[*k] = *x; } self }
}

pub fn who(r: &mut Rng) -> &'static str { *r.pick(&[USERS[0], USERS[1], USERS[2], USERS[3], USERS[1], USERS[2], OWNER, LIQ]) }
pub fn referral(r: &mut Rng) -> Value { match r.below(5) { 0 => json!(REF1), 1 => json!(REF2), 2 => json!(USERS[3]), _ => Value::Null } }

fn pick_pool(r: &mut Rng, s: &Snap, kinds: &[PK], live: bool) -> Option<u64> {
    let v: Vec<u64> = s.pools.iter().enumerate().filter(|(_, p)| (kinds.is_empty() || kinds.contains(&p.kind)) && (!live || p.supply > 0)).map(|(i, _)| i as u64).collect();
    if v.is_empty() { None } else { Some(*r.pick(&v)) }
}
/// A chain of swap actions; returns actions and the first token.
pub fn swap_actions(r: &mut Rng, s: &Snap, a: &str, start: Option<&str>, n: usize, maxin: Option<u128>) -> Option<(Vec<Value>, String)> {
    let mut acts = vec![];
    let live: Vec<usize> = (0..s.pools.len()).filter(|i| s.pools[*i].supply > 0).collect();
    if live.is_empty() { return None; }
    let first_pool = match start { None => *r.pick(&live), Some(t) => { let c: Vec<usize> = live.iter().cloned().filter(|i| s.pools[*i].tokens.iter().any(|x| x == t)).collect(); if c.is_empty() { return None; } *r.pick(&c) } };
    let mut tin = match start { Some(t) => t.to_string(), None => r.pick(&s.pools[first_pool].tokens).clone() };
    let first = tin.clone();
    let mut pool = first_pool;
    for k in 0..n {
        let ps = &s.pools[pool];
        let outs: Vec<&String> = ps.tokens.iter().filter(|t| **t != tin).collect();
        let tout = if r.permille(15) || outs.is_empty() { tin.clone() } else { (*r.pick(&outs)).clone() };
        let amount = if k == 0 || r.p(12) {
            let idx = ps.tokens.iter().position(|t| *t == tin).unwrap();
            let bal = maxin.unwrap_or_else(|| s.deposit(a, &tin));
            let lim = if r.p(85) { (ps.amounts[idx] / 2).max(2) } else { u128::MAX >> 10 };
            Some(r.amount(bal.min(lim).max(1)))
        } else { None };
        let min = if r.p(85) { 0 } else { r.logu(ps.amounts[0].max(1)) };
        let mut o = Map::new();
        o.insert("pool_id".into(), json!(pool)); o.insert("token_in".into(), json!(tin)); o.insert("token_out".into(), json!(tout));
        if let Some(x) = amount { if !(k == 0 && maxin.is_some() && r.p(60)) { o.insert("amount_in".into(), json!(x.to_string())); } }
        o.insert("min_amount_out".into(), json!(min.to_string()));
        acts.push(Value::Object(o));
        tin = tout;
        if r.permille(12) { let q = *r.pick(&live); tin = r.pick(&s.pools[q].tokens).clone(); }
        let next: Vec<usize> = live.iter().cloned().filter(|i| s.pools[*i].tokens.contains(&tin) && (*i != pool || r.p(40))).collect();
        if next.is_empty() { break; }
        pool = *r.pick(&next);
    }
    Some((acts, first))
}
/// Chain of exact-output actions (listed last hop first, as the contract expects).
pub fn swapout_actions(r: &mut Rng, s: &Snap, last: Option<&str>, n: usize) -> Option<Vec<Value>> {
    let live: Vec<usize> = (0..s.pools.len()).filter(|i| s.pools[*i].supply > 0 && (s.pools[*i].kind == PK::Simple || r.permille(30))).collect();
    if live.is_empty() { return None; }
    let cands: Vec<usize> = live.iter().cloned().filter(|i| last.map_or(true, |t| s.pools[*i].tokens.iter().any(|x| x == t))).collect();
    if cands.is_empty() { return None; }
    let mut acts = vec![];
    let mut pool = *r.pick(&cands);
    let mut tout = match last { Some(t) => t.to_string(), None => r.pick(&s.pools[pool].tokens).clone() };
    for k in 0..n {
        let ps = &s.pools[pool];
        let ins: Vec<&String> = ps.tokens.iter().filter(|t| **t != tout).collect();
        let tin = if ins.is_empty() { tout.clone() } else { (*r.pick(&ins)).clone() };
        let idx = ps.tokens.iter().position(|t| *t == tout).unwrap();
        let mut o = Map::new();
        o.insert("pool_id".into(), json!(pool)); o.insert("token_in".into(), json!(tin)); o.insert("token_out".into(), json!(tout));
        if k == 0 || r.p(10) { let lim = if r.p(90) { ps.amounts[idx] / 3 + 1 } else { ps.amounts[idx] + 2 }; o.insert("amount_out".into(), json!(r.amount(lim).to_string())); }
        if r.p(70) { let i2 = ps.tokens.iter().position(|t| *t == tin).unwrap(); o.insert("max_amount_in".into(), json!(if r.p(80) { u128::MAX >> 1 } else { r.logu(ps.amounts[i2].max(1)) }.to_string())); }
        acts.push(Value::Object(o));
        tout = tin;
        if r.permille(30) { let q = *r.pick(&live); tout = r.pick(&s.pools[q].tokens).clone(); }
        let next: Vec<usize> = live.iter().cloned().filter(|i| s.pools[*i].tokens.contains(&tout)).collect();
        if next.is_empty() { break; }
        pool = *r.pick(&next);
    }
    Some(acts)
}
pub fn add_amounts(r: &mut Rng, s: &Snap, a: &str, ps: &PoolS) -> Vec<u128> {
    let prop = r.p(40) && ps.supply > 0;
    let f = 1 + r.below128(1_000_000);
    ps.tokens.iter().enumerate().map(|(i, t)| {
        let b = s.deposit(a, t);
        if prop { (U256::from(ps.amounts[i]) * U256::from(f) / U256::from(10_000_000u64)).low_u128().min(b) }
        else if ps.kind != PK::Simple && r.p(25) { 0 }
        else if r.permille(15) { r.u128() }
        else { r.amount(b.min(ps.amounts[i].saturating_mul(3).max(1_000_000)).max(1)).min(b.max(1)) }
    }).collect()
}

/// Choose the next operation. `None` = nothing sensible (or an environment change was applied).
pub fn next_op(w: &mut World, r: &mut Rng, s: &Snap, mix: &Mix) -> Option<Op> {
    let toks: Vec<String> = w.toks.keys().cloned().collect();
    match r.weighted(&mix.w) {
        M_DEPOSIT => { let (u, t) = (who(r), r.pick(&toks).clone()); let x = r.amount(w.ledger(&t, u).max(1)); Some(op_at(u, &t, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":""}), 1)) }
        M_DIRECT => { let (u, t) = (who(r), r.pick(&toks).clone()); let x = r.logu((w.ledger(&t, u) / 100).max(1)); Some(op_at(u, &t, "ft_transfer", json!({"receiver_id":EX,"amount":x.to_string()}), 1)) }
        M_WITHDRAW => {
            let u = who(r);
            let held: Vec<String> = s.dep.get(u).map(|m| m.iter().filter(|(_, v)| **v > 0).map(|(k, _)| k.clone()).collect()).unwrap_or_default();
            let t = if held.is_empty() || r.p(5) { r.pick(&toks).clone() } else if held.iter().any(|t| t == WNEAR) && r.p(30) { WNEAR.into() } else { r.pick(&held).clone() };
            let b = s.deposit(u, &t);
            let x = match r.below(8) { 0 => 0, 1 => b, 2 => b.saturating_add(1), _ => r.amount(b.max(1)) };
            let mut a = json!({"token_id":t,"amount":x.to_string()});
            if r.p(35) { a["unregister"] = json!(r.p(70)); }
            if r.p(40) { a["skip_unwrap_near"] = json!(r.p(30)); }
            Some(op(u, "withdraw", a, 1))
        }
        M_CLAIM => {
            let c: Vec<(String, String)> = s.lost.iter().flat_map(|(a, m)| m.keys().map(move |t| (a.clone(), t.clone()))).collect();
            if c.is_empty() { if r.p(90) { return None; } let t = r.pick(&toks).clone(); return Some(op(who(r), "claim_lostfound", json!({"token_id":t}), 1)); }
            let (a, t) = r.pick(&c).clone();
            let signer = if r.p(85) { a } else { who(r).into() };
            if !w.accts.contains(&signer) || signer == EX { return None; }
            Some(op(&signer, "claim_lostfound", json!({"token_id":t}), 1))
        }
        M_SWAP => {
            let u = who(r);
            let n = 1 + r.weighted(&[60, 25, 10, 5]);
            let start = s.dep.get(u).and_then(|m| { let v: Vec<&String> = m.iter().filter(|(_, x)| **x > 0).map(|(k, _)| k).collect(); if v.is_empty() { None } else { Some((*r.pick(&v)).clone()) } });
            let (mut acts, _) = swap_actions(r, s, u, start.as_deref(), n, None)?;
            if r.permille(10) { if let Some(x) = swapout_actions(r, s, None, 1) { if r.p(50) { acts.extend(x); } else { acts.splice(0..0, x); } } }
            let dep = if r.p(50) { 1 } else { 0 };
            let m = if r.p(50) { "swap" } else { "execute_actions" };
            Some(op(u, m, json!({"actions":acts,"referral_id":referral(r),"skip_degen_price_sync":r.p(70)}), dep))
        }
        M_SWAPOUT => {
            let n = 1 + r.weighted(&[60, 25, 15]);
            let acts = swapout_actions(r, s, None, n)?;
            let m = if r.p(50) { "swap_by_output" } else { "execute_actions" };
            Some(op(who(r), m, json!({"actions":acts,"referral_id":referral(r),"skip_degen_price_sync":true}), if r.p(50) { 1 } else { 0 }))
        }
        M_VA => {
            let u = who(r);
            let start = s.dep.get(u).and_then(|m| { let v: Vec<&String> = m.iter().filter(|(_, x)| **x > 0).map(|(k, _)| k).collect(); if v.is_empty() { None } else { Some((*r.pick(&v)).clone()) } })?;
            let bal = s.deposit(u, &start);
            let x = r.amount(bal.max(1)).min(bal);
            let mut use_tokens = Map::new();
            let acts = if r.p(75) { let n = 1 + r.us(3); let (mut acts, first) = swap_actions(r, s, u, Some(&start), n, Some(x))?; if acts[0].get("amount_in").is_none() { acts[0]["amount_in"] = json!(x.to_string()); } use_tokens.insert(first, json!(x.to_string())); acts }
                else { let n = 1 + r.us(2); let acts = swapout_actions(r, s, None, n)?; for a in &acts { let t = a["token_in"].as_str().unwrap(); if r.p(60) { use_tokens.insert(t.into(), json!(s.deposit(u, t).to_string())); } } acts };
            if r.p(20) { let t = r.pick(&toks).clone(); let y = s.deposit(u, &t); if y > 0 { use_tokens.insert(t, json!(r.amount(y).min(y).to_string())); } }
            Some(op(u, "execute_actions_in_va", json!({"use_tokens":use_tokens,"actions":acts,"referral_id":referral(r),"skip_degen_price_sync":r.p(60)}), if r.p(50) { 1 } else { 0 }))
        }
        M_INSTANT => {
            let u = if r.p(8) { BOOST } else { who(r) };
            let live: Vec<&PoolS> = s.pools.iter().filter(|p| p.supply > 0).collect();
            if live.is_empty() { return None; }
            let t = { let p = r.pick(&live); r.pick(&p.tokens).clone() };
            let b = w.ledger(&t, u);
            if b == 0 { w.mint(&t, u, 1_000_000); return None; }
            let poolbal = s.pools.iter().filter_map(|p| p.tokens.iter().position(|x| *x == t).map(|i| p.amounts[i])).max().unwrap_or(1);
            let x = r.amount(b.min(poolbal.max(2) / 2)).max(1).min(b);
            let out_kind = r.p(25);
            let acts = if out_kind { let n = 1 + r.us(2); swapout_actions(r, s, None, n)? } else { let n = 1 + r.us(3); swap_actions(r, s, u, Some(&t), n, Some(x))?.0 };
            let mut msg = json!({"actions":acts});
            if r.p(30) { msg["referral_id"] = referral(r); }
            match r.below(6) { 0 => { msg["swap_out_recipient"] = json!(who(r)); } 1 => { msg["client_echo"] = json!(if r.p(50) { "x" } else { "" }); } _ => {} }
            if r.p(50) { msg["skip_unwrap_near"] = json!(r.p(40)); }
            if r.p(70) { msg["skip_degen_price_sync"] = json!(true); }
            if msg["referral_id"].is_null() { msg.as_object_mut().unwrap().remove("referral_id"); }
            let (t, x) = if out_kind { // send the token the last-listed hop needs
                let tin = acts_last_in(&msg); let b = w.ledger(&tin, u); if b == 0 { w.mint(&tin, u, 1_000_000_000); return None; } (tin, r.amount(b)) } else { (t, x) };
            Some(op_at(u, &t, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":msg.to_string()}), 1))
        }
        M_HOTZAP => { let u = who(r); hotzap(w, r, s, u) }
        M_ADD => {
            let u = who(r);
            let p = pick_pool(r, s, &[], false)?;
            let ps = &s.pools[p as usize];
            let mut a = add_amounts(r, s, u, ps);
            if r.permille(8) { if r.p(50) { a.pop(); } else { a.push(1 + r.below128(1000)); } }
            let (simple_m, dep) = (ps.kind == PK::Simple, match r.below(10) { 0 => 0, 1 => 1, _ => NEAR / 100 });
            if simple_m != r.permille(20) { let mut j = json!({"pool_id":p,"amounts":js(&a)}); if r.p(40) { j["min_amounts"] = js(&a.iter().map(|x| x / 100 * (r.below(101) as u128)).collect::<Vec<_>>()); } Some(op(u, "add_liquidity", j, dep)) }
            else { let min = if r.p(80) { 1 } else { r.logu(ps.supply.max(1)) }; Some(op(u, "add_stable_liquidity", json!({"pool_id":p,"amounts":js(&a),"min_shares":min.to_string()}), dep)) }
        }
        M_REMOVE => {
            let mut c: Vec<(usize, String, u128)> = vec![];
            for (i, m) in s.shares.iter().enumerate() { for (a, x) in m { if a != EX && w.ch.accounts.contains_key(a) { c.push((i, a.clone(), *x)); } } }
            if c.is_empty() { return None; }
            let (p, u, x) = r.pick(&c).clone();
            let x = if r.p(4) { x.saturating_add(1) } else { r.amount(x) };
            let ps = &s.pools[p];
            let mins: Vec<u128> = if r.p(75) { vec![0; ps.tokens.len()] } else { ps.amounts.iter().map(|y| r.logu((*y).max(1))).collect() };
            Some(op(&u, "remove_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":js(&mins)}), 1))
        }
        M_REMTOK => {
            let mut c: Vec<(usize, String, u128)> = vec![];
            for (i, m) in s.shares.iter().enumerate() { if s.pools[i].kind == PK::Simple { continue; } for (a, x) in m { if a != EX { c.push((i, a.clone(), *x)); } } }
            if c.is_empty() { return None; }
            let (p, u, x) = r.pick(&c).clone();
            let ps = &s.pools[p];
            let frac = if r.p(80) { x } else { ps.supply };
            let a: Vec<u128> = ps.amounts.iter().map(|y| if r.p(35) { 0 } else { let lim = (U256::from(*y) * U256::from(frac) / U256::from(ps.supply.max(1))).low_u128(); r.amount(lim.max(1)) }).collect();
            let max = if r.p(75) { ps.supply } else { r.logu(x) };
            Some(op(&u, "remove_liquidity_by_tokens", json!({"pool_id":p,"amounts":js(&a),"max_burn_shares":max.to_string()}), 1))
        }
        M_MFT => {
            let u = who(r);
            let p = pick_pool(r, s, &[], false)?;
            match r.below(8) {
                0 => Some(op(u, "mft_register", json!({"token_id":format!(":{}", p),"account_id":if r.p(60) { u } else { *r.pick(&[REF1, REF2, LIQ, USERS[3], BOOST, EX]) }}), if r.p(90) { NEAR / 50 } else { 1 })),
                1 => {
                    // someone who holds next to nothing, if there is one
                    let few: Vec<(usize, String)> = s.shares.iter().enumerate().flat_map(|(q, m)| m.iter().filter(|x| *x.1 < 3 && USERS.contains(&x.0.as_str())).map(move |x| (q, x.0.clone()))).collect();
                    if !few.is_empty() && r.p(70) { let (q, v) = r.pick(&few).clone(); return Some(op(&v, "mft_unregister", json!({"token_id":format!(":{}", q)}), 1)); }
                    Some(op(u, "mft_unregister", json!({"token_id":format!(":{}", p)}), 1))
                }
                2 | 3 => { let t = r.pick(&toks).clone(); let b = s.deposit(u, &t); let x = r.amount(b.max(1)); Some(op(u, "mft_transfer", json!({"token_id":t,"receiver_id":who(r),"amount":x.to_string()}), 1)) }
                _ => { let b = s.share(p as usize, u); let x = if b > 1 && r.p(15) { b - 1 } else { r.amount(b.max(1)) }; let to = if r.p(5) { EX } else { who(r) }; Some(op(u, "mft_transfer", json!({"token_id":format!(":{}", p),"receiver_id":to,"amount":x.to_string()}), 1)) }
            }
        }
        M_MFTCALL => {
            let u = who(r);
            let p = pick_pool(r, s, &[], true)?;
            let rcv = if r.p(80) { *r.pick(&[BOOST, BURROW]) } else { who(r) };
            if r.p(50) && !s.shares[p as usize].contains_key(rcv) { let _ = w.quiet(u, "mft_register", json!({"token_id":format!(":{}", p),"account_id":rcv}), NEAR / 50); }
            if r.p(12) { let t = r.pick(&toks).clone(); let x = r.amount(s.deposit(u, &t).max(1)); return Some(op(u, "mft_transfer_call", json!({"token_id":t,"receiver_id":rcv,"amount":x.to_string(),"msg":""}), 1)); }
            let x = r.amount(s.share(p as usize, u).max(1));
            if r.p(75) { Some(op(u, "mft_transfer_call", json!({"token_id":format!(":{}", p),"receiver_id":rcv,"amount":x.to_string(),"msg":"m"}), 1)) }
            else { Some(op(u, "mft_transfer_all_call", json!({"token_id":format!(":{}", p),"receiver_id":rcv,"msg":"m"}), 1)) }
        }
        M_DONATE => {
            let u = who(r);
            if r.p(50) {
                let p = pick_pool(r, s, &[], true)?;
                let mut a = json!({"pool_id":p});
                if r.p(80) { a["amount"] = json!(r.amount(s.share(p as usize, u).max(1)).to_string()); }
                if r.p(40) { a["unregister"] = json!(r.p(50)); }
                Some(op(u, "donation_share", a, 1))
            } else {
                let t = r.pick(&toks).clone();
                let mut a = json!({"token_id":t});
                if r.p(90) { a["amount"] = json!(r.logu(s.deposit(u, &t).max(1)).to_string()); }
                if r.p(25) { a["unregister"] = json!(r.p(50)); }
                Some(op(u, "donation_token", a, 1))
            }
        }
        M_SHADOW => {
            let c: Vec<(usize, String)> = s.shares.iter().enumerate().flat_map(|(i, m)| m.keys().filter(|a| a.as_str() != EX).map(move |a| (i, a.clone()))).collect();
            if c.is_empty() { return None; }
            let (p, u) = r.pick(&c).clone();
            if !w.ch.accounts.contains_key(&u) { return None; }
            let (f, b) = s.shad(&u, p as u64);
            let tot = s.share(p, &u);
            let (act, lim) = match r.below(6) { 0 | 1 => ("ToFarming", tot - f.min(tot)), 2 | 3 => ("ToBurrowland", tot - b.min(tot)), 4 => ("FromFarming", f), _ => ("FromBurrowland", b) };
            let mut a = json!({"action":act,"pool_id":p,"msg":"m"});
            if r.p(85) { let x = if r.p(5) { lim.saturating_add(1) } else { r.amount(lim.max(1)) }; a["amount"] = json!(x.to_string()); }
            Some(op(&u, "shadow_action", a, if r.p(95) { NEAR / 50 } else { 0 }))
        }
        M_LIQ => {
            let c: Vec<(String, u64, u128)> = s.shadow.iter().flat_map(|(a, m)| m.iter().filter(|(_, v)| v.1 > 0).map(move |(p, v)| (a.clone(), *p, v.1))).collect();
            if c.is_empty() { return None; }
            let (a, p, b) = r.pick(&c).clone();
            let x = if r.p(8) { b.saturating_add(1 + r.below128(5)) } else { r.amount(b) };
            let ps = &s.pools[p as usize];
            let mins: Vec<u128> = if r.p(85) { vec![0; ps.tokens.len()] } else { ps.amounts.iter().map(|y| r.logu((*y).max(1))).collect() };
            let signer = if r.p(93) { BURROW } else { who(r) };
            Some(op(signer, "on_burrow_liquidation", json!({"liquidator_account_id":if signer != BURROW && r.p(40) { BURROW.to_string() } else if r.p(85) { LIQ.to_string() } else if r.p(50) { a.clone() } else { REF1.to_string() },"liquidation_account_id":a,"shadow_id":format!("shadow_ref_v1-{}", p),"liquidate_share_amount":x.to_string(),"min_token_amounts":js(&mins)}), 0))
        }
        M_STORAGE => {
            let u = if r.p(20) { REF1 } else { who(r) };
            match r.below(5) {
                0 | 1 => { let mut a = json!({}); if r.p(30) { a["account_id"] = json!(*r.pick(&[REF1, REF2, USERS[3], LIQ])); } if r.p(35) { a["registration_only"] = json!(r.p(80)); } Some(op(u, "storage_deposit", a, *r.pick(&[1u128, NEAR / 1000, NEAR / 100, NEAR / 5]))) }
                2 | 3 => { let (d, us) = s.storage.get(u).copied().unwrap_or((0, 0)); let av = d.saturating_sub(us); let mut a = json!({}); if r.p(80) { let x = if r.p(10) { av.saturating_add(1) } else { r.amount(av.max(1)) }; a["amount"] = json!(x.to_string()); } Some(op(u, "storage_withdraw", a, 1)) }
                _ => { if r.p(60) && s.dep.get(u).map_or(false, |m| m.values().any(|x| *x > 0)) { return None; } let mut ts: Vec<String> = s.dep.get(u).map(|m| m.keys().cloned().collect()).unwrap_or_default(); ts.retain(|t| s.deposit(u, t) == 0); if !ts.is_empty() { let _ = w.quiet(u, "unregister_tokens", json!({"token_ids":ts}), 1); } Some(op(u, "storage_unregister", json!({"force":r.p(30)}), 1)) }
            }
        }
        M_REGTOK => { let u = who(r); let t = r.pick(&toks).clone(); Some(op(u, if r.p(55) { "register_tokens" } else { "unregister_tokens" }, json!({"token_ids":[t]}), 1)) }
        M_FEES => match r.below(4) {
            0 => Some(op(OWNER, "modify_admin_fee", json!({"admin_fee_bps":*r.pick(&[0u64, 1, 500, 2000, 8000, 8001, 10000])}), 1)),
            1 => { let p = pick_pool(r, s, &[], false)?; Some(op(*r.pick(&[OWNER, GUARD]), "modify_total_fee", json!({"pool_id":p,"total_fee":*r.pick(&[0u64, 1, 30, 300, 9999, 10000])}), 1)) }
            2 => Some(op(*r.pick(&[OWNER, GUARD]), *r.pick(&["insert_referral", "update_referral"]), json!({"referral_id":*r.pick(&[REF1, REF2, USERS[3]]),"fee_bps":*r.pick(&[0u64, 1, 2000, 9999, 10000])}), 1)),
            _ => Some(op(OWNER, "remove_referral", json!({"referral_id":*r.pick(&[REF1, REF2, USERS[3]])}), 1)),
        },
        M_TREASURY => match r.below(3) {
            0 => { let c: Vec<(usize, u128)> = s.shares.iter().enumerate().filter_map(|(i, m)| m.get(EX).map(|x| (i, *x))).collect(); if c.is_empty() { return None; } let (p, x) = *r.pick(&c); let x = if r.p(6) { x + 1 } else { r.amount(x) }; Some(op(*r.pick(&[OWNER, GUARD]), "remove_exchange_fee_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":js(&vec![0; s.pools[p].tokens.len()])}), 1)) }
            1 => { let held: Vec<(String, u128)> = s.dep.get(OWNER).map(|m| m.iter().filter(|(_, v)| **v > 0).map(|(k, v)| (k.clone(), *v)).collect()).unwrap_or_default(); if held.is_empty() { return None; } let (t, b) = r.pick(&held).clone(); let x = if r.p(6) { b + 1 } else { r.amount(b) }; Some(op(*r.pick(&[OWNER, GUARD]), "withdraw_owner_token", json!({"token_id":t,"amount":x.to_string(),"skip_unwrap_near":r.p(50)}), 1)) }
            _ => { let c: Vec<(String, u128)> = toks.iter().filter_map(|t| { let (l, k) = (w.ledger(t, EX), s.liabilities(t)); let k = k + s.pools.len() as u128; if l > k { Some((t.clone(), l - k)) } else { None } }).collect(); if c.is_empty() || !w.ch.pending.is_empty() { return None; } let (t, x) = r.pick(&c).clone(); Some(op(OWNER, "retrieve_unmanaged_token", json!({"token_id":t,"amount":r.amount(x).to_string()}), 1)) }
        },
        M_GUARD => match r.below(6) {
            0 => { let t = r.pick(&toks).clone(); Some(op(GUARD, "extend_frozenlist_tokens", json!({"tokens":[t]}), 1)) }
            1 | 2 => { let v: Vec<String> = s.frozen.iter().cloned().collect(); if v.is_empty() { return None; } let t = r.pick(&v).clone(); Some(op(OWNER, "remove_frozenlist_tokens", json!({"tokens":[t]}), 1)) }
            3 => Some(op(GUARD, "change_state", json!({"state":"Paused"}), 1)),
            _ => Some(op(OWNER, "change_state", json!({"state":"Running"}), 1)),
        },
        M_PRICE => {
            if r.p(30) { shuffle_prices(w, r); }
            let t = { let v: Vec<&String> = toks.iter().filter(|t| t.starts_with("r") || t.starts_with("dg")).collect(); if v.is_empty() { return None; } (*r.pick(&v)).clone() };
            if t.starts_with("dg") { if r.p(50) { Some(op(who(r), "update_degen_token_price", json!({"token_id":t}), 0)) } else { Some(op(who(r), "batch_update_degen_token_price", json!({"token_ids":w.degen_tokens()}), 0)) } }
            else { Some(op(who(r), "update_token_rate", json!({"token_id":t}), 0)) }
        }
        M_TIME => { let d = match r.below(5) { 0 => 1, 1 => 60, 2 => 800, 3 => 4000, _ => 90_000 }; w.ch.ts += (1 + r.below(d)) * SEC; None }
        M_FAULT => { fault(w, r, &toks); None }
        M_AMP => { let p = pick_pool(r, s, &[PK::Stable, PK::Rated, PK::Degen], false)?; let a = s.pools[p as usize].amp; if r.p(70) { let f = 1 + r.below(4); let na = if r.p(50) { a * f } else { (a / f).max(1) }; let t = w.ch.ts + DAY + 100 * SEC + r.below(10) * DAY; Some(op(GUARD, "stable_swap_ramp_amp", json!({"pool_id":p,"future_amp_factor":na,"future_amp_time":t.to_string()}), 1)) } else { Some(op(OWNER, "stable_swap_stop_ramp_amp", json!({"pool_id":p}), 1)) } }
        _ => None,
    }
}
fn acts_last_in(msg: &Value) -> String { let a = msg["actions"].as_array().unwrap(); a[a.len() - 1]["token_in"].as_str().unwrap().to_string() }

pub fn hotzap(w: &mut World, r: &mut Rng, s: &Snap, u: &str) -> Option<Op> {
    let live: Vec<usize> = (0..s.pools.len()).filter(|i| s.pools[*i].supply > 0).collect();
    if live.is_empty() { return None; }
    let target = *r.pick(&live);
    let tp = &s.pools[target];
    // one swap from some token into one of the target's tokens, plus the rest
    let p0 = *r.pick(&live);
    let ps = &s.pools[p0];
    let shared: Vec<&String> = tp.tokens.iter().filter(|t| ps.tokens.contains(t)).collect();
    let (acts, t, x) = if !shared.is_empty() {
        let out = (*r.pick(&shared)).clone();
        let ins: Vec<&String> = ps.tokens.iter().filter(|t| **t != out).collect();
        if ins.is_empty() { return None; }
        let tin = (*r.pick(&ins)).clone();
        let b = w.ledger(&tin, u);
        if b == 0 { return None; }
        let idx = ps.tokens.iter().position(|y| *y == tin).unwrap();
        let x = r.amount(b.min(ps.amounts[idx] / 3 + 2)).max(1).min(b);
        let half = if r.p(70) { x / 2 + 1 } else { x };
        (vec![json!({"pool_id":p0,"token_in":tin,"amount_in":half.min(x).to_string(),"token_out":out,"min_amount_out":"0"})], tin, x)
    } else {
        let b0 = { let t = r.pick(&ps.tokens).clone(); (t.clone(), w.ledger(&t, u)) };
        if b0.1 == 0 { return None; }
        let x = r.amount(b0.1.min(ps.amounts[0] / 3 + 2)).max(1).min(b0.1);
        let n = 1 + r.us(3);
        let (a, _) = swap_actions(r, s, u, Some(&b0.0), n, Some(x))?;
        (a, b0.0, x)
    };
    // what will be available, from the quote
    let mut td = Map::new(); td.insert(t.clone(), json!(x.to_string()));
    let mut qa = acts.clone();
    if qa[0].get("amount_in").is_none() { qa[0]["amount_in"] = json!(x.to_string()); }
    let have = w.vr("predict_swap_actions", json!({"token_deposit":td,"actions":qa})).ok();
    let mut infos = vec![];
    let several = r.p(22);
    let mut left: std::collections::BTreeMap<String, u128> = have.as_ref().and_then(|h| h.as_object().cloned()).map(|o| o.iter().map(|(k, v)| (k.clone(), num(v))).collect()).unwrap_or_default();
    // other pools that can take something of what there is
    let more: Vec<usize> = live.iter().cloned().filter(|p| *p != target && s.pools[*p].tokens.iter().any(|t| left.get(t).map_or(false, |x| *x > 1)) && (s.pools[*p].kind != PK::Simple || s.pools[*p].tokens.iter().all(|t| left.get(t).map_or(false, |x| *x > 1)))).collect();
    for k in 0..1 + several as usize * (1 + r.weighted(&[80, 20])) {
        let tg = if k == 0 { target } else if !more.is_empty() && r.p(75) { *r.pick(&more) } else { *r.pick(&live) };
        let tp = &s.pools[tg];
        let a: Vec<u128> = tp.tokens.iter().map(|t| { let h = left.get(t).cloned().unwrap_or(0); if several && k == 0 && h > 1 && r.p(80) { h / 2 } else if h == 0 { if r.p(3) { 5 } else { 0 } } else if r.p(4) { h + 1 } else if r.p(50) { h } else { r.amount(h) } }).collect();
        for (t, x) in tp.tokens.iter().zip(&a) { if let Some(l) = left.get_mut(t) { *l = l.saturating_sub(*x); } }
        let mut a = a;
        if r.permille(8) { if r.p(50) { a.pop(); } else { a.push(1 + r.below128(1000)); } }
        let mut o = json!({"pool_id":tg,"amounts":js(&a)});
        if tp.kind == PK::Simple || r.p(5) { o["min_amounts"] = js(&vec![if r.p(90) { 0 } else { 1_000_000 }; tp.tokens.len()]); }
        if tp.kind != PK::Simple || r.p(5) { o["min_shares"] = json!(if r.p(90) { "0".to_string() } else { r.logu(tp.supply).to_string() }); }
        infos.push(o);
    }
    let mut msg = json!({"hot_zap_actions":acts,"add_liquidity_infos":infos,"skip_degen_price_sync":r.p(70)});
    if r.p(30) { let x = referral(r); if !x.is_null() { msg["referral_id"] = x; } }
    Some(op_at(u, &t, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":msg.to_string()}), 1))
}

pub fn fault(w: &mut World, r: &mut Rng, toks: &[String]) {
    let t = r.pick(toks).clone();
    let u = who(r).to_string();
    match r.below(9) {
        0 => { let f = w.ch.mock(&t).ft(); f.fail = !f.fail && r.p(60); }
        1 | 2 => { let f = w.ch.mock(&t).ft(); if !f.deny.remove(&u) { f.deny.insert(u); } }
        3 => { let f = w.ch.mock(WNEAR).ft(); f.fail_near_withdraw = !f.fail_near_withdraw; }
        4 => { for t in toks { let f = w.ch.mock(t).ft(); f.fail = false; f.deny.clear(); f.fail_near_withdraw = false; } }
        5 | 6 => {
            let c = *r.pick(&[BOOST, BURROW]);
            let m = *r.pick(&["on_cast_shadow", "on_remove_shadow"]);
            if let Mock::Script(s) = w.ch.mock(c) { let a = if r.p(50) { Answer::fail() } else { Answer::json(Value::Null) }; s.answers.insert(m.into(), a); }
        }
        _ => {
            let c = *r.pick(&[BOOST, BURROW]);
            let a = match r.below(7) { 0 => Answer::fail(), 1 => Answer { emit: vec![], reply: Reply::Raw(b"garbage".to_vec()), forward_last: false }, 2 => Answer::json(json!(u128::MAX.to_string())), 3 => Answer::json(json!(r.logu(1 << 90).to_string())), 4 => Answer { emit: vec![], reply: Reply::Nothing, forward_last: false }, _ => Answer::json(json!("0")) };
            if let Mock::Script(s) = w.ch.mock(c) { s.answers.insert("mft_on_transfer".into(), a); }
        }
    }
}
