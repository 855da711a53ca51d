//! C25 rates and prices, C28 time-weighted per-share amounts.
use super::custody::args;
use super::swap::c_factor;
use super::*;
use crate::chain::{Receipt, NEAR};
use crate::mocks::{Answer, Reply};
use crate::util::*;
use crate::vm::PRes;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C25", f: c25, rule: "one evaluation per receipt against the stored rates and prices (unchanged, or exactly the provider's answer) and per trade in a rated or degen pool against the age of every value; non-trivial = a callback with an answer, or a trade attempted with a value near or past expiry, keyed by provider, what is wrong with the answer, age and outcome", quick_secs: 18, min_evals: 5_000 },
        Check { id: "C28", f: c28, rule: "one evaluation per receipt per tracked pool: the accumulated amounts grow by exactly the sum of the per-second values that held, records keep order, number and spacing, and the published average equals the average over its window; non-trivial = an update or an average, keyed by method, pool kind, elapsed time and whether the value moved", quick_secs: 18, min_evals: 5_000 },
    ]
}
fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }
fn h(s: String) -> u64 { hash64(s.as_bytes()) }

// ------------------------------------------------------------------ C28
#[derive(Clone)]
struct Track { hist: BTreeMap<u64, (Vec<U256>, u64)>, sec: u64, val: Option<Vec<u128>>, cum: Vec<U256>, undef: u64, info: Value, moved: bool }
impl Track {
    fn at(&self, sec: u64) -> (Vec<U256>, u64) {
        if let Some(x) = self.hist.get(&sec) { return x.clone(); }
        let d = sec - self.sec;
        match &self.val { Some(v) => (self.cum.iter().zip(v).map(|(c, x)| *c + U256::from(*x) * U256::from(d)).collect(), self.undef), None => (self.cum.clone(), self.undef + d) }
    }
    fn advance(&mut self, sec: u64) { if sec > self.sec { let (c, u) = self.at(sec); self.cum = c; self.undef = u; self.sec = sec; self.hist.insert(sec, (self.cum.clone(), self.undef)); } }
}
fn share_unit(k: PK) -> u128 { if k == PK::Stable { 10u128.pow(18) } else { PREC24 } }
/// what one whole share is worth, computed from the reserves; None when the pool has too few shares
fn unit_value(ps: &PoolS) -> Option<Vec<u128>> {
    let u = share_unit(ps.kind);
    if ps.supply <= u { return None; }
    Some((0..ps.tokens.len()).map(|i| {
        let raw = if ps.kind == PK::Simple { ps.amounts[i] } else { ps.c[i] };
        let v = crate::math::muldiv(raw, u, ps.supply);
        if ps.kind == PK::Simple { v } else { let (f, div) = c_factor(ps.kind, ps.dec[i]); v / f * div }
    }).collect())
}
fn big(v: &Value) -> U256 { U256::from_dec_str(v.as_str().unwrap_or("0")).unwrap() }
fn bigs(v: &Value) -> Vec<U256> { v.as_array().map(|a| a.iter().map(big).collect()).unwrap_or_default() }
struct M28 { tr: BTreeMap<u64, Track>, interval: u64, fork: Option<World> }
impl M28 {
    fn info(w: &World, p: u64) -> Value { w.vr("get_pool_twap_info_view", json!({"pool_id":p})).unwrap_or(Value::Null) }
    fn check_view(&self, w: &World, p: u64, ts: u64, env: &mut Env) -> Res {
        let t = &self.tr[&p];
        let sec = ts / SEC;
        if sec < t.sec { return Ok(()); }
        let recs = t.info["records"].as_array().unwrap();
        let v = match w.ch.view_at(EX, "get_unit_share_twap_token_amounts", json!({"pool_id":p}), ts) { Ok(v) => v, Err(_) => { env.rep.count("average not available (call failed)"); return Ok(()); } };
        let last = recs.last().unwrap()["time_sec"].as_u64().unwrap();
        // with the update the average itself implies, there are enough records only if ...
        let pushed = sec > t.info["last_update_sec"].as_u64().unwrap() && sec - last >= self.interval;
        let n = recs.len() + pushed as usize;
        if v.is_null() { env.rep.eval("average withheld", None); return Ok(()); }
        ensure!(n >= 60, "pool {}: an average is published from {} records", p, n);
        let got = nums(&v);
        let end = t.at(sec);
        let mut cands = vec![];
        for k in 0..2 {
            let s = recs[k]["time_sec"].as_u64().unwrap();
            let st = t.at(s);
            if end.1 != st.1 { env.rep.count("average over seconds without a value (not judged)"); return Ok(()); }
            if sec == s { continue; }
            cands.push(end.0.iter().zip(&st.0).map(|(a, b)| ((*a - *b) / U256::from(sec - s)).as_u128()).collect::<Vec<u128>>());
        }
        ensure!(cands.contains(&got), "pool {} at second {}: the published average is {:?}, the per-second values average {:?} (window {}..)", p, sec, got, cands, recs[0]["time_sec"]);
        env.rep.eval("average equals the values that held", Some(h(format!("avg {} {:?} {}", p, got.iter().map(|x| lg(*x)).collect::<Vec<_>>(), lg((sec - recs[0]["time_sec"].as_u64().unwrap()) as u128)))));
        env.rep.sample("average", || json!({"pool": p, "average": v, "window_start": recs[0]["time_sec"], "now": sec}));
        Ok(())
    }
}
impl Monitor for M28 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        if r.p(12) { w.ch.dt = *r.pick(&[SEC, SEC, SEC / 4, SEC / 20, 3 * SEC, 7 * SEC + 1]); }
        if r.p(6) { w.ch.ts += r.logu(5000) as u64 * SEC; }
        if r.p(30) {
            let n = s.pools.len() as u64;
            let p = if !self.tr.is_empty() && r.p(90) { *r.pick(&self.tr.keys().cloned().collect::<Vec<_>>()) } else { r.below(n) };
            return Some(match r.below(40) {
                0 => gen::op(*r.pick(&[OWNER, GUARD, USERS[0]]), "unregister_pool_twap_record", json!({"pool_id":p}), 1),
                1..=4 => gen::op(*r.pick(&[OWNER, GUARD]), "register_pool_twap_record", json!({"pool_id":r.below(n)}), 1),
                5 => gen::op(*r.pick(&[OWNER, GUARD]), "modify_cumulative_info_record_interval_sec", json!({"record_interval_sec":*r.pick(&[0u64, 1, 1, 2, 5])}), 1),
                6..=11 => { if !w.ch.pending.is_empty() { return None; } let tw: Vec<u64> = s.pools.iter().enumerate().filter(|(i, p)| p.supply > 0 && self.tr.contains_key(&(*i as u64))).map(|(i, _)| i as u64).collect(); if tw.is_empty() { return None; }
                    // a big one-sided change that may be reversed within the second
                    let p = *r.pick(&tw); let ps = &s.pools[p as usize]; let u = USERS[r.us(4)];
                    let t = r.pick(&ps.tokens).clone(); let i = ps.tokens.iter().position(|x| *x == t).unwrap();
                    let x = r.amount(ps.amounts[i].max(2)); w.quiet_fund(u, &t, x);
                    let o = ps.tokens[(i + 1) % ps.tokens.len()].clone();
                    gen::op(u, "swap", json!({"actions":[{"pool_id":p,"token_in":t,"amount_in":x.to_string(),"token_out":o,"min_amount_out":"0"}],"skip_degen_price_sync":true}), 1) }
                _ => gen::op(*r.pick(&[OWNER, USERS[0], USERS[1]]), "sync_pool_twap_record", json!({"pool_id":p}), 0),
            });
        }
        None
    }
    fn before(&mut self, w: &mut World, rc: &Receipt) {
        let m = match rc.actions.first() { Some(crate::vm::Action::Call { method, .. }) => method.as_str(), _ => "" };
        self.fork = if rc.receiver == EX && !self.tr.is_empty() && matches!(m, "swap" | "swap_by_output" | "execute_actions" | "execute_actions_in_va" | "ft_on_transfer" | "add_liquidity" | "add_stable_liquidity" | "remove_liquidity" | "remove_liquidity_by_tokens" | "on_burrow_liquidation" | "remove_exchange_fee_liquidity") { let mut f = w.clone(); f.ch.ts += f.ch.dt; f.ch.dt = 0; Some(f) } else { None };
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if ev.receiver != EX { return Ok(()); }
        if let Some(mut f) = self.fork.take() {
            if ev.ok.is_err() {
                for p in self.tr.keys() { let _ = f.quiet(OWNER, "unregister_pool_twap_record", json!({"pool_id":p}), 1); }
                let i = f.pos(ev.rid).unwrap(); let k = f.exec_fast(i);
                ensure!(f.ch.log[k].ok.is_err(), "fails only because a pool is tracked: {} (untracked: {})", fmt_ev(ev), fmt_ev(&f.ch.log[k]));
                env.rep.eval("fails without tracking too", None);
            }
        }
        let sec = ev.ts / SEC;
        self.interval = st.post.meta["cumulative_info_record_interval_sec"].as_u64().unwrap_or(0);
        let interval = st.pre.meta["cumulative_info_record_interval_sec"].as_u64().unwrap_or(0);
        for p in 0..st.post.pools.len() as u64 {
            let ps = &st.post.pools[p as usize];
            let val = unit_value(ps);
            let seen = w.vr("get_unit_share_token_amounts", json!({"pool_id":p})).ok().map(|v| nums(&v));
            ensure!(val.is_some() == seen.is_some(), "pool {}: {} shares, per-share amounts {:?} (from the reserves {:?})", p, ps.supply, seen, val);
            if let (Some(a), Some(b)) = (&val, &seen) { ensure!(a.iter().zip(b).all(|(x, y)| y <= x && x - y <= 1), "pool {}: per-share amounts are {:?}, the reserves say {:?}", p, b, a); }
            let info = M28::info(w, p);
            let t = match self.tr.get_mut(&p) {
                None => {
                    if info.is_null() { continue; }
                    ensure!(ev.method == "register_pool_twap_record" && (ev.pred == OWNER || ev.pred == GUARD), "pool {} becomes tracked by {}", p, fmt_ev(ev));
                    let rec = info["records"].as_array().cloned().unwrap_or_default();
                    ensure!(rec.len() == 1 && rec[0]["time_sec"] == json!(sec) && info["last_update_sec"] == json!(sec) && rec[0]["cumulative_token_amounts"] == info["cumulative_token_amounts"], "pool {} starts with {}", p, info);
                    let n = ps.tokens.len();
                    let z = vec![U256::zero(); n];
                    let mut hist = BTreeMap::new(); hist.insert(sec, (z.clone(), 0));
                    self.tr.insert(p, Track { hist, sec, val: seen, cum: z, undef: 0, info, moved: false });
                    env.rep.eval("tracking starts", Some(p));
                    continue;
                }
                Some(t) => t,
            };
            if info.is_null() {
                ensure!(ev.method == "unregister_pool_twap_record" && (ev.pred == OWNER || ev.pred == GUARD), "pool {} is no longer tracked after {}", p, fmt_ev(ev));
                self.tr.remove(&p);
                continue;
            }
            t.advance(sec);
            let (l0, l1) = (t.info["last_update_sec"].as_u64().unwrap(), info["last_update_sec"].as_u64().unwrap());
            let (c0, c1) = (bigs(&t.info["cumulative_token_amounts"]), bigs(&info["cumulative_token_amounts"]));
            let (r0, r1) = (t.info["records"].as_array().unwrap().clone(), info["records"].as_array().unwrap().clone());
            if t.info != info {
                ensure!(l1 >= l0 && (l1 == l0 || l1 == sec), "pool {}: last update goes from second {} to {} at second {}: {}", p, l0, l1, sec, fmt_ev(ev));
                // records: append one, drop the oldest
                let (mut base, mut new) = (r0.clone(), None);
                if r1.last() != r0.last() || r1.len() > r0.len() { new = r1.last().cloned(); }
                if r1.len() < r0.len() + new.is_some() as usize { base.remove(0); }
                if let Some(n) = &new { base.push(n.clone()); }
                ensure!(base == r1 && r1.len() <= 60 && !r1.is_empty() && (r1.len() == r0.len() + new.is_some() as usize || r0.len() == 60), "pool {}: {} records become {} (times {:?} -> {:?}): {}", p, r0.len(), r1.len(), r0.iter().map(|x| x["time_sec"].as_u64()).collect::<Vec<_>>(), r1.iter().map(|x| x["time_sec"].as_u64()).collect::<Vec<_>>(), fmt_ev(ev));
                if let Some(n) = &new {
                    let (a, b) = (r0.last().unwrap()["time_sec"].as_u64().unwrap(), n["time_sec"].as_u64().unwrap());
                    ensure!(b == sec && b > a && b - a >= interval, "pool {}: a record at second {} follows one at {} (interval {})", p, b, a, interval);
                    ensure!(bigs(&n["cumulative_token_amounts"]) == c1, "pool {}: the new record does not hold the accumulated amounts", p);
                }
                let (h0, h1) = (t.at(l0), t.at(l1));
                if h0.1 == h1.1 {
                    for i in 0..c1.len() {
                        let (d, e) = (c1[i].overflowing_sub(c0[i]).0, h1.0[i] - h0.0[i]);
                        ensure!(d == e, "pool {} token {}: between seconds {} and {} the accumulated amount grows by {} while the values that held add up to {} (now {:?}): {}", p, i, l0, l1, d, e, seen, fmt_ev(ev));
                    }
                } else { env.rep.count("update across seconds without a value (not judged)"); }
                env.rep.eval("update adds what held", Some(h(format!("{} {:?} {} {} {}", ev.method, ps.kind, lg((l1 - l0) as u128), t.moved, new.is_some()))));
                env.rep.count(&format!("updated by {}", ev.method));
                t.moved = false;
            } else { env.rep.eval("record unchanged", None); }
            if t.val != seen { t.moved = true; if ev.method == "ft_on_transfer" && args(&ev.args)["msg"].as_str().map_or(false, |m| m.contains("hot_zap")) { env.rep.count("value moved by a hot zap"); } env.rep.count(&format!("value moved by {}", ev.method)); }
            t.val = seen;
            t.info = info;
            if ev.method == "sync_pool_twap_record" && ev.ok.is_ok() && num(&args(&ev.args)["pool_id"]) as u64 == p { ensure!(l1 == sec, "pool {}: synchronised at second {}, but last update is {}", p, sec, l1); }
        }
        let ks: Vec<u64> = self.tr.keys().cloned().collect();
        for p in ks { let d = ev.rid as u64 * 7919 % 5; if self.tr[&p].info["records"].as_array().unwrap().len() >= 58 || d == 0 { let ts = w.ch.ts + [0, SEC, 13 * SEC, 60 * SEC][(ev.rid + p as usize) % 4]; self.check_view(w, p, ts, env)?; } }
        Ok(())
    }
}
fn c28(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 1 + r.us(3), stable: 1 + r.us(2), rated: r.p(25), degen: r.p(20), overprecise: r.p(10) };
    let mut w = gen::world(env.codes, &mut r, &sp);
    // enough shares to be tracked
    for p in 0..w.pool_count() {
        let ps = w.pool(p);
        if ps.supply == 0 || ps.supply > share_unit(ps.kind) && r.p(70) { continue; }
        let a: Vec<u128> = ps.amounts.iter().map(|x| x * (1 + r.below128(3)) + 1).collect();
        if a.iter().all(|x| *x < 1 << 100) { w.keep_oplog = false; for (t, x) in ps.tokens.iter().zip(&a) { w.fund(USERS[1], t, *x); } let m = if ps.kind == PK::Simple { json!({"pool_id":p,"amounts":js(&a)}) } else { json!({"pool_id":p,"amounts":js(&a),"min_shares":"0"}) }; let _ = w.ex(USERS[1], if ps.kind == PK::Simple { "add_liquidity" } else { "add_stable_liquidity" }, m, NEAR / 10); w.keep_oplog = true; }
    }
    w.ok(OWNER, EX, "modify_cumulative_info_record_interval_sec", json!({"record_interval_sec":*r.pick(&[1u64, 1, 2, 4])}), 1);
    let mut m = M28 { tr: BTreeMap::new(), interval: 0, fork: None };
    w.flags = F_MONEY | F_META; w.cached = None;
    for p in 0..w.pool_count() { if r.p(75) { let st = w.ex_step(GUARD, "register_pool_twap_record", json!({"pool_id":p}), 1); m.after(&mut w, &st, env)?; } }
    let mix = Mix::only(&[(gen::M_SWAP, 8), (gen::M_SWAPOUT, 3), (gen::M_VA, 2), (gen::M_INSTANT, 4), (gen::M_HOTZAP, 8), (gen::M_ADD, 8), (gen::M_REMOVE, 8), (gen::M_REMTOK, 5), (gen::M_SHADOW, 4), (gen::M_LIQ, 4), (gen::M_TREASURY, 4), (gen::M_FEES, 1), (gen::M_DONATE, 1), (gen::M_MFT, 1), (gen::M_DEPOSIT, 3)]);
    let cfg = SoupCfg { n: 220, flags: F_MONEY, mix, conc: *r.pick(&[0u64, 0, 15]) };
    soup_m(env, &mut w, &mut r, &cfg, &mut m)?;
    let ks: Vec<u64> = m.tr.keys().cloned().collect();
    w.ch.dt = SEC;
    for p in ks { for _ in 0..62 { let st = w.ex_step(USERS[0], "sync_pool_twap_record", json!({"pool_id":p}), 0); if let Err(e) = m.after(&mut w, &st, env) { *env.story = w.story(40); return Err(e); } if st.ev.ok.is_err() { break; } } }
    Ok(())
}

// ------------------------------------------------------------------ C25
#[derive(Clone, Debug, PartialEq)]
enum Exp { Keep, Set(u128), Maybe(u128) }
type Px = (u128, u64);
#[derive(Clone, Debug)]
enum Src { Plain, SfraxOracle { oracle: String, base: String, rec: u64, stale: u64 }, SfraxPyth { valid: u64 } }
#[derive(Clone, Debug, PartialEq)]
enum Dg { Oracle(u8), Pyth(String) }
struct Cfg { o_expire: u64, o_rec: u64, o_stale: u64, p_expire: u64, p_valid: u64 }
fn price_data(v: &[u8]) -> Option<(u64, u64, Vec<(String, Option<(u128, u8)>)>)> {
    let v: Value = serde_json::from_slice(v).ok()?;
    let ts = v["timestamp"].as_str()?.parse::<u64>().ok()?;
    let rec = v["recency_duration_sec"].as_u64().filter(|x| *x <= u32::MAX as u64)?;
    let mut out = vec![];
    for p in v["prices"].as_array()? {
        let a = p["asset_id"].as_str()?.to_string();
        let pr = &p["price"];
        out.push((a, if pr.is_null() { None } else { Some((pr["multiplier"].as_str()?.parse::<u128>().ok()?, pr["decimals"].as_u64().filter(|x| *x < 256)? as u8)) }));
    }
    Some((ts, rec, out))
}
fn pyth(v: &Value) -> Option<(i64, i32, i64)> {
    v["conf"].as_str()?.parse::<u64>().ok()?;
    let e = v["expo"].as_i64()?;
    if e < i32::MIN as i64 || e > i32::MAX as i64 { return None; }
    Some((v["price"].as_str()?.parse::<i64>().ok()?, e as i32, v["publish_time"].as_i64()?))
}
/// price times 1e24, rounded down
fn pyth_value(p: i64, e: i32) -> Option<U1024> {
    let x = crate::util::w(PREC24) * U1024::from(p as u64);
    if e > 0 { if e > 38 { return None; } Some(x * p10(e as u32)) } else { if e < -38 { return None; } Some(x / p10((-(e as i64)) as u32)) }
}
fn exp_of(v: Option<U1024>, exotic: bool, zero_ok: bool) -> Exp {
    match v.and_then(to128) { None => Exp::Keep, Some(x) if x == 0 && !zero_ok => Exp::Maybe(0), Some(x) => if exotic { Exp::Maybe(x) } else { Exp::Set(x) } }
}
fn pyth_ok(x: (i64, i32, i64), now: u64, valid: u64) -> Option<bool> {
    if x.0 <= 0 || x.2 <= 0 { return Some(false); }
    if x.2 > (u32::MAX as i64) - 1_000_000 { return None; }
    Some((x.2 as u64 + valid) * SEC >= now)
}
fn judge_pyth(x: Option<(i64, i32, i64)>, now: u64, valid: u64) -> Exp {
    let x = match x { None => return Exp::Keep, Some(x) => x };
    match pyth_ok(x, now, valid) { Some(false) => Exp::Keep, ok => match pyth_value(x.0, x.1) { None => Exp::Keep, v => exp_of(v, ok.is_none() || x.1 > 20 || x.1 < -30, true) } }
}
struct M25 { r: Rng, src: BTreeMap<String, Src>, dg: BTreeMap<String, Dg>, rated: BTreeMap<String, Px>, degen: BTreeMap<String, Option<Px>>, allow: BTreeMap<String, Vec<Exp>>, class: String, blocked: bool, fork: Option<World>, cfg: Cfg, pools: Vec<(Vec<String>, PK)> }
fn read_cfg(w: &World) -> Cfg {
    let c = w.v("list_degen_oracle_configs", json!({}));
    let (o, p) = (&c["PriceOracleConfig"]["PriceOracle"], &c["PythOracleConfig"]["PythOracle"]);
    Cfg { o_expire: o["expire_ts"].as_str().unwrap().parse().unwrap(), o_rec: o["maximum_recency_duration_sec"].as_u64().unwrap(), o_stale: o["maximum_staleness_duration_sec"].as_u64().unwrap(), p_expire: p["expire_ts"].as_str().unwrap().parse().unwrap(), p_valid: p["pyth_price_valid_duration_sec"].as_u64().unwrap() }
}
fn read_src(w: &World) -> BTreeMap<String, Src> {
    w.v("list_rated_tokens", json!({})).as_object().unwrap().iter().map(|(k, v)| (k.clone(), match v["extra_info"].as_str() {
        None => Src::Plain,
        Some(x) => { let e = args(x); if let Some(o) = e.get("PriceOracle") { Src::SfraxOracle { oracle: o["oracle_id"].as_str().unwrap().into(), base: o["base_contract_id"].as_str().unwrap().into(), rec: o["maximum_recency_duration_sec"].as_u64().unwrap(), stale: o["maximum_staleness_duration_sec"].as_u64().unwrap() } } else { Src::SfraxPyth { valid: e["PythOracle"]["pyth_price_valid_duration_sec"].as_u64().unwrap() } } }
    })).collect()
}
fn trade_pools(m: &str, a: &Value) -> Vec<usize> {
    let acts = |v: &Value| -> Vec<usize> { v.as_array().map(|x| x.iter().filter_map(|y| y["pool_id"].as_u64().map(|z| z as usize)).collect()).unwrap_or_default() };
    match m {
        "swap" | "swap_by_output" | "execute_actions" | "execute_actions_in_va" => acts(&a["actions"]),
        "ft_on_transfer" => { let g = args(a["msg"].as_str().unwrap_or("")); let mut v = acts(&g["actions"]); v.extend(acts(&g["hot_zap_actions"])); v }
        "remove_liquidity_by_tokens" => a["pool_id"].as_u64().map(|x| vec![x as usize]).unwrap_or_default(),
        _ => vec![],
    }
}
impl M25 {
    fn expiry(&self, t: &str, k: PK) -> Option<Option<u64>> { // None = never expires; Some(None) = never set
        match k {
            PK::Rated => self.rated.get(t).map(|x| Some(x.1 + DAY)),
            PK::Degen => Some(match self.degen.get(t) { Some(Some(x)) => Some(x.1 + match &self.dg[t] { Dg::Oracle(_) => self.cfg.o_expire, Dg::Pyth(_) => self.cfg.p_expire }), _ => None }),
            _ => None,
        }
    }
    /// latest time at which every value of these pools is still in force; None = some value was never set
    fn good_until(&self, ids: &[usize]) -> Option<u64> {
        let mut g = u64::MAX;
        for p in ids { if let Some((ts, k)) = self.pools.get(*p) { for t in ts { match self.expiry(t, *k) { None => {} Some(None) => return None, Some(Some(x)) => g = g.min(x) } } } }
        Some(g)
    }
    fn answer(&mut self, w: &mut World) {
        let r = &mut self.r;
        let now = w.ch.ts;
        match r.below(10) {
            0 => { w.ch.mock(ORACLE).script().answers.clear(); w.ch.mock(PYTH).script().answers.clear(); gen::shuffle_prices(w, r); }
            1 | 2 => {
                let (t, m) = *r.pick(&[("rs.t", "get_st_near_price"), ("rl.t", "ft_price"), ("rn.t", "get_nearx_price")]);
                if !w.toks.contains_key(t) { return; }
                let a = match r.below(10) { 0 => Answer::fail(), 1 => Answer::json(json!(12345)), 2 => Answer { emit: vec![], reply: Reply::Raw(b"{}garbage".to_vec()), forward_last: false }, 3 => Answer { emit: vec![], reply: Reply::Nothing, forward_last: false }, 4 => Answer::json(json!("-5")), 5 => Answer::json(json!("340282366920938463463374607431768211456")), 6 => Answer::json(Value::Null), _ => { let x = gen::near_one(r); Answer::json(json!(x.to_string())) } };
                w.ch.mock(t).ft().script.answers.insert(m.into(), a);
            }
            3 | 4 | 5 | 6 => {
                let ts = match r.below(8) { 0 => now + 5 * SEC, 1 => now.saturating_sub(91 * SEC), 2 => now - 90 * SEC, 3 => 0, _ => now - r.below(100) * SEC };
                let rec = match r.below(6) { 0 => 91, 1 => 600, 2 => 0, _ => 90 };
                let pool = ["dg1.t", "rf.t", "frax.t", "dg2.t", "zz.t"];
                let mut ids: Vec<&str> = match r.below(9) { 0 | 6 => vec!["frax.t", "rf.t"], 7 => vec!["frax.t", *r.pick(&pool)], 8 => vec![*r.pick(&pool), "rf.t"], 1 => vec!["rf.t", "frax.t"], 2 => vec![*r.pick(&pool)], 3 => vec![], 4 => vec!["zz.t", "dg1.t"], _ => vec!["dg1.t"] };
                if r.p(40) { let q = *r.pick(&pool); ids.push(q); }
                let prices: Vec<Value> = ids.iter().map(|i| {
                    if r.p(10) { return json!({"asset_id":i,"price":null}); } if r.permille(30) { return json!({"asset_id":i,"price":{"multiplier":"x","decimals":22}}); } if r.permille(20) { return json!({"price":null}); }
                    let m = match r.below(10) { 0 => 0, 1 => u128::MAX, _ => 5_000 + r.logu(100_000) };
                    let d = match r.below(16) { 0 => 17u64, 1 => 60, 2 => 255, 3 => 18, 4 => 23, _ => 22 };
                    json!({"asset_id":i,"price":{"multiplier":m.to_string(),"decimals":d}}) }).collect();
                let mut v = json!({"timestamp":ts.to_string(),"recency_duration_sec":rec,"prices":prices});
                if r.permille(40) { v.as_object_mut().unwrap().remove("timestamp"); } else if r.permille(30) { v["timestamp"] = json!(ts); }
                let a = match r.below(14) { 0 => Answer::fail(), 1 => Answer { emit: vec![], reply: Reply::Raw(b"\"nope\"".to_vec()), forward_last: false }, 2 => Answer { emit: vec![], reply: Reply::Nothing, forward_last: false }, _ => Answer::json(v) };
                w.ch.mock(ORACLE).script().answers.insert("get_price_data".into(), a);
            }
            _ => {
                let one = |r: &mut Rng| -> Value {
                    if r.p(8) { return Value::Null; }
                    let p = match r.below(12) { 0 => 0i64, 1 => -1, 2 => i64::MAX, 3 => -100_000_000, 4 => 1, _ => 10_000_000 + r.below(500_000_000) as i64 };
                    let e: i64 = match r.below(24) { 0 => 0, 1 => 3, 2 => -30, 3 => -38, 4 => -39, 5 => 40, 6 => 14, 7 => i32::MIN as i64, 8 => 5_000_000_000, 9 | 10 => -1, 11 => 1, 12 => -2 - r.below(20) as i64, _ => -8 };
                    let s = (now / SEC) as i64;
                    let t = match r.below(12) { 0 => 0, 1 => -5, 2 => s - 61, 3 => s - 60, 4 => s - 3600, 5 => 1i64 << 33, 6 => s + 30, _ => s - r.below(40) as i64 };
                    let mut v = json!({"price":p.to_string(),"conf":"1","expo":e,"publish_time":t});
                    if r.permille(30) { v["price"] = json!(p); } else if r.permille(30) { v.as_object_mut().unwrap().remove("conf"); }
                    v
                };
                if r.p(45) {
                    // different answers for the two feeds
                    for id in [PYTH_A, PYTH_B].iter() { if r.p(60) { let v = one(r); w.ch.mock(PYTH).script().price_table.insert(id.to_string(), v); } else { w.set_pyth(id, 50_000_000 + r.below(200_000_000) as i64, -8); } }
                    w.ch.mock(PYTH).script().answers.clear();
                } else if r.p(50) {
                    let v = one(r);
                    let a = match r.below(14) { 0 => Answer::fail(), 1 => Answer { emit: vec![], reply: Reply::Raw(b"[]".to_vec()), forward_last: false }, 2 => Answer { emit: vec![], reply: Reply::Nothing, forward_last: false }, _ => Answer::json(v) };
                    w.ch.mock(PYTH).script().answers.insert("get_price".into(), a);
                } else {
                    let mut m = serde_json::Map::new();
                    if r.p(90) { m.insert(PYTH_A.into(), one(r)); } if r.p(90) { m.insert(PYTH_B.into(), one(r)); }
                    if r.p(10) { m.insert("cc".repeat(32), one(r)); } if r.permille(40) { m.insert("xyz".into(), Value::Null); }
                    let a = match r.below(14) { 0 => Answer::fail(), 1 => Answer::json(json!([])), _ => Answer::json(Value::Object(m)) };
                    w.ch.mock(PYTH).script().answers.insert("list_prices_no_older_than".into(), a);
                }
            }
        }
        if self.r.p(25) { w.ch.mock(ORACLE).script().answers.clear(); }
        if self.r.p(25) { w.ch.mock(PYTH).script().answers.clear(); }
        if self.r.p(10) { for id in [PYTH_A, PYTH_B].iter() { w.set_pyth(id, 50_000_000 + self.r.below(200_000_000) as i64, -8); } }
    }
    /// an answer that is right in every respect but at most one
    fn near_miss(&mut self, w: &mut World) -> Option<Op> {
        let r = &mut self.r;
        let now = w.ch.ts;
        w.ch.mock(ORACLE).script().answers.clear(); w.ch.mock(PYTH).script().answers.clear();
        let t = r.pick(&["rf.t", "rf.t", "dg1.t", "dg2.t", "dg3.t"]).to_string();
        if !w.toks.contains_key(&t) { return None; }
        let pyth = match (self.src.get(&t), self.dg.get(&t)) { (Some(Src::SfraxPyth { .. }), _) | (_, Some(Dg::Pyth(_))) => true, _ => false };
        if pyth {
            let (bad, defect) = (r.below(2), r.below(9));
            for (i, id) in [PYTH_A, PYTH_B].iter().enumerate() {
                let s = (now / SEC) as i64;
                let mut v = json!({"price":(50_000_000 + r.below(200_000_000)).to_string(),"conf":"1","expo":-8,"publish_time":s - r.below(5) as i64});
                if i as u64 == bad { match defect { 0 => v["price"] = json!("0"), 1 => v["price"] = json!("-100000000"), 2 => v["publish_time"] = json!(s - 400 * 1), 3 => v["publish_time"] = json!(0), 4 => v["expo"] = json!(-6 - r.below(4) as i64), 5 => v = Value::Null, 6 => v["price"] = json!("x"), 7 => v["publish_time"] = json!(-5), _ => {} } }
                w.ch.mock(PYTH).script().price_table.insert(id.to_string(), v);
            }
        } else {
            let mut ids: Vec<String> = if t == "rf.t" { vec!["frax.t".into(), "rf.t".into()] } else { vec![t.clone()] };
            let k = r.us(ids.len());
            let (mut ts, mut rec, mut dec, mut null) = (now, 90, 22, false);
            match r.below(9) { 0 => ids[k] = "zz.t".into(), 1 => ids.reverse(), 2 => ts += 3 * SEC, 3 => ts -= 301 * SEC, 4 => rec = 91, 5 => dec = 21 + 2 * r.below(2), 6 => null = true, 7 => ids[k] = if ids[k] == "frax.t" { "rf.t".into() } else { "frax.t".into() }, _ => {} }
            let prices: Vec<Value> = ids.iter().enumerate().map(|(i, x)| json!({"asset_id":x,"price": if null && i == k { Value::Null } else { json!({"multiplier":(9_000 + r.below(4000)).to_string(),"decimals": if i == k { dec } else { 22 }}) }})).collect();
            w.ch.mock(ORACLE).script().answers.insert("get_price_data".into(), Answer::json(json!({"timestamp":ts.to_string(),"recency_duration_sec":rec,"prices":prices})));
        }
        Some(if t == "rf.t" { gen::op(USERS[r.us(4)], "update_token_rate", json!({"token_id":t}), 0) } else if r.p(50) { gen::op(USERS[r.us(4)], "update_degen_token_price", json!({"token_id":t}), 0) } else { gen::op(USERS[r.us(4)], "batch_update_degen_token_price", json!({"token_ids":["dg1.t", "dg2.t", "dg3.t"]}), 0) })
    }
    /// what the callback may do with these results at this time
    fn expect(&self, m: &str, a: &Value, res: &[Option<Vec<u8>>], now: u64) -> (BTreeMap<String, Vec<Exp>>, String) {
        let mut out: BTreeMap<String, Vec<Exp>> = BTreeMap::new();
        let one = |t: &str, e: Exp| -> BTreeMap<String, Vec<Exp>> { let mut o = BTreeMap::new(); o.insert(t.to_string(), vec![e]); o };
        match m {
            "update_token_rate_callback" => {
                let t = a["token_id"].as_str().unwrap_or("");
                if res.iter().any(|x| x.is_none()) { return (one(t, Exp::Keep), "rate: provider failed".into()); }
                let e = match self.src.get(t) {
                    None => Exp::Keep,
                    Some(Src::Plain) => match serde_json::from_slice::<Value>(res[0].as_ref().unwrap()).ok().and_then(|v| v.as_str().and_then(|x| x.parse::<u128>().ok())) { Some(x) if res.len() == 1 => Exp::Set(x), _ => Exp::Keep },
                    Some(Src::SfraxOracle { base, rec, stale, .. }) => (|| {
                        if res.len() != 1 { return Exp::Keep; }
                        let (ts, rc, ps) = match price_data(res[0].as_ref().unwrap()) { Some(x) => x, None => return Exp::Keep };
                        if rc > *rec || ts > now || now - ts > stale * SEC || ps.len() < 2 { return Exp::Keep; }
                        if ps[0].0 != *base || ps[1].0 != t { return Exp::Keep; }
                        match (ps[0].1, ps[1].1) { (Some(b), Some(x)) if b.1 == x.1 && b.0 > 0 => exp_of(Some(crate::util::w(PREC24) * crate::util::w(x.0) / crate::util::w(b.0)), false, false), _ => Exp::Keep }
                    })(),
                    Some(Src::SfraxPyth { valid }) => (|| {
                        if res.len() != 2 { return Exp::Keep; }
                        let p = |i: usize| -> Option<(i64, i32, i64)> { serde_json::from_slice::<Value>(res[i].as_ref().unwrap()).ok().as_ref().and_then(pyth) };
                        let (b, x) = match (p(0), p(1)) { (Some(b), Some(x)) => (b, x), _ => return Exp::Keep };
                        let (ob, ox) = (pyth_ok(b, now, *valid), pyth_ok(x, now, *valid));
                        if ob == Some(false) || ox == Some(false) { return Exp::Keep; }
                        let odd = ob.is_none() || ox.is_none() || [b.1, x.1].iter().any(|e| *e > 10 || *e < -20);
                        match (pyth_value(b.0, b.1), pyth_value(x.0, x.1)) { (Some(vb), Some(vx)) if !vb.is_zero() => exp_of(Some(crate::util::w(PREC24) * vx / vb), odd, true), _ => Exp::Keep }
                    })(),
                };
                let c = format!("rate {:?}", match self.src.get(t) { None => "unknown", Some(Src::Plain) => "plain", Some(Src::SfraxOracle { .. }) => "oracle pair", Some(Src::SfraxPyth { .. }) => "pyth pair" });
                (one(t, e), c)
            }
            "update_degen_token_price_callback" => {
                let t = a["token_id"].as_str().unwrap_or("");
                let raw = match res.get(0) { Some(Some(x)) => x, _ => return (one(t, Exp::Keep), "price: provider failed".into()) };
                let e = match self.dg.get(t) {
                    None => Exp::Keep,
                    Some(Dg::Oracle(dec)) => (|| {
                        let (ts, rc, ps) = match price_data(raw) { Some(x) => x, None => return Exp::Keep };
                        if rc > self.cfg.o_rec || ts > now || now - ts > self.cfg.o_stale * SEC || ps.is_empty() || ps[0].0 != t { return Exp::Keep; }
                        match ps[0].1 { Some(x) => deg_value(x, *dec), None => Exp::Keep }
                    })(),
                    Some(Dg::Pyth(_)) => judge_pyth(serde_json::from_slice::<Value>(raw).ok().as_ref().and_then(pyth), now, self.cfg.p_valid),
                };
                (one(t, e), "single price".into())
            }
            "batch_update_degen_token_by_price_oracle_callback" => {
                let mp: BTreeMap<String, u8> = a["token_id_decimals_map"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0) as u8)).collect()).unwrap_or_default();
                for t in mp.keys() { out.insert(t.clone(), vec![Exp::Keep]); }
                let raw = match res.get(0) { Some(Some(x)) => x, _ => return (out, "batch oracle: provider failed".into()) };
                if let Some((ts, rc, ps)) = price_data(raw) {
                    if rc > self.cfg.o_rec || ts > now || now - ts > self.cfg.o_stale * SEC { return (out, "batch oracle: refused".into()); }
                    let mut bad = false;
                    let mut got: BTreeMap<String, Vec<Exp>> = BTreeMap::new();
                    for (t, p) in ps { if let (Some(dec), Some(x)) = (mp.get(&t), p) { let e = deg_value(x, *dec); if e == Exp::Keep { bad = true; } got.entry(t).or_default().push(e); } }
                    for (t, v) in got {
                        // an entry that cannot be expressed may spoil the whole answer; of several entries for one token the last one counts
                        let mut o: Vec<Exp> = if bad || v.len() > 1 { v.iter().filter_map(|e| match e { Exp::Set(x) | Exp::Maybe(x) => Some(Exp::Maybe(*x)), _ => None }).collect() } else { v };
                        if o.is_empty() { o.push(Exp::Keep); }
                        out.insert(t, o);
                    }
                }
                (out, "batch oracle".into())
            }
            _ => {
                let mp: BTreeMap<String, Vec<String>> = a["price_id_token_id_map"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), strs(v))).collect()).unwrap_or_default();
                for t in mp.values().flatten() { out.insert(t.clone(), vec![Exp::Keep]); }
                let raw = match res.get(0) { Some(Some(x)) => x, _ => return (out, "batch pyth: provider failed".into()) };
                let v: Value = serde_json::from_slice(raw).unwrap_or(Value::Null);
                let o = match v.as_object() { Some(o) => o, None => return (out, "batch pyth: malformed".into()) };
                let whole = o.iter().all(|(k, x)| k.len() == 64 && k.bytes().all(|c| c.is_ascii_hexdigit()) && (x.is_null() || pyth(x).is_some()));
                if !whole { return (out, "batch pyth: malformed".into()); }
                let es: BTreeMap<&String, Exp> = mp.keys().map(|k| (k, judge_pyth(o.get(k).and_then(pyth), now, self.cfg.p_valid))).collect();
                // a value that does not fit may spoil the whole answer
                let spoil = mp.keys().any(|k| o.get(k).and_then(pyth).map_or(false, |x| pyth_ok(x, now, self.cfg.p_valid) != Some(false) && !matches!(es[k], Exp::Set(_))));
                for (k, ts) in &mp { for t in ts { let e = match &es[k] { Exp::Set(x) if spoil => Exp::Maybe(*x), e => e.clone() }; out.insert(t.clone(), vec![e]); } }
                (out, "batch pyth".into())
            }
        }
    }
}
fn deg_value(x: (u128, u8), dec: u8) -> Exp {
    if x.1 < dec || x.1 - dec > 38 { return Exp::Keep; }
    exp_of(Some(crate::util::w(PREC24) * crate::util::w(x.0) / p10((x.1 - dec) as u32)), false, false)
}
const CBS: [&str; 4] = ["update_token_rate_callback", "update_degen_token_price_callback", "batch_update_degen_token_by_price_oracle_callback", "batch_update_degen_token_by_pyth_oracle_callback"];
impl Monitor for M25 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, _s: &Snap) -> Option<Op> {
        if r.p(10) { if let Some(o) = self.near_miss(w) { return Some(o); } }
        if r.p(25) { self.answer(w); }
        if r.p(4) && w.ch.pending.is_empty() {
            return Some(match r.below(5) {
                0 | 1 => gen::op(OWNER, "update_degen_oracle_config", json!({"degen_oracle_config":{"PriceOracle":{"oracle_id":ORACLE,"expire_ts":((100 + r.logu(8000) as u64) * SEC).to_string(),"maximum_recency_duration_sec":90,"maximum_staleness_duration_sec":*r.pick(&[10u64, 90, 300])}}}), 1),
                2 | 3 => gen::op(GUARD, "update_degen_oracle_config", json!({"degen_oracle_config":{"PythOracle":{"oracle_id":PYTH,"expire_ts":((100 + r.logu(8000) as u64) * SEC).to_string(),"pyth_price_valid_duration_sec":*r.pick(&[10u64, 60, 300])}}}), 1),
                _ => { let t = *r.pick(&["dg1.t", "dg2.t"]); let d = if r.p(50) { json!({"PriceOracle":{"decimals":w.dec(t)}}) } else { json!({"PythOracle":{"price_identifier":*r.pick(&[PYTH_A, PYTH_B])}}) }; gen::op(OWNER, "update_degen_token", json!({"token_id":t,"degen_type":d}), 1) }
            });
        }
        if r.permille(15) { return Some(gen::op(USERS[r.us(4)], *r.pick(&CBS), json!({"token_id":"rs.t","token_id_decimals_map":{"dg1.t":18},"price_id_token_id_map":{PYTH_A:["dg2.t"]}}), 0)); }
        None
    }
    fn before(&mut self, w: &mut World, rc: &Receipt) {
        self.allow.clear(); self.class.clear(); self.fork = None; self.blocked = false;
        if rc.receiver != EX { return; }
        let (m, a) = match rc.actions.first() { Some(crate::vm::Action::Call { method, args: b, .. }) => (method.clone(), args(&String::from_utf8_lossy(b))), _ => return };
        if CBS.contains(&m.as_str()) && rc.pred == EX {
            let res: Vec<Option<Vec<u8>>> = rc.deps.iter().map(|d| match &w.ch.results[d] { PRes::Ok(v) => Some(v.clone()), _ => None }).collect();
            // run it just before the time the answer claims to be from
            if self.r.p(50) { if let Some(x) = res.get(0).and_then(|x| x.as_ref()).and_then(|x| price_data(x)) { let t = x.0.saturating_sub(self.r.below(2) * self.r.below(SEC)); if x.0 >= w.ch.ts + w.ch.dt && t >= w.ch.ts + w.ch.dt && t < w.ch.ts + 1000 * SEC { w.ch.ts = t - w.ch.dt; } } }
            // run it exactly when the answer is about to go stale
            if self.r.p(35) { if let Some(Some(raw)) = res.get(0) {
                let stale_at: Option<u64> = price_data(raw).map(|x| x.0 + self.cfg.o_stale * SEC).or_else(|| { let v: Value = serde_json::from_slice(raw).unwrap_or(Value::Null); let v = if v.get(PYTH_A).is_some() { v[PYTH_A].clone() } else { v }; pyth(&v).filter(|x| x.2 > 0 && x.2 < 1 << 32).map(|x| (x.2 as u64 + self.cfg.p_valid) * SEC) });
                if let Some(t) = stale_at { let t = t + self.r.below(2); if t >= w.ch.ts + w.ch.dt && t < w.ch.ts + 1000 * SEC { w.ch.ts = t - w.ch.dt; } }
            } }
            let (al, c) = self.expect(&m, &a, &res, w.ch.ts + w.ch.dt);
            self.allow = al; self.class = c;
            return;
        }
        let ids = trade_pools(&m, &a);
        if ids.is_empty() || !ids.iter().any(|p| self.pools.get(*p).map_or(false, |x| x.1 == PK::Rated || x.1 == PK::Degen)) { return; }
        let g = self.good_until(&ids);
        if let Some(g) = g { if g != u64::MAX && self.r.p(12) { let t = g + self.r.below(2); if t >= w.ch.ts + w.ch.dt { w.ch.ts = t - w.ch.dt; } } }
        let now = w.ch.ts + w.ch.dt;
        if g.map_or(true, |g| now > g) { self.blocked = true; if self.r.p(50) { self.fork = Some(w.clone()); } }
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if ev.receiver != EX { return Ok(()); }
        let a = args(&ev.args);
        let owner = (ev.pred == OWNER || ev.pred == GUARD) && matches!(ev.method.as_str(), "update_degen_token" | "update_degen_oracle_config" | "update_rated_token_extra_info");
        if owner && ev.ok.is_ok() {
            self.cfg = read_cfg(w);
            if ev.method == "update_degen_token" { let t = a["token_id"].as_str().unwrap().to_string(); let d = &a["degen_type"]; let n = if let Some(x) = d.get("PriceOracle") { Dg::Oracle(x["decimals"].as_u64().unwrap() as u8) } else { Dg::Pyth(d["PythOracle"]["price_identifier"].as_str().unwrap().into()) }; self.dg.insert(t.clone(), n); self.degen.insert(t, None); }
            self.src = read_src(w);
        }
        // stored values
        let rated: BTreeMap<String, Px> = st.post.rated.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), (num(&v["rate_price"]), num(&v["last_update_ts"]) as u64))).collect()).unwrap_or_default();
        let now_view = w.ch.ts;
        let cls = self.class.clone();
        let mut seen_change = 0;
        let judge = |t: &str, old: Option<Px>, new: Option<Px>, allow: &BTreeMap<String, Vec<Exp>>| -> Result<bool, String> {
            let al = allow.get(t).cloned().unwrap_or_else(|| vec![Exp::Keep]);
            let ok_keep = al.iter().any(|e| matches!(e, Exp::Keep | Exp::Maybe(_)));
            let changed = new != old;
            let sets: Vec<u128> = al.iter().filter_map(|e| match e { Exp::Set(x) | Exp::Maybe(x) => Some(*x), _ => None }).collect();
            if changed { ensure!(new.map_or(false, |n| sets.contains(&n.0) && n.1 == ev.ts), "{}: the stored value goes from {:?} to {:?}; the provider's answer allows {:?} at {}: {}", t, old, new, al, ev.ts, fmt_ev(ev)); }
            else { ensure!(ok_keep, "{}: the provider's answer {:?} is not stored (still {:?}): {}", t, al, old, fmt_ev(ev)); }
            Ok(changed)
        };
        ensure!(rated.keys().eq(self.rated.keys()), "rated tokens changed by {}", fmt_ev(ev));
        for (t, new) in &rated { if judge(t, Some(self.rated[t]), Some(*new), &self.allow)? { seen_change += 1; } }
        for (t, v) in st.post.rated.as_object().unwrap() { ensure!(v["is_valid"] == json!(now_view <= rated[t].1 + DAY), "{}: reported valid = {} at {} though updated at {}", t, v["is_valid"], now_view, rated[t].1); }
        self.rated = rated;
        if let Some(o) = st.post.degen.as_object() {
            ensure!(o.keys().collect::<BTreeSet<_>>() == self.dg.keys().collect::<BTreeSet<_>>(), "degen tokens changed by {}", fmt_ev(ev));
            for (t, v) in o {
                let new = (num(&v["degen_price"]), num(&v["last_update_ts"]) as u64);
                if judge(t, self.degen[t], Some(new), &self.allow)? { seen_change += 1; }
                self.degen.insert(t.clone(), Some(new));
                let exp = match &self.dg[t] { Dg::Oracle(_) => self.cfg.o_expire, Dg::Pyth(_) => self.cfg.p_expire };
                ensure!(v["is_price_valid"] == json!(now_view <= new.1 + exp), "{}: reported valid = {} at {} though updated at {}", t, v["is_price_valid"], now_view, new.1);
            }
        } else {
            ensure!(self.degen.values().any(|x| x.is_none()), "prices cannot be listed after {}", fmt_ev(ev));
            // not visible until every token has a price again: follow the rule
            for (t, al) in self.allow.clone() { if self.dg.contains_key(&t) && ev.ok.is_ok() { if let Some(Exp::Set(x)) = al.first() { self.degen.insert(t.clone(), Some((*x, ev.ts))); } else if al.iter().any(|e| matches!(e, Exp::Maybe(_))) { return Err(format!("setup: cannot follow {}", t)).or_else(|e: String| std::panic::panic_any(e)); } } }
        }
        if !cls.is_empty() {
            let want: Vec<String> = self.allow.iter().map(|(_, e)| match e.first() { Some(Exp::Keep) => "keep".into(), Some(Exp::Maybe(_)) => "maybe".into(), Some(Exp::Set(x)) => format!("set{}", lg(*x) / 4), None => String::new() }).collect();
            env.rep.eval(&format!("{} {}", cls, if seen_change > 0 { "stored" } else { "not stored" }), Some(h(format!("{} {:?} {:?} {}", cls, want, self.allow.keys().collect::<Vec<_>>(), w.ch.log.len() % 16))));
            env.rep.sample(&format!("{} {}", cls, seen_change > 0), || json!({"call": fmt_ev(ev), "allowed": format!("{:?}", self.allow)}));
        } else { env.rep.eval("nothing stored", None); }
        // trades
        let ids = trade_pools(&ev.method, &a);
        if !ids.is_empty() {
            let g = self.good_until(&ids);
            if ev.ok.is_ok() {
                let swapped = ev.method != "ft_on_transfer" || st.pre.pools != st.post.pools;
                ensure!(!swapped || g.map_or(false, |g| ev.ts <= g), "trade at {} although a value of its pools {:?} was in force only until {:?}: {}", ev.ts, ids, g, fmt_ev(ev));
                if let Some(g) = g { if g != u64::MAX { let d = g - ev.ts.min(g); env.rep.eval("trade with every value in force", Some(h(format!("t {} {} {:?}", ev.method, lg(d as u128) / 2, ids)))); if d < SEC { env.rep.count("trade within a second of expiry"); } if d == 0 { env.rep.count("trade in the last instant"); } } }
            } else if self.blocked {
                let mut key = None;
                if let Some(mut f) = self.fork.take() {
                    // the same call with fresh values
                    let i = f.pos(ev.rid).unwrap(); let rc = f.ch.pending.remove(i).unwrap(); f.ch.pending.clear();
                    f.ch.mock(ORACLE).script().answers.clear(); f.ch.mock(PYTH).script().answers.clear(); gen::shuffle_prices(&mut f, &mut self.r.clone()); f.refresh_prices(); f.ch.pending.clear();
                    f.ch.pending.push_back(rc); let k = f.exec_fast(0);
                    if f.ch.log[k].ok.is_ok() { key = Some(h(format!("b {} {:?} {}", ev.method, ids, g.map_or(999, |g| lg((ev.ts - g) as u128))))); if g.map_or(false, |g| ev.ts - g == 1) { env.rep.count("blocked one nanosecond after expiry"); } }
                }
                env.rep.eval(if key.is_some() { "blocked only by a stale value" } else { "failed with a stale value" }, key);
            }
        }
        Ok(())
    }
}
/// a trade asks for fresh prices of every token of every degen pool it went through, unless it says not to
fn resync(env: &mut Env, w: &World, r: &mut Rng) -> Res {
    let mut w = w.clone();
    w.refresh_prices();
    let sets: [&[&str]; 4] = [&["dg1.t", "dg2.t"], &["dg2.t", "dg3.t"], &["dg1.t", "dg3.t"], &["dg1.t", "dg2.t", "dg3.t"]];
    for _ in 0..1 + r.us(2) { let t = *r.pick(&sets); let p = w.add_stable(PK::Degen, t, 5, 100); let a: Vec<u128> = t.iter().map(|t| w.unit(t) * 100_000).collect(); w.seed(USERS[0], p, &a); }
    let pools: Vec<(usize, Vec<String>)> = (0..w.pool_count()).map(|p| w.pool(p)).enumerate().filter(|(_, p)| p.kind == PK::Degen && p.supply > 0).map(|(i, p)| (i, p.tokens)).collect();
    for t in w.degen_tokens() { let x = w.unit(&t) * 100; w.fund(USERS[1], &t, x); w.mint(&t, USERS[1], x); }
    w.refresh_prices();
    for _ in 0..4 {
        let mut f = w.clone();
        // other prices at every provider, with everything already known remaining valid
        let m = 5_000 + r.below128(20_000); f.set_price("dg1.t", m, 22);
        let (a, b) = (60_000_000 + r.below(90_000_000) as i64, 60_000_000 + r.below(90_000_000) as i64); f.set_pyth(PYTH_A, a, -8); f.set_pyth(PYTH_B, b, -8);
        f.ch.ts += r.below(5) * SEC;
        let old = f.v("list_degen_tokens", json!({}));
        let mut g = f.clone();
        for t in g.degen_tokens() { let _ = g.tx(USERS[0], EX, "update_degen_token_price", json!({"token_id":t}), 0); }
        let new = g.v("list_degen_tokens", json!({}));
        let n = 1 + r.us(3);
        let instant = r.p(35);
        let (mut acts, mut touched): (Vec<Value>, BTreeSet<String>) = (vec![], Default::default());
        let mut cur: Option<String> = None;
        for k in 0..n {
            let c: Vec<&(usize, Vec<String>)> = pools.iter().filter(|p| if instant { cur.as_ref().map_or(true, |t| p.1.contains(t)) } else { true }).collect();
            let (p, ts) = c[r.us(c.len())];
            let tin = if instant { cur.clone().unwrap_or_else(|| r.pick(ts).clone()) } else { r.pick(ts).clone() };
            let tout = ts.iter().filter(|t| **t != tin).nth(r.us(ts.len() - 1)).unwrap().clone();
            let mut x = json!({"pool_id":p,"token_in":tin,"token_out":tout,"min_amount_out":"0"});
            if !instant { x["amount_in"] = json!((f.unit(&tin) / 10).to_string()); }
            else if k == 0 { x["amount_in"] = json!((f.unit(&tin) / 10).to_string()); }
            acts.push(x); touched.extend(ts.iter().cloned());
            cur = Some(tout);
        }
        let skip = *r.pick(&[None, None, Some(false), Some(true)]);
        let mut arg = json!({"actions":acts});
        if let Some(s) = skip { arg["skip_degen_price_sync"] = json!(s); }
        let (how, out) = if instant { let t = acts[0]["token_in"].as_str().unwrap().to_string(); let x = f.unit(&t) / 10; acts[0].as_object_mut().unwrap().remove("amount_in"); arg["actions"] = json!(acts);
                let o = f.tx(USERS[1], &t, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":arg.to_string()}), 1); ("by transfer", o.map(|v| v != json!("0"))) }
            else if r.p(50) { ("swap", f.ex(USERS[1], "swap", arg.clone(), 1).map(|_| true)) }
            else { ("actions", f.ex(USERS[1], "execute_actions", arg.clone(), 1).map(|_| true)) };
        if out != Ok(true) { env.rep.count("resync: trade refused"); continue; }
        let now = f.v("list_degen_tokens", json!({}));
        for (t, o) in old.as_object().unwrap() {
            let want = if skip == Some(true) || !touched.contains(t) { None } else { Some(&new[t]["degen_price"]) };
            match want {
                Some(x) => if now[t]["degen_price"] != *x { *env.story = f.story(20); return Err(format!("after a trade ({}) through pools of {:?} the price of {} is still {} although its provider says {}: {}", how, touched, t, now[t]["degen_price"], x, arg)); },
                None if skip == Some(true) => if now[t]["degen_price"] != o["degen_price"] { *env.story = f.story(20); return Err(format!("a trade that asked not to renew prices changed that of {}: {}", t, arg)); },
                None => (),
            }
        }
        env.rep.eval("prices renewed by a trade", Some(h(format!("{}{:?}{:?}{}", how, skip, touched, n))));
    }
    Ok(())
}
fn c25(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 1, stable: 0, rated: r.p(75), degen: true, overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    if r.p(35) { resync(env, &w, &mut r)?; }
    w.lenient = true;
    let s = w.read(F_ALL);
    let mut m = M25 { r: Rng::new(r.u64()), src: read_src(&w), dg: BTreeMap::new(), rated: BTreeMap::new(), degen: BTreeMap::new(), allow: BTreeMap::new(), class: String::new(), blocked: false, fork: None, cfg: read_cfg(&w), pools: s.pools.iter().map(|p| (p.tokens.clone(), p.kind)).collect() };
    m.dg.insert("dg1.t".into(), Dg::Oracle(18)); m.dg.insert("dg2.t".into(), Dg::Pyth(PYTH_A.into())); m.dg.insert("dg3.t".into(), Dg::Pyth(PYTH_B.into()));
    if let Some(o) = s.rated.as_object() { for (k, v) in o { m.rated.insert(k.clone(), (num(&v["rate_price"]), num(&v["last_update_ts"]) as u64)); } }
    if let Some(o) = s.degen.as_object() { for (k, v) in o { m.degen.insert(k.clone(), Some((num(&v["degen_price"]), num(&v["last_update_ts"]) as u64))); } }
    let mix = Mix::only(&[(gen::M_SWAP, 14), (gen::M_SWAPOUT, 3), (gen::M_VA, 2), (gen::M_INSTANT, 5), (gen::M_HOTZAP, 3), (gen::M_ADD, 3), (gen::M_REMOVE, 1), (gen::M_REMTOK, 6), (gen::M_PRICE, 30), (gen::M_TIME, 4), (gen::M_DEPOSIT, 2), (gen::M_FAULT, 1), (gen::M_DIRECT, 1), (gen::M_STORAGE, 1)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 200, flags: F_POOLS | F_DEP | F_PRICES | F_SHARES, mix, conc: 0 }, &mut m)
}
