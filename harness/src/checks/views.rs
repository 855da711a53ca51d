//! C34 administrative lists and client echo, C35 view consistency, C36 exits, C37 reserve floors.
use super::custody::exact_reserve;
use super::*;
use crate::chain::NEAR;
use crate::math;
use crate::mocks::{Answer, Mock};
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C34", f: c34, rule: "one evaluation per administrative call (accepted or refused exactly as a reference model of the lists and settings says, every list view and setting equal to the model afterwards) and per token transfer with client_echo (accepted exactly if the model admits sender and token and the same transfer works in a copy where the sender is admitted); non-trivial = a call or probe, keyed by method, caller role, kind of entries, and outcome", quick_secs: 18, min_evals: 4_000 },
        Check { id: "C35", f: c35, rule: "one evaluation per view family compared after a history: pages, batches and listings of any size against the single-item views, alternative views of the same quantity against each other, unknown items refused or empty; non-trivial = a comparison over at least one item, keyed by family, page sizes, pool kinds and sizes", quick_secs: 18, min_evals: 10_000 },
        Check { id: "C36", f: c36, rule: "one evaluation per exit step of an account after a history (healthy tokens, running, nothing frozen): release of pledges, burning of shares, withdrawal of each deposit, lostfound claims, unregistering; each must succeed and leave nothing behind except shares pinned by a stable-type pool's minimum reserve; non-trivial = a step that moved something, keyed by step, pool kind, token and magnitude", quick_secs: 18, min_evals: 2_000 },
        Check { id: "C37", f: c37, rule: "one evaluation per executed exchange call: afterwards every pool with shares outstanding has every reserve positive, and a successful call that took tokens out of a stable-type pool left at least the minimum reserve of each of them; non-trivial = a call aimed at draining a reserve (removal by shares or tokens, swap, fee removal), keyed by kind, pool type, outcome and distance to the floor", quick_secs: 18, min_evals: 3_000 },
    ]
}
fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }

/// consecutive pages that cover 0..n (and one past the end)
pub fn tiling(r: &mut Rng, n: u64) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let mut i = 0;
    let k = 1 + r.below(n.max(1) + 2);
    while i < n { let l = if r.p(50) { k } else { 1 + r.below(n + 2) }; v.push((i, l)); i += l; }
    v.push((i, 1 + r.below(4)));
    if r.p(30) { v.push((r.below(n + 1), 0)); }
    v
}
fn key(fam: &str, x: u64) -> Option<u64> { Some(hash64(format!("{} {}", fam, x).as_bytes())) }

// ------------------------------------------------------------------ C35
struct M35 { r: Rng, every: u64, reg: bool }
impl Monitor for M35 {
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        if st.ev.receiver != EX || !self.r.p(self.every) { return Ok(()); }
        agree(w, &mut self.r, &st.post.clone(), env)
    }
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        if !r.p(10) { return None; }
        let p = r.below(s.pools.len() as u64);
        let g = *r.pick(&[OWNER, GUARD]);
        Some(match r.below(12) {
            0 | 1 => gen::op(g, "register_pool_twap_record", json!({"pool_id":p}), 1),
            2 if self.reg => gen::op(g, "unregister_pool_twap_record", json!({"pool_id":p}), 1),
            3 | 4 => gen::op(g, "insert_referral", json!({"referral_id":r.pick(&USERS),"fee_bps":r.range(1, 9999)}), 1),
            5 => gen::op(g, "remove_referral", json!({"referral_id":r.pick(&[REF1, REF2, USERS[0], USERS[1]])}), 1),
            6 => gen::op(g, "add_degen_pool_limit", json!({"pool_id":p,"degen_pool_limit_info":{"tvl_limit":(10_000_000u128 + r.logu(1 << 100)).to_string()}}), 1),
            7 => gen::op(g, "remove_pool_limit", json!({"pool_id":p}), 1),
            8 => { let k: Vec<&String> = w.toks.keys().collect(); gen::op(gen::who(r), "register_tokens", json!({"token_ids":[r.pick(&k)]}), 1) }
            9 => { let us: Vec<(&String, Vec<&String>)> = s.dep.iter().map(|(u, m)| (u, m.iter().filter(|x| *x.1 == 0).map(|x| x.0).collect::<Vec<_>>())).filter(|x| !x.1.is_empty()).collect(); if us.is_empty() { return None; } let (u, ts) = r.pick(&us).clone(); gen::op(u, "unregister_tokens", json!({"token_ids":[r.pick(&ts)]}), 1) }
            10 => gen::op(g, "extend_frozenlist_tokens", json!({"tokens":[gen::BASE_TOKENS[r.us(6)].0]}), 1),
            _ => { if s.frozen.is_empty() { return None; } let f: Vec<&String> = s.frozen.iter().collect(); gen::op(OWNER, "remove_frozenlist_tokens", json!({"tokens":[r.pick(&f)]}), 1) }
        })
    }
}
fn c35(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 1 + r.us(5), stable: r.us(3), rated: r.p(50), degen: r.p(50), overprecise: r.p(10) };
    let mut w = gen::world(env.codes, &mut r, &sp);
    let mut m = M35 { r: r.clone(), every: *r.pick(&[6, 12, 25]), reg: r.p(50) };
    let n = 30 + r.us(50);
    // an account with a long list of tokens
    if r.p(30) {
        let u = *r.pick(&USERS);
        let k = 10 + r.us(30);
        let _ = w.quiet(u, "storage_deposit", json!({}), 5 * NEAR);
        let _ = w.quiet(u, "register_tokens", json!({"token_ids":(0..k).map(|i| format!("z{}.t", i)).collect::<Vec<_>>()}), 1);
        w.cached = None;
    }
    // averages that cover a whole window
    if r.p(30) {
        w.ok(OWNER, EX, "modify_cumulative_info_record_interval_sec", json!({"record_interval_sec":1}), 1);
        let dt = std::mem::replace(&mut w.ch.dt, SEC);
        let np = w.pool_count();
        for _ in 0..2 {
            let p = r.below(np as u64);
            if w.quiet(GUARD, "register_pool_twap_record", json!({"pool_id":p}), 1).is_err() { continue; }
            for _ in 0..62 { if w.quiet(USERS[0], "sync_pool_twap_record", json!({"pool_id":p}), 0).is_err() { break; } }
        }
        w.ch.dt = dt;
        w.refresh_prices();
        w.cached = None;
    }
    soup_m(env, &mut w, &mut r, &SoupCfg { n, flags: 0, mix: Mix::all().with(&[(gen::M_REGTOK, 5), (gen::M_FAULT, 6)]), conc: 0 }, &mut m)?;
    let s = w.snap();
    let res = agree(&mut w, &mut r, &s, env);
    if res.is_err() { *env.story = w.story(60); }
    res
}
fn arr(v: &Value) -> Vec<Value> { v.as_array().cloned().unwrap_or_default() }
fn obj(v: &Value) -> Map<String, Value> { v.as_object().cloned().unwrap_or_default() }
/// the pages of a keyed listing: every entry exactly once, pages full, same values as the whole
pub fn paged_map(fam: &str, r: &mut Rng, n: u64, whole: &Map<String, Value>, get: &mut dyn FnMut(u64, u64) -> Result<Value, String>) -> Res {
    let mut seen: Map<String, Value> = Map::new();
    for (i, l) in tiling(r, n) {
        let p = obj(&get(i, l)?);
        let want = l.min(n.saturating_sub(i));
        ensure!(p.len() as u64 == want, "{}: page ({}, {}) of {} entries has {} entries: {:?}", fam, i, l, n, p.len(), p);
        for (k, v) in p { if l == 0 { continue; } ensure!(!seen.contains_key(&k), "{}: {} appears on two pages", fam, k); seen.insert(k, v); }
    }
    ensure!(seen == *whole, "{}: pages give {:?}, expected {:?}", fam, seen, whole);
    Ok(())
}
pub fn paged_list(fam: &str, r: &mut Rng, whole: &[Value], get: &mut dyn FnMut(u64, u64) -> Result<Value, String>) -> Res {
    let n = whole.len() as u64;
    for (i, l) in tiling(r, n) {
        let p = arr(&get(i, l)?);
        let (a, b) = (i.min(n) as usize, (i + l).min(n) as usize);
        ensure!(p == whole[a..b], "{}: page ({}, {}) of {} gives {:?}, expected {:?}", fam, i, l, n, p, &whole[a..b]);
    }
    Ok(())
}
fn agree(w: &mut World, r: &mut Rng, s: &Snap, env: &mut Env) -> Res {
    let w = &*w;
    let v = |m: &str, a: Value| -> Result<Value, String> { w.vr(m, a.clone()).map_err(|e| format!("view {} {} failed: {}", m, a, e.chars().take(200).collect::<String>())) };
    let n = v("get_number_of_pools", json!({}))?.as_u64().unwrap();
    let kind = |p: u64| s.pools[p as usize].kind;
    // ---- pools
    let mut basic = vec![]; let mut detail = vec![]; let mut vols = vec![];
    for p in 0..n {
        let a = json!({"pool_id":p});
        let b = v("get_pool", a.clone())?; let d = v("get_pool_detail_info", a.clone())?; let vo = v("get_pool_volumes", a.clone())?;
        let inner = d.as_object().and_then(|o| o.values().next()).cloned().unwrap_or(Value::Null);
        for f in ["token_account_ids", "amounts", "total_fee", "shares_total_supply"].iter() { ensure!(!b[*f].is_null() && b[*f] == inner[*f], "pool {}: get_pool says {} = {}, the details say {}", p, f, b[*f], inner[*f]); }
        let k = kind(p);
        if k != PK::Simple { ensure!(b["amp"] == inner["amp"], "pool {}: amp {} vs {}", p, b["amp"], inner["amp"]); } else { ensure!(b["amp"].as_u64() == Some(0), "simple pool {} shows amplification {}", p, b["amp"]); }
        let (name, own) = match k { PK::Simple => ("SIMPLE_POOL", ""), PK::Stable => ("STABLE_SWAP", "get_stable_pool"), PK::Rated => ("RATED_SWAP", "get_rated_pool"), PK::Degen => ("DEGEN_SWAP", "get_degen_pool") };
        ensure!(b["pool_kind"] == json!(name), "pool {} is {:?} but its kind reads {}", p, k, b["pool_kind"]);
        for m in ["get_stable_pool", "get_rated_pool", "get_degen_pool"].iter() {
            let x = w.vr(m, a.clone());
            if *m == own { ensure!(x.as_ref().ok() == Some(&inner), "{} of pool {} gives {:?}, the details say {}", m, p, x, inner); } else { ensure!(x.is_err(), "{} answers for pool {} of kind {:?}: {:?}", m, p, k, x); }
        }
        ensure!(v("get_pool_fee", a.clone())? == b["total_fee"], "get_pool_fee of pool {} disagrees with get_pool", p);
        let sup = num(&b["shares_total_supply"]);
        ensure!(num(&v("get_pool_total_shares", a.clone())?) == sup, "get_pool_total_shares of pool {} disagrees with get_pool", p);
        let id = format!(":{}", p);
        ensure!(num(&v("mft_total_supply", json!({"token_id":id}))?) == sup, "mft_total_supply of pool {} disagrees with get_pool", p);
        let dec: u32 = if k == PK::Stable { 18 } else { 24 };
        let md = v("mft_metadata", json!({"token_id":id}))?;
        ensure!(md["decimals"].as_u64() == Some(dec as u64), "LP token of {:?} pool {} claims {} decimals", k, p, md["decimals"]);
        for f in ["name", "symbol"].iter() { ensure!(md[*f].as_str().map_or(false, |x| x.rsplit(|c: char| !c.is_ascii_digit()).next() == Some(p.to_string().as_str())), "LP token {} of pool {} is {}", f, p, md[*f]); }
        let ps = &s.pools[p as usize];
        ensure!(arr(&vo).len() == ps.tokens.len(), "pool {} has {} tokens and {} volume counters", p, ps.tokens.len(), arr(&vo).len());
        // one share's tokens
        let unit = 10u128.pow(dec);
        let us = w.vr("get_unit_share_token_amounts", a.clone());
        if sup > unit {
            let us = nums(&us.map_err(|e| format!("get_unit_share_token_amounts fails for pool {} with supply {}: {}", p, sup, e.chars().take(150).collect::<String>()))?);
            let pr = if k == PK::Simple { nums(&v("predict_remove_liquidity", json!({"pool_id":p,"shares":unit.to_string()}))?) } else { vec![] };
            for i in 0..ps.tokens.len() {
                let want = exact_reserve(ps, i) * U512::from(unit) / U512::from(sup) / U512::from(PREC24);
                let g = U512::from(grain(ps, i)); let (lo, hi) = (want.saturating_sub(g), want + g);
                ensure!(us.len() == ps.tokens.len() && U512::from(us[i]) >= lo && U512::from(us[i]) <= hi, "one share of pool {} holds {} of token {}, the unit share view says {:?}", p, want, i, us);
                if k == PK::Simple { ensure!(us == pr, "one share of pool {}: {:?} by view, {:?} by removal", p, us, pr); }
            }
        } else { ensure!(us.is_err(), "pool {} with {} shares reports the amounts of one whole share: {:?}", p, sup, us); }
        // share price
        if k == PK::Stable && sup > 0 {
            let want = ps.c.iter().fold(U512::zero(), |a, c| a + U512::from(*c)) * U512::from(100_000_000u64) / U512::from(sup);
            let got = num(&v("get_pool_share_price", a.clone())?);
            ensure!(U512::from(got) == want, "share price of stable pool {} is {}, expected {}", p, got, want);
        } else if k != PK::Simple && sup > 0 {
            if let Ok(got) = w.vr("get_pool_share_price", a.clone()) {
                let c = super::swap::curve_of(&math::scaled(&ps.c, &ps.rates), math::ann(ps.amp, ps.c.len()), false);
                let f = |d: U1024| (d * U1024::from(100_000_000u64) / U1024::from(sup)) >> math::FB;
                ensure!(U1024::from(num(&got)) >= f(c.dlo) && U1024::from(num(&got)) <= f(c.dhi) + U1024::one(), "share price of pool {} is {}, the pool's value per share lies in [{}, {}]", p, got, f(c.dlo), f(c.dhi));
                env.rep.eval("share price", key("price", k as u64 * 64 + lg(sup) / 4));
            }
        }
        basic.push(b); detail.push(d); vols.push(vo);
        env.rep.eval("pool views", key("pool", p % 4 * 8 + k as u64));
    }
    for (m, whole) in [("get_pools", &basic), ("get_pool_detail_infos", &detail), ("list_pool_volumes", &vols)].iter() {
        paged_list(m, r, whole, &mut |i, l| v(m, json!({"from_index":i,"limit":l})))?;
        env.rep.eval("pool pages", key(m, n));
    }
    // by arbitrary identifiers, in any order, repeated
    let ids: Vec<u64> = (0..r.us(7)).map(|_| r.below(n.max(1))).collect();
    for (m, whole) in [("get_pool_by_ids", &basic), ("get_pool_detail_info_by_ids", &detail), ("get_pool_volumes_by_ids", &vols)].iter() {
        let want: Vec<Value> = ids.iter().map(|i| whole[*i as usize].clone()).collect();
        let got = v(m, json!({"pool_ids":ids}))?;
        ensure!(arr(&got) == want, "{} {:?} gives {}, expected {:?}", m, ids, got, want);
        let mut bad = ids.clone(); bad.push(n + r.below(3));
        ensure!(w.vr(m, json!({"pool_ids":bad})).is_err(), "{} answers for {:?} although only {} pools exist", m, bad, n);
        env.rep.eval("pool batches", key(m, ids.len() as u64));
    }
    for m in ["get_pool", "get_pool_detail_info", "get_pool_volumes", "get_pool_fee", "get_pool_total_shares"].iter() { ensure!(w.vr(m, json!({"pool_id":n})).is_err(), "{} answers for pool {} although only {} exist", m, n, n); }
    // ---- averages and limits
    let mut tw = Map::new(); let mut lim = Map::new(); let mut unit_assets = Map::new();
    for p in 0..n {
        let x = v("get_pool_twap_info_view", json!({"pool_id":p}))?;
        if !x.is_null() {
            let a = w.vr("get_unit_share_twap_token_amounts", json!({"pool_id":p}));
            if let Ok(a) = &a { if !a.is_null() { unit_assets.insert(format!("shadow_ref_v1-{}", p), json!({"d":if kind(p) == PK::Stable { 18 } else { 24 },"t":s.pools[p as usize].tokens,"a":a})); } }
            tw.insert(p.to_string(), x);
        }
        let x = v("get_pool_limit_by_pool_id", json!({"pool_id":p}))?;
        if !x.is_null() { lim.insert(p.to_string(), x); }
    }
    for (m, whole) in [("list_pool_twap_info_view", &tw), ("get_pool_limit_paged", &lim)].iter() {
        ensure!(obj(&v(m, json!({}))?) == **whole, "{} gives {}, the single views {:?}", m, v(m, json!({}))?, whole);
        paged_map(m, r, whole.len() as u64, whole, &mut |i, l| v(m, json!({"from_index":i,"limit":l})))?;
        if !whole.is_empty() { env.rep.eval("records and limits", key(m, whole.len() as u64)); }
    }
    let mut tids: Vec<u64> = tw.keys().map(|k| k.parse().unwrap()).filter(|_| r.p(70)).collect();
    // the same pools asked for again, in a long request
    if r.p(30) && !tids.is_empty() { let k = tids.clone(); for _ in 0..r.us(14) { let x = *r.pick(&k); let i = r.us(tids.len() + 1); tids.insert(i, x); } }
    let ua = w.vr("get_unit_lpt_assets", json!({"pool_ids":tids}));
    if let Ok(ua) = &ua {
        let got = obj(ua);
        let want: BTreeSet<String> = tids.iter().map(|p| format!("shadow_ref_v1-{}", p)).filter(|k| unit_assets.contains_key(k)).collect();
        ensure!(got.keys().cloned().collect::<BTreeSet<_>>() == want, "get_unit_lpt_assets {:?} lists {:?}, expected {:?}", tids, got, want);
        for (k, x) in &got {
            let e = &unit_assets[k];
            let ts: Vec<Value> = arr(&x["tokens"]).iter().map(|t| t["token_id"].clone()).collect(); let am: Vec<Value> = arr(&x["tokens"]).iter().map(|t| t["amount"].clone()).collect();
            ensure!(x["decimals"] == e["d"] && json!(ts) == e["t"] && json!(am) == e["a"], "unit asset {} is {}, expected {}", k, x, e);
            env.rep.eval("unit assets", key("ua", ts.len() as u64));
        }
    }
    // ---- accounts
    let mut names: Vec<String> = w.accts.clone();
    names.push("nobody.near".into());
    let toks: Vec<String> = w.toks.keys().cloned().chain(["unknown.t".to_string()]).collect();
    let pick: Vec<String> = names.iter().filter(|a| r.p(60) || a.as_str() == "nobody.near").cloned().collect();
    for a in &pick {
        let who = json!({"account_id":a});
        let deps = obj(&v("get_deposits", who.clone())?);
        let listed: BTreeSet<String> = strs(&v("get_user_whitelisted_tokens", who.clone())?).into_iter().collect();
        ensure!(listed == deps.keys().cloned().collect(), "{} has deposits of {:?} and registered tokens {:?}", a, deps, listed);
        ensure!(strs(&v("get_user_whitelisted_tokens", who.clone())?).len() == listed.len(), "{}: a registered token is listed twice", a);
        paged_map("get_tokens_paged", r, deps.len() as u64, &deps, &mut |i, l| v("get_tokens_paged", json!({"account_id":a,"from_index":i,"limit":l})))?;
        ensure!(obj(&v("get_tokens_paged", who.clone())?) == deps, "get_tokens_paged without limits gives something else than get_deposits for {}", a);
        let lost = obj(&v("list_lostfound_tokens", who.clone())?);
        paged_map("list_lostfound_tokens", r, lost.len() as u64, &lost, &mut |i, l| v("list_lostfound_tokens", json!({"account_id":a,"from_index":i,"limit":l})))?;
        for t in &toks {
            let q = json!({"account_id":a,"token_id":t});
            let d = num(&v("get_deposit", q.clone())?);
            ensure!(d == deps.get(t).map(num).unwrap_or(0), "deposit of {} of {}: {} alone, {:?} in the list", t, a, d, deps.get(t));
            ensure!(num(&v("mft_balance_of", q.clone())?) == d, "mft_balance_of {} of {} is not the deposit {}", t, a, d);
            ensure!(v("token_register_of", q.clone())? == json!(deps.contains_key(t)), "token_register_of {} of {} disagrees with the deposit list", t, a);
            ensure!(num(&v("get_lostfound_token", q.clone())?) == lost.get(t).map(num).unwrap_or(0), "lostfound {} of {} disagrees with the list {:?}", t, a, lost);
        }
        let all: Vec<u64> = (0..n).collect();
        let batch = nums(&v("get_pool_shares_batch", json!({"pool_ids":all,"account_id":a}))?);
        let shad = obj(&v("get_shadow_records", who.clone())?);
        for p in 0..n {
            let x = num(&v("get_pool_shares", json!({"pool_id":p,"account_id":a}))?);
            let id = format!(":{}", p);
            ensure!(x == batch[p as usize], "shares of {} in pool {}: {} alone, {} in the batch", a, p, x, batch[p as usize]);
            ensure!(num(&v("mft_balance_of", json!({"token_id":id,"account_id":a}))?) == x, "mft_balance_of pool {} of {} is not the share balance {}", p, a, x);
            if x > 0 { ensure!(v("mft_has_registered", json!({"token_id":id,"account_id":a}))? == json!(true), "{} holds shares of pool {} and counts as not registered", a, p); }
        }
        let sel: Vec<u64> = (0..if r.p(80) { r.us(5) } else { r.us(40) }).map(|_| r.below(n.max(1))).collect();
        ensure!(nums(&v("get_pool_shares_batch", json!({"pool_ids":sel,"account_id":a}))?) == sel.iter().map(|p| batch[*p as usize]).collect::<Vec<_>>(), "share batch {:?} of {} in another order or of other pools", sel, a);
        // the three storage views
        let st = v("get_user_storage_state", who.clone())?; let ba = v("storage_balance_of", who.clone())?; let inf = v("get_account_basic_info", who.clone())?;
        ensure!(st.is_null() == ba.is_null() && st.is_null() == inf.is_null(), "{} is registered by one storage view and not by another: {} {} {}", a, st, ba, inf);
        if !st.is_null() {
            let (d, u) = (num(&st["deposit"]), num(&st["usage"]));
            ensure!(num(&ba["total"]) == d && num(&inf["near_amount"]) == d && num(&ba["available"]) == d.saturating_sub(u), "{}: storage views disagree: {} {} {}", a, st, ba, inf);
        } else { ensure!(deps.is_empty() && shad.is_empty(), "unregistered {} has deposits {:?} or pledges {:?}", a, deps, shad); }
        // the combined view
        let ids: Option<Vec<u64>> = if r.p(70) { Some(if r.p(60) { tids.clone() } else { vec![] }) } else { None };
        let wa = r.p(70);
        let mut q = json!({}); if wa { q["account_id"] = json!(a); } if let Some(i) = &ids { q["pool_ids"] = json!(i); }
        if ids.is_none() || ua.is_ok() {
            let b = v("batch_views", q.clone())?;
            let want = json!([if wa { json!(shad) } else { Value::Null }, Value::Null, if wa && ids.is_some() { js(&ids.clone().unwrap().iter().map(|p| batch[*p as usize]).collect::<Vec<_>>()) } else { Value::Null }]);
            ensure!(b[0] == want[0] && b[2] == want[2], "batch_views {} gives {}, expected {}", q, b, want);
            ensure!(match &ids { None => b[1].is_null(), Some(i) if i.is_empty() => obj(&b[1]).is_empty() && b[1].is_object(), Some(_) => ua.as_ref().ok() == Some(&b[1]) }, "batch_views {} gives unit assets {}, expected {:?}", q, b[1], ua);
        }
        env.rep.eval("account views", key("acc", deps.len() as u64 * 64 + lost.len() as u64 * 8 + shad.len() as u64));
        env.rep.sample("account views", || json!(format!("{}: {} tokens, {} lostfound, {} pledges, {} pools", a, deps.len(), lost.len(), shad.len(), n)));
    }
    // ---- contract wide
    let md = v("metadata", json!({}))?;
    ensure!(md["pool_count"].as_u64() == Some(n) && md["owner"] == v("get_owner", json!({}))? && md["version"] == v("version", json!({}))?, "metadata disagrees with the single views: {}", md);
    let g: BTreeSet<String> = strs(&v("get_guardians", json!({}))?).into_iter().collect();
    ensure!(g == strs(&md["guardians"]).into_iter().collect(), "guardians {:?} vs metadata {}", g, md["guardians"]);
    let refs = obj(&v("list_referrals", json!({}))?);
    paged_map("list_referrals", r, refs.len() as u64, &refs, &mut |i, l| v("list_referrals", json!({"from_index":i,"limit":l})))?;
    env.rep.eval("contract views", key("refs", refs.len() as u64 * 8 + g.len() as u64));
    if let Ok(dg) = w.vr("list_degen_tokens", json!({})) {
        let dg = obj(&dg);
        let q: Vec<String> = toks.iter().filter(|_| r.p(60)).cloned().collect();
        let b = obj(&v("batch_get_degen_tokens", json!({"token_ids":q}))?);
        ensure!(b.len() == q.len(), "batch_get_degen_tokens {:?} answers {} entries", q, b.len());
        for t in &q { ensure!(b.get(t).map_or(false, |x| *x == dg.get(t).cloned().unwrap_or(Value::Null)), "degen token {}: {:?} in the batch, {:?} in the list", t, b.get(t), dg.get(t)); }
        if !dg.is_empty() { env.rep.eval("price views", key("dg", q.len() as u64)); }
        for (p, ps) in s.pools.iter().enumerate().filter(|x| x.1.kind == PK::Degen) { for (i, t) in ps.tokens.iter().enumerate() { if let Some(x) = dg.get(t) { ensure!(num(&x["degen_price"]) == ps.rates[i], "pool {} uses price {} for {}, the list says {}", p, ps.rates[i], t, x); } } }
    }
    let rt = obj(&v("list_rated_tokens", json!({}))?);
    for (p, ps) in s.pools.iter().enumerate().filter(|x| x.1.kind == PK::Rated) { for (i, t) in ps.tokens.iter().enumerate() {
        let want = rt.get(t).map(|x| num(&x["rate_price"])).unwrap_or(PREC24);
        ensure!(ps.rates[i] == want, "pool {} shows rate {} for {}, the rate list says {}", p, ps.rates[i], t, want);
        env.rep.eval("rate views", key("rt", i as u64));
    } }
    // several predictions at once are the single ones
    let mut bd = vec![]; let mut ba = vec![]; let mut want = vec![];
    for _ in 0..r.us(4) {
        let len = 1 + r.us(3);
        if let Some((acts, _)) = gen::swap_actions(r, s, USERS[1], None, len, None) {
            let mut d = Map::new();
            for a in &acts { d.insert(a["token_in"].as_str().unwrap().into(), json!((1u128 << 110).to_string())); d.insert(a["token_out"].as_str().unwrap().into(), json!("5")); }
            if let Ok(x) = w.vr("predict_swap_actions", json!({"token_deposit":d,"actions":acts})) { bd.push(json!(d)); ba.push(json!(acts)); want.push(x); }
        }
    }
    if !want.is_empty() {
        let got = v("batch_predict_swap_actions", json!({"batch_token_deposit":bd,"batch_actions":ba}))?;
        ensure!(arr(&got) == want, "batch_predict_swap_actions gives {}, one by one {:?}", got, want);
        env.rep.eval("batch predictions", key("bp", want.len() as u64));
    }
    Ok(())
}

// ------------------------------------------------------------------ C36
fn c36(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 1 + r.us(4), stable: r.us(3), rated: r.p(40), degen: r.p(40), overprecise: r.p(5) };
    let mut w = gen::world(env.codes, &mut r, &sp);
    let n = 30 + r.us(70);
    let mut quiet = |_: &mut World, _: &Step, _: &mut Env| -> Res { Ok(()) };
    let mix = Mix::all().with(&[(gen::M_SHADOW, 9), (gen::M_FAULT, 7), (gen::M_WITHDRAW, 10), (gen::M_MFT, 9), (gen::M_STORAGE, 6)]);
    w.cached = None;
    soup(env, &mut w, &mut r, &SoupCfg { n, flags: 0, mix, conc: 0 }, &mut quiet)?;
    let res = exits(env, &mut w, &mut r);
    if res.is_err() { *env.story = w.story(60); }
    res
}
/// the smallest amount of token i the pool can tell apart
pub fn grain(p: &PoolS, i: usize) -> u128 { if p.kind == PK::Stable && p.dec[i] > 18 { 10u128.pow(p.dec[i] as u32 - 18) } else { 1 } }
/// what a stable-type pool must keep of each token, in comparable units
fn floor_of(k: PK) -> u128 { match k { PK::Simple => 0, PK::Stable => 1_000_000_000_000_000, _ => PREC24 / 1000 } }
fn keeps(ps: &PoolS, sh: u128) -> bool { ps.kind == PK::Simple || ps.c.iter().all(|c| { let out = (U512::from(*c) * U512::from(sh) / U512::from(ps.supply)).as_u128(); c - out >= floor_of(ps.kind) }) }
fn exits(env: &mut Env, w: &mut World, r: &mut Rng) -> Res {
    // a healthy world: tokens pay, counterparties agree, running, nothing frozen; prices may be old and tokens delisted
    let toks: Vec<String> = w.toks.keys().cloned().collect();
    for t in &toks { let f = w.ch.mock(t).ft(); f.fail = false; f.deny.clear(); f.fail_near_withdraw = false; }
    for c in [BOOST, BURROW].iter() { if let Mock::Script(s) = w.ch.mock(c) { s.answers.insert("on_cast_shadow".into(), Answer::json(Value::Null)); s.answers.insert("on_remove_shadow".into(), Answer::json(Value::Null)); s.answers.insert("mft_on_transfer".into(), Answer::json(json!("0"))); } }
    w.drain();
    let s = w.snap_with(F_MONEY | F_META | F_STORAGE);
    let owner = s.meta["owner"].as_str().unwrap().to_string();
    if s.meta["state"] != json!("Running") { let x = w.ex(&owner, "change_state", json!({"state":"Running"}), 1); ensure!(x.is_ok(), "the owner cannot resume: {:?}", x); }
    if !s.frozen.is_empty() { let x = w.ex(&owner, "remove_frozenlist_tokens", json!({"tokens":s.frozen}), 1); ensure!(x.is_ok(), "the owner cannot unfreeze {:?}: {:?}", s.frozen, x); }
    if r.p(30) && !s.white.is_empty() { let out: Vec<&String> = s.white.iter().filter(|_| r.p(50)).collect(); let _ = w.ex(&owner, "remove_whitelisted_tokens", json!({"tokens":out}), 1); }
    if r.p(50) { w.ch.ts += DAY * (1 + r.below(40)); }
    // people leave one after another
    let mut ppl: Vec<String> = USERS.iter().map(|x| x.to_string()).chain([OWNER.to_string(), LIQ.to_string(), REF1.to_string(), REF2.to_string()]).collect();
    for i in (1..ppl.len()).rev() { let j = r.us(i + 1); ppl.swap(i, j); }
    let k = if r.p(60) { ppl.len() } else { 1 + r.us(ppl.len()) };
    for u in ppl.iter().take(k) { leave(env, w, r, u)?; }
    Ok(())
}
fn try_step(w: &mut World, u: &str, m: &str, a: Value, dep: u128) -> Result<Value, String> { w.tx(u, EX, m, a.clone(), dep).map_err(|e| format!("{} cannot leave: {} {} fails: {}", u, m, a, e.chars().take(300).collect::<String>())) }
fn leave(env: &mut Env, w: &mut World, r: &mut Rng, u: &str) -> Res {
    let fl = F_MONEY | F_META | F_STORAGE;
    let s = w.snap_with(fl);
    let holds = (0..s.pools.len()).any(|p| s.share(p, u) > 0);
    if !s.registered(u) && !holds && s.lost.get(u).map_or(true, |m| m.is_empty()) { return Ok(()); }
    // room for every token it may receive
    try_step(w, u, "storage_deposit", json!({}), NEAR)?;
    let mut steps: Vec<(u8, u64)> = vec![];
    for (p, v) in s.shadow.get(u).cloned().unwrap_or_default() { if v.0 > 0 { steps.push((0, p)); } if v.1 > 0 { steps.push((1, p)); } }
    for i in (1..steps.len()).rev() { let j = r.us(i + 1); steps.swap(i, j); }
    for (k, p) in steps {
        let (f, b) = s.shad(u, p); let x = if k == 0 { f } else { b };
        let mut a = json!({"action":if k == 0 { "FromFarming" } else { "FromBurrowland" },"pool_id":p,"msg":""});
        if r.p(50) { a["amount"] = json!(x.to_string()); }
        try_step(w, u, "shadow_action", a, 1)?;
        let (f2, b2) = w.snap_with(fl).shad(u, p);
        ensure!(if k == 0 { f2 == 0 } else { b2 == 0 }, "{} released {} shares of pool {} and still has ({}, {}) pledged", u, x, p, f2, b2);
        env.rep.eval("release", key("rel", k as u64 * 100 + lg(x) / 8));
    }
    let mut ps: Vec<usize> = (0..s.pools.len()).filter(|p| s.share(*p, u) > 0).collect();
    for i in (1..ps.len()).rev() { let j = r.us(i + 1); ps.swap(i, j); }
    for p in ps {
        let mut left = s.share(p, u);
        if r.p(25) && left > 1 { // in two parts
            let now = w.pool(p as u64); let x = 1 + r.below128(left - 1);
            if keeps(&now, x) { burn(env, w, u, p, x, &now)?; left -= x; }
        }
        let now = w.pool(p as u64);
        let mut x = left;
        if !keeps(&now, x) { let (mut lo, mut hi) = (0u128, x); while hi - lo > 1 { let m = lo + (hi - lo) / 2; if keeps(&now, m) { lo = m } else { hi = m } } x = lo; }
        if x > 0 { burn(env, w, u, p, x, &now)?; }
        let rest = w.share_of(p as u64, u);
        ensure!(rest == left - x, "{} burnt {} of {} shares of pool {} and has {} left", u, x, left, p, rest);
        if rest > 0 { env.rep.count("shares pinned by a minimum reserve"); }
    }
    for t in s.lost.get(u).map(|m| m.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
        let x = s.lostf(u, &t);
        let before = w.ledger(&t, u) as i128;
        try_step(w, u, "claim_lostfound", json!({"token_id":t}), 1)?;
        let s2 = w.snap_with(fl);
        ensure!(s2.lostf(u, &t) == 0, "{} claimed {} of {} and {} is still in lostfound", u, x, t, s2.lostf(u, &t));
        if t != WNEAR { ensure!(w.ledger(&t, u) as i128 - before == x as i128, "{} claimed {} of {} and received {}", u, x, t, w.ledger(&t, u) as i128 - before); }
        env.rep.eval("claim", key("lost", lg(x) / 8));
    }
    let s = w.snap_with(fl);
    let mut ts: Vec<(String, u128)> = s.dep.get(u).map(|m| m.iter().map(|(k, v)| (k.clone(), *v)).collect()).unwrap_or_default();
    for i in (1..ts.len()).rev() { let j = r.us(i + 1); ts.swap(i, j); }
    let mut empty = vec![];
    for (t, x) in ts {
        let mut unreg = r.p(50);
        if x > 0 {
            let before = w.ledger(&t, u) as i128;
            let mut a = json!({"token_id":t,"amount":if r.p(50) { "0".to_string() } else { x.to_string() },"unregister":unreg});
            if r.p(30) { a["skip_unwrap_near"] = json!(r.p(50)); }
            let near = w.ch.bal(u) as i128;
            try_step(w, u, "withdraw", a, 1)?;
            let s2 = w.snap_with(fl);
            ensure!(s2.deposit(u, &t) == 0 && s2.lostf(u, &t) == 0, "{} withdrew {} of {} and {} is still held", u, x, t, s2.deposit(u, &t) + s2.lostf(u, &t));
            let got = w.ledger(&t, u) as i128 - before + if t == WNEAR { w.ch.bal(u) as i128 - near } else { 0 };
            ensure!((got - x as i128).abs() <= if t == WNEAR { NEAR as i128 / 100 } else { 0 }, "{} withdrew {} of {} and received {}", u, x, t, got);
            env.rep.eval("withdraw", Some(hash64(format!("{} {}", t, lg(x) / 8).as_bytes())));
        } else { unreg = false; }
        if !unreg { empty.push(t); }
    }
    while !empty.is_empty() { let n = 1 + r.us(empty.len()); let q: Vec<String> = empty.drain(..n).collect(); try_step(w, u, "unregister_tokens", json!({"token_ids":q}), 1)?; }
    let s = w.snap_with(fl);
    ensure!(s.dep.get(u).map_or(true, |m| m.is_empty()) && s.shadow.get(u).map_or(true, |m| m.is_empty()), "{} unregistered every token and still lists {:?} {:?}", u, s.dep.get(u), s.shadow.get(u));
    let (d, us) = s.storage[u];
    if r.p(40) && d > us {
        let near = w.ch.bal(u);
        try_step(w, u, "storage_withdraw", json!({}), 1)?;
        ensure!(w.ch.bal(u) == near - 1 + d - us || w.ch.bal(u) == near + d - us, "{} withdrew {} of free storage deposit and received {}", u, d - us, w.ch.bal(u) as i128 - near as i128);
        env.rep.eval("storage", key("sto", lg(d - us)));
    }
    let d = w.snap_with(fl).storage[u].0;
    let near = w.ch.bal(u);
    let x = try_step(w, u, "storage_unregister", json!({}), 1)?;
    ensure!(x == json!(true) && !w.snap_with(fl).registered(u), "{} unregistered ({}) and is still registered", u, x);
    ensure!(w.ch.bal(u) + 1 == near + d || w.ch.bal(u) == near + d, "{} unregistered with {} deposited and received {}", u, d, w.ch.bal(u) as i128 - near as i128);
    env.rep.eval("unregister", key("unreg", lg(d)));
    env.rep.sample("gone", || json!(u));
    Ok(())
}
fn burn(env: &mut Env, w: &mut World, u: &str, p: usize, x: u128, now: &PoolS) -> Res {
    let dep: BTreeMap<String, u128> = now.tokens.iter().map(|t| (t.clone(), w.deposit_of(u, t))).collect();
    try_step(w, u, "remove_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":vec!["0"; now.tokens.len()]}), 1)?;
    for (i, t) in now.tokens.iter().enumerate() {
        let got = w.deposit_of(u, t).saturating_sub(dep[t]);
        let want = exact_reserve(now, i) * U512::from(x) / U512::from(now.supply) / U512::from(PREC24);
        ensure!(U512::from(got) <= want && U512::from(got) + U512::from(grain(now, i)) >= want, "{} burnt {} of {} shares of pool {} for {} of {}, the pro-rata part is {}", u, x, now.supply, p, got, t, want);
    }
    env.rep.eval("burn", key("burn", now.kind as u64 * 1000 + lg(x) * 4 + (x == now.supply) as u64));
    Ok(())
}

// ------------------------------------------------------------------ C34
/// reference model of everything the owner and the guardians can list or set
#[derive(Clone, Debug, PartialEq, Default)]
struct Adm {
    owner: String, guards: BTreeSet<String>, running: bool, fee: u64, interval: u64, boost: String, burrow: String, wnear: String,
    postfix: BTreeSet<String>, white: BTreeSet<String>, frozen: BTreeSet<String>, refs: BTreeMap<String, u128>,
    ct: BTreeSet<String>, cs: BTreeSet<String>, ss: BTreeSet<String>, fees: Vec<u64>, twap: BTreeSet<u64>, limits: BTreeMap<u64, u128>,
}
fn find_limit(x: &Value) -> Option<u128> { match x { Value::Object(o) => o.get("tvl_limit").map(num).or_else(|| o.values().find_map(find_limit)), _ => None } }
fn read_adm(w: &World) -> Result<Adm, String> {
    let v = |m: &str| -> Result<Value, String> { w.vr(m, json!({})).map_err(|e| format!("view {} fails: {}", m, e.chars().take(200).collect::<String>())) };
    let set = |x: Value, what: &str| -> Result<BTreeSet<String>, String> { let l = strs(&x); let n = l.len(); let s: BTreeSet<String> = l.into_iter().collect(); ensure!(s.len() == n, "{} lists an entry twice: {}", what, x); Ok(s) };
    let md = v("metadata")?;
    let n = md["pool_count"].as_u64().unwrap();
    let mut a = Adm { owner: md["owner"].as_str().unwrap().into(), running: md["state"] == json!("Running"), fee: md["admin_fee_bps"].as_u64().unwrap(), interval: md["cumulative_info_record_interval_sec"].as_u64().unwrap(),
        boost: md["boost_farm_id"].as_str().unwrap().into(), burrow: md["burrowland_id"].as_str().unwrap().into(), wnear: md["wnear_id"].as_str().unwrap_or("").into(),
        guards: set(md["guardians"].clone(), "guardians")?, postfix: set(md["auto_whitelisted_postfix"].clone(), "postfixes")?,
        white: set(v("get_whitelisted_tokens")?, "whitelist")?, frozen: set(v("get_frozenlist_tokens")?, "frozen list")?,
        refs: v("list_referrals")?.as_object().unwrap().iter().map(|(k, x)| (k.clone(), num(x))).collect(),
        ct: set(v("get_client_echo_token_id_whitelist")?, "echo tokens")?, cs: set(v("get_client_echo_sender_id_whitelist")?, "echo senders")?, ss: set(v("get_secure_sender_whitelist")?, "secure senders")?,
        ..Default::default() };
    for p in 0..n { a.fees.push(w.vr("get_pool_fee", json!({"pool_id":p})).map_err(|e| format!("get_pool_fee {} fails: {}", p, e))?.as_u64().unwrap()); }
    a.twap = v("list_pool_twap_info_view")?.as_object().unwrap().keys().map(|k| k.parse().unwrap()).collect();
    a.limits = v("get_pool_limit_paged")?.as_object().unwrap().iter().map(|(k, x)| (k.parse().unwrap(), find_limit(x).unwrap_or(0))).collect();
    Ok(a)
}
fn matches(list: &BTreeSet<String>, id: &str) -> bool { list.contains(id) || list.iter().any(|p| p.strip_prefix('*').map_or(false, |s| id.ends_with(s))) }
impl Adm {
    /// is this caller entitled, and what does the call leave behind? None = must be refused; Err = the model does not say
    fn apply(&self, who: &str, m: &str, a: &Value, dep: u128, w: &World) -> Option<Adm> {
        let own = who == self.owner; let grd = own || self.guards.contains(who);
        if dep != 1 { return None; }
        let mut x = self.clone();
        fn add(s: &mut BTreeSet<String>, v: &Value, fresh: bool) -> bool { for e in strs(v) { if !s.insert(e) && fresh { return false; } } true }
        fn del(s: &mut BTreeSet<String>, v: &Value) -> bool { strs(v).iter().all(|e| s.remove(e)) }
        let star = |v: &Value| strs(v).iter().all(|e| !e.starts_with('*') || e.starts_with("*."));
        let st = |k: &str| a[k].as_str().unwrap_or("").to_string();
        let np = self.fees.len() as u64;
        let ok = match m {
            "extend_guardians" => own && add(&mut x.guards, &a["guardians"], false),
            "remove_guardians" => own && del(&mut x.guards, &a["guardians"]),
            "extend_auto_whitelisted_postfix" => grd && add(&mut x.postfix, &a["postfixes"], false),
            "remove_auto_whitelisted_postfix" => grd && del(&mut x.postfix, &a["postfixes"]),
            "extend_whitelisted_tokens" => grd && add(&mut x.white, &a["tokens"], false),
            "remove_whitelisted_tokens" => grd && del(&mut x.white, &a["tokens"]),
            "extend_frozenlist_tokens" => grd && add(&mut x.frozen, &a["tokens"], false),
            "remove_frozenlist_tokens" => grd && del(&mut x.frozen, &a["tokens"]),
            "extend_client_echo_token_id_whitelist" => grd && star(&a["token_ids"]) && add(&mut x.ct, &a["token_ids"], true),
            "remove_client_echo_token_id_whitelist" => own && del(&mut x.ct, &a["token_ids"]),
            "extend_client_echo_sender_id_whitelist" => grd && add(&mut x.cs, &a["sender_ids"], true),
            "remove_client_echo_sender_id_whitelist" => own && del(&mut x.cs, &a["sender_ids"]),
            "extend_secure_sender_whitelist" => grd && star(&a["sender_ids"]) && add(&mut x.ss, &a["sender_ids"], true),
            "remove_secure_sender_whitelist" => own && del(&mut x.ss, &a["sender_ids"]),
            "insert_referral" | "update_referral" | "remove_referral" => {
                let r = st("referral_id"); let had = self.refs.contains_key(&r);
                let f = if m == "remove_referral" { 1 } else { num(&a["fee_bps"]) };
                let right = if m == "insert_referral" { !had } else { had };
                if m == "remove_referral" { x.refs.remove(&r); } else { x.refs.insert(r, f); }
                grd && right && f > 0 && f < 10_000
            }
            "modify_boost_farm_id" => { x.boost = st("boost_farm_id"); grd }
            "modify_burrowland_id" => { x.burrow = st("burrowland_id"); grd }
            "modify_wnear_id" => { x.wnear = st("wnear_id"); own }
            "modify_admin_fee" => { x.fee = a["admin_fee_bps"].as_u64().unwrap(); own && x.fee <= 8_000 }
            "modify_total_fee" => { let p = a["pool_id"].as_u64().unwrap(); let f = a["total_fee"].as_u64().unwrap(); if p < np { x.fees[p as usize] = f; } grd && p < np && f < 10_000 }
            "modify_cumulative_info_record_interval_sec" => { x.interval = a["record_interval_sec"].as_u64().unwrap(); grd }
            "register_pool_twap_record" => { let p = a["pool_id"].as_u64().unwrap(); grd && p < np && !(!x.twap.insert(p)) && w.vr("get_unit_share_token_amounts", json!({"pool_id":p})).is_ok() }
            "unregister_pool_twap_record" => { let p = a["pool_id"].as_u64().unwrap(); grd && x.twap.remove(&p) }
            "change_state" => { let run = st("state") == "Running"; let ch = run != self.running; x.running = run; grd && (!ch || !run || own) }
            "set_owner" => { x.owner = st("owner_id"); own }
            _ => return None,
        };
        if ok { Some(x) } else { None }
    }
}
fn entries(r: &mut Rng, pool: &[&str], have: &BTreeSet<String>) -> Vec<String> {
    let n = match r.below(8) { 0 => 0, 1 | 2 | 3 => 1, 4 | 5 => 2, _ => 3 };
    let h: Vec<&String> = have.iter().collect();
    let mut v: Vec<String> = (0..n).map(|_| if !h.is_empty() && r.p(50) { (*r.pick(&h)).clone() } else { r.pick(pool).to_string() }).collect();
    if v.len() > 1 && r.p(15) { let x = v[0].clone(); v.push(x); }
    v
}
const IDS: [&str; 12] = ["ta.t", "tb.t", "odd.t", "wrap.t", "x.sub.t", "ua.near", "ub.near", "guard.near", "guard2.near", "boost.near", "te.t", "bigb.near"];
const PATS: [&str; 14] = ["*.t", "*.near", "*", "*.sub.t", "*b.near", "*a.t", "*.", "ta.t", "tb.t", "ua.near", "b.near", ".t", "*ub.near", "*.b.near"];
fn adm_op(r: &mut Rng, a: &Adm, np: u64) -> (String, String, Value, u128) {
    let who = r.pick(&[OWNER, OWNER, OWNER, GUARD, GUARD, USERS[0], USERS[1], "guard2.near"]).to_string();
    let pid = if r.p(90) { r.below(np) } else { np + r.below(2) };
    let (m, v) = match r.below(31) {
        0 => ("extend_guardians", json!({"guardians":entries(r, &["guard.near", "guard2.near", "ub.near"], &a.guards)})),
        1 => ("remove_guardians", json!({"guardians":entries(r, &["guard2.near", "ub.near"], &a.guards)})),
        2 | 3 => ("extend_auto_whitelisted_postfix", json!({"postfixes":entries(r, &[".t", "odd.t", ".sub.t", "", "d.t"], &a.postfix)})),
        4 => ("remove_auto_whitelisted_postfix", json!({"postfixes":entries(r, &[".t", ".x"], &a.postfix)})),
        5 => ("extend_whitelisted_tokens", json!({"tokens":entries(r, &IDS, &a.white)})),
        6 | 7 => ("remove_whitelisted_tokens", json!({"tokens":entries(r, &IDS, &a.white)})),
        8 => ("extend_frozenlist_tokens", json!({"tokens":entries(r, &IDS, &a.frozen)})),
        9 | 10 => ("remove_frozenlist_tokens", json!({"tokens":entries(r, &IDS, &a.frozen)})),
        11 | 12 => ("extend_client_echo_token_id_whitelist", json!({"token_ids":entries(r, &PATS, &a.ct)})),
        13 | 14 => ("remove_client_echo_token_id_whitelist", json!({"token_ids":entries(r, &PATS, &a.ct)})),
        15 | 16 => ("extend_client_echo_sender_id_whitelist", json!({"sender_ids":entries(r, &PATS, &a.cs)})),
        17 | 18 => ("remove_client_echo_sender_id_whitelist", json!({"sender_ids":entries(r, &PATS, &a.cs)})),
        19 => ("extend_secure_sender_whitelist", json!({"sender_ids":entries(r, &PATS, &a.ss)})),
        20 | 21 => ("remove_secure_sender_whitelist", json!({"sender_ids":entries(r, &PATS, &a.ss)})),
        22 => ("insert_referral", json!({"referral_id":r.pick(&[REF1, REF2, USERS[0], USERS[1]]),"fee_bps":*r.pick(&[0u32, 1, 9999, 10_000, 300, 2000])})),
        23 => ("update_referral", json!({"referral_id":r.pick(&[REF1, REF2, USERS[0], USERS[1]]),"fee_bps":*r.pick(&[0u32, 1, 9999, 10_000, 400, 2500])})),
        24 => ("remove_referral", json!({"referral_id":r.pick(&[REF1, REF2, USERS[0], USERS[1]])})),
        25 => match r.below(3) { 0 => ("modify_boost_farm_id", json!({"boost_farm_id":r.pick(&[BOOST, "boost2.near"])})), 1 => ("modify_burrowland_id", json!({"burrowland_id":r.pick(&[BURROW, "burrow2.near"])})), _ => ("modify_wnear_id", json!({"wnear_id":WNEAR})) },
        26 => ("modify_admin_fee", json!({"admin_fee_bps":*r.pick(&[0u32, 1, 2000, 7999, 8000, 8001, 10_000])})),
        27 => ("modify_total_fee", json!({"pool_id":pid,"total_fee":*r.pick(&[0u32, 1, 30, 9999, 10_000, 300])})),
        28 => ("modify_cumulative_info_record_interval_sec", json!({"record_interval_sec":r.below(5000)})),
        29 => if r.p(60) { ("register_pool_twap_record", json!({"pool_id":pid})) } else { ("unregister_pool_twap_record", json!({"pool_id":pid})) },
        _ => match r.below(4) { 0 => ("set_owner", json!({"owner_id":OWNER})), _ => ("change_state", json!({"state":r.pick(&["Running", "Running", "Paused"])})) },
    };
    (who, m.to_string(), v, if r.p(96) { 1 } else { r.below128(3) })
}
fn c34(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 3 + r.us(3), stable: r.us(2), rated: false, degen: false, overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    w.add_token("x.sub.t", 18, true);
    w.ch.add_user("guard2.near", 1000 * NEAR); w.ch.add_user("bigb.near", 1000 * NEAR);
    for u in ["guard2.near", "bigb.near"].iter() { w.accts.push(u.to_string()); w.ok(u, EX, "storage_deposit", json!({}), NEAR); }
    let p = w.add_simple(&["x.sub.t", "ta.t"], 30); w.seed(USERS[0], p, &[1 << 80, 1 << 80]);
    w.flags = F_MONEY | F_META; w.cached = None;
    let res = c34_run(env, &mut w, &mut r);
    if res.is_err() { *env.story = w.story(50); }
    res
}
fn c34_run(env: &mut Env, w: &mut World, r: &mut Rng) -> Res {
    let mut a = read_adm(w)?;
    for _ in 0..60 {
        w.drain();
        if !a.running && r.p(50) { let x = w.ex(&a.owner.clone(), "change_state", json!({"state":"Running"}), 1); ensure!(x.is_ok(), "the owner cannot resume: {:?}", x); a.running = true; }
        if r.p(62) {
            let (who, m, v, dep) = adm_op(r, &a, a.fees.len() as u64);
            let want = a.apply(&who, &m, &v, dep, w);
            let before = w.snap_with(F_MONEY | F_STORAGE);
            let st = w.ex_step(&who, &m, v.clone(), dep);
            let got = read_adm(w)?;
            ensure!(st.ev.ok.is_ok() == want.is_some(), "{} by {} with {} attached: {} although the lists are {:?}", m, who, dep, fmt_ev(&st.ev), a);
            let next = want.unwrap_or_else(|| a.clone());
            ensure!(got == next, "after {} the settings are {:?}, expected {:?}", fmt_ev(&st.ev), got, next);
            let after = w.snap_with(F_MONEY | F_STORAGE);
            let same = before.dep == after.dep && before.shares == after.shares && before.lost == after.lost && before.shadow == after.shadow && before.storage == after.storage
                && before.pools.iter().zip(&after.pools).all(|(x, y)| { let mut x = x.clone(); x.fee = y.fee; x == *y });
            ensure!(same, "{} changed balances or pools", fmt_ev(&st.ev));
            a = next;
            env.rep.eval("administrative call", Some(hash64(format!("{} {} {} {}", m, who, dep, st.ev.ok.is_ok()).as_bytes())));
            continue;
        }
        if !a.running { continue; }
        // a transfer-initiated swap whose output goes back to the sender with a message
        let pools: Vec<(usize, PoolS)> = w.snap_with(F_POOLS).pools.iter().cloned().enumerate().filter(|x| x.1.supply > 0).collect();
        if pools.is_empty() { continue; }
        let (p, ps) = r.pick(&pools).clone();
        let i = r.us(ps.tokens.len()); let j = (i + 1 + r.us(ps.tokens.len() - 1)) % ps.tokens.len();
        let (tin, tout) = (ps.tokens[i].clone(), ps.tokens[j].clone());
        let u = r.pick(&[USERS[0], USERS[1], USERS[2], "guard2.near", "bigb.near", BOOST, BURROW]).to_string();
        let x = 1_000 + r.below128((ps.amounts[i] / 10).max(1));
        w.mint(&tin, &u, x); w.mint(&tout, &u, 0);
        let mut msg = json!({"actions":[{"pool_id":p,"token_in":tin,"token_out":tout,"min_amount_out":"0"}],"client_echo":"hello"});
        if r.p(25) { msg["referral_id"] = json!(REF1); }
        // naming another receiver too: refused, or the sender still gets it with the message
        if r.p(15) { let v = r.pick(&[USERS[0], USERS[3], BOOST]).to_string(); w.mint(&tout, &v, 0); msg["swap_out_recipient"] = json!(v); }
        let echo_msg = if r.p(10) { "" } else { "hello" };
        msg["client_echo"] = json!(echo_msg);
        let msg = msg.to_string();
        let send = |w: &mut World| -> Option<Step> { apply_transfer(w, &u, &tin, x, &msg) };
        let allowed = matches(&a.ss, &u) || (matches(&a.ct, &tin) && matches(&a.cs, &u));
        let mut f = w.clone();
        if !a.ss.contains(&u) { let y = f.ex(&a.owner.clone(), "extend_secure_sender_whitelist", json!({"sender_ids":[u]}), 1); ensure!(y.is_ok(), "the owner cannot admit {}: {:?}", u, y); }
        let works = match send(&mut f) { Some(st) => st.ev.ok.is_ok(), None => continue };
        let st = match send(w) { Some(st) => st, None => continue };
        ensure!(st.ev.ok.is_ok() == (works && allowed), "transfer of {} by {} with client echo: {}, admitted by the lists: {}, works when admitted: {}; echo tokens {:?}, echo senders {:?}, secure senders {:?}", tin, u, fmt_ev(&st.ev), allowed, works, a.ct, a.cs, a.ss);
        if st.ev.ok.is_err() { ensure!(st.pre.dep == st.post.dep && st.pre.pools == st.post.pools && st.pre.shares == st.post.shares && st.pre.lost == st.post.lost, "a refused transfer with client echo left traces"); }
        w.drain();
        if st.ev.ok.is_ok() {
            let out = st.pre.pools[p].amounts[j].saturating_sub(st.post.pools[p].amounts[j]);
            let echoes: Vec<(String, Value)> = w.ch.log.iter().filter(|e| e.parent == Some(st.ev.rid) && e.method == "ft_transfer_call").map(|e| (e.receiver.clone(), serde_json::from_str(&e.args).unwrap_or(Value::Null))).collect();
            ensure!(echoes.len() == (out > 0) as usize || (out == 1 && ps.kind != PK::Simple), "{} echoes sent for an output of {}: {}", echoes.len(), out, fmt_ev(&st.ev));
            for (t, v) in &echoes { ensure!(*t == tout && v["receiver_id"] == json!(u) && { let n: u128 = v["amount"].as_str().and_then(|x| x.parse().ok()).unwrap_or(0); n <= out && out - n <= (ps.kind != PK::Simple) as u128 } && v["msg"] == json!(echo_msg), "output of {} {} echoed as {} {}", out, tout, t, v); }
        }
        if st.ev.ok.is_err() { env.rep.count("echo refused"); }
        env.rep.eval("echo", if works { Some(hash64(format!("{} {} {} {} {}", u, matches(&a.ct, &tin), matches(&a.cs, &u), matches(&a.ss, &u), a.cs.contains(&u)).as_bytes())) } else { None });
        env.rep.sample(if allowed { "echo admitted" } else { "echo refused" }, || json!(format!("{} from {}: tokens {:?} senders {:?} secure {:?}", tin, u, a.ct, a.cs, a.ss)));
    }
    Ok(())
}
/// send tokens with a message and execute up to the receipt on the exchange
fn apply_transfer(w: &mut World, u: &str, t: &str, x: u128, msg: &str) -> Option<Step> {
    let id = w.ch.send(u, t, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":msg}), 1);
    let i = w.pos(id)?;
    let k = w.exec_fast(i);
    let c = w.ch.log[k].created.first().cloned()?;
    let i = w.pos(c)?;
    Some(w.exec(i))
}

// ---------------------------------------------------------------- C37
struct M37 { aimed: Option<(String, usize)> }
fn unit_c(k: PK) -> u128 { if k == PK::Stable { 1_000_000_000_000_000_000 } else { PREC24 } }
fn to_units(ps: &PoolS, i: usize, c: u128) -> u128 { (U512::from(c) * U512::from(10u64).pow(U512::from(ps.dec[i] as u32)) / U512::from(unit_c(ps.kind))).as_u128() }
fn nudge(r: &mut Rng, floor: u128) -> u128 {
    match r.below(9) { 0 => 0, 1 => floor, 2 => floor + 1 + r.below128(4), 3 => floor - (1 + r.below128(4)).min(floor), 4 => floor + r.below128(floor / 10 + 2), 5 => floor - r.below128(floor / 10 + 1).min(floor), 6 => 1, 7 => r.below128(floor + 1), _ => floor * 2 }
}
impl M37 {
    fn aim(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        let live: Vec<usize> = (0..s.pools.len()).filter(|i| s.pools[*i].supply > 0).collect();
        if live.is_empty() { return None; }
        let p = *r.pick(&live);
        let ps = &s.pools[p];
        let (u, sh) = USERS.iter().map(|u| (*u, s.free(u, p))).max_by_key(|x| x.1)?;
        let (kind, fl) = (ps.kind, floor_of(ps.kind));
        let tag = |k: &str| (format!("{} {:?}", k, kind), p);
        let n = ps.tokens.len();
        let j = r.us(n);
        match r.below(8) {
            0 | 1 => {
                if sh == 0 { return None; }
                // by shares, leaving about the floor of token j
                let x = if kind == PK::Simple { match r.below(4) { 0 => sh, 1 => sh - 1, 2 => sh - sh / (1 + r.logu(1_000_000)), _ => r.amount(sh) } } else {
                    let leave = nudge(r, fl);
                    let c = ps.c[j].max(1);
                    let x = (U512::from(c.saturating_sub(leave)) * U512::from(ps.supply) / U512::from(c)).as_u128();
                    if r.p(30) { x.saturating_add(1) } else { x }.min(sh)
                };
                if x == 0 { return None; }
                self.aimed = Some(tag("by shares"));
                Some(gen::op(u, "remove_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":vec!["0"; n]}), 1))
            }
            2 | 3 | 4 if kind != PK::Simple => {
                if sh == 0 { return None; }
                let mut am = vec![0u128; n];
                for (i, a) in am.iter_mut().enumerate() { if i == j { *a = to_units(ps, i, ps.c[i].saturating_sub(nudge(r, fl))); } else if r.p(35) { *a = if r.p(50) { r.amount(ps.amounts[i].max(1)) } else { to_units(ps, i, ps.c[i].saturating_sub(nudge(r, fl))) }; } }
                self.aimed = Some(tag("by tokens"));
                Some(gen::op(u, "remove_liquidity_by_tokens", json!({"pool_id":p,"amounts":am.iter().map(|x| x.to_string()).collect::<Vec<_>>(),"max_burn_shares":sh.to_string()}), 1))
            }
            5 => {
                let x = s.share(p, EX); if x == 0 { return None; }
                self.aimed = Some(tag("fee removal"));
                Some(gen::op(OWNER, "remove_exchange_fee_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":vec!["0"; n]}), 1))
            }
            _ => {
                if !w.ch.pending.is_empty() { return None; }
                let i = (j + 1 + r.us(n - 1)) % n;
                let want = if kind == PK::Simple { r.below128(3) } else { to_units(ps, j, nudge(r, fl)) };
                let want = ps.amounts[j].saturating_sub(want);
                // the input whose output comes closest
                let (mut lo, mut hi) = (1u128, ps.amounts[i].max(ps.amounts[j]).max(1).saturating_mul(1 + r.logu(1 << 40)).min(1 << 96));
                let out = |x: u128| -> Option<u128> { w.vr("get_return", json!({"pool_id":p,"token_in":ps.tokens[i],"amount_in":x.to_string(),"token_out":ps.tokens[j]})).ok().map(|v| num(&v)) };
                let mut k = 0;
                while k < 45 && lo < hi { k += 1; let m = lo + (hi - lo) / 2; match out(m) { Some(y) if y < want => lo = m + 1, _ => hi = m } }
                let x = match r.below(4) { 0 => lo.saturating_add(1 + r.below128(3)), 1 => lo.saturating_add(lo / 100), 2 => lo.saturating_sub(1 + r.below128(3)), _ => lo };
                if x == 0 { return None; }
                let _ = w.quiet(u, "storage_deposit", json!({}), NEAR / 10);
                w.quiet_fund(u, &ps.tokens[i], x);
                self.aimed = Some(tag("swap"));
                Some(gen::op(u, "swap", json!({"actions":[{"pool_id":p,"token_in":ps.tokens[i],"token_out":ps.tokens[j],"amount_in":x.to_string(),"min_amount_out":"0"}]}), 1))
            }
        }
    }
}
impl Monitor for M37 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        self.aimed = None;
        if w.ch.pending.is_empty() && r.p(6) { w.refresh_prices(); return None; }
        if r.p(6) && w.ch.pending.is_empty() {
            // put something back
            let e: Vec<usize> = (0..s.pools.len()).filter(|i| s.pools[*i].amounts.iter().any(|x| *x < 1 << 40)).collect();
            if !e.is_empty() { let p = *r.pick(&e) as u64; if s.pools[p as usize].kind != PK::Simple { let ts = s.pools[p as usize].tokens.clone(); let a: Vec<u128> = ts.iter().map(|t| w.unit(t) * (1 + r.logu(1000)) + r.below128(1000)).collect(); let _ = w.quiet(USERS[0], "storage_deposit", json!({}), NEAR / 10); for (t, x) in ts.iter().zip(&a) { w.quiet_fund(USERS[0], t, *x); } return Some(gen::op(USERS[0], "add_stable_liquidity", json!({"pool_id":p,"amounts":a.iter().map(|x| x.to_string()).collect::<Vec<_>>(),"min_shares":"0"}), NEAR / 100)); } }
        }
        if r.p(60) { self.aim(w, r, s) } else { None }
    }
    fn after(&mut self, _w: &mut World, st: &Step, env: &mut Env) -> Res {
        if st.ev.receiver != EX { return Ok(()); }
        let mut near = 99u64;
        for (p, q) in st.post.pools.iter().enumerate() {
            let res = if q.kind == PK::Simple { &q.amounts } else { &q.c };
            if q.supply > 0 { for (i, x) in res.iter().enumerate() { ensure!(*x > 0, "pool {} has {} shares outstanding but nothing of {}: {}", p, q.supply, q.tokens[i], fmt_ev(&st.ev)); } }
            let b = match st.pre.pools.get(p) { Some(b) => b, None => continue };
            if q.kind == PK::Simple || b.c == q.c { continue; }
            for (i, x) in q.c.iter().enumerate() {
                // converting by rate and back loses a unit of the token put in; nothing is taken out then
                let dust = if matches!(q.kind, PK::Rated | PK::Degen) { 64 } else { 0 };
                if *x + dust < b.c[i] {
                    let f = floor_of(q.kind);
                    ensure!(st.ev.ok.is_ok() && *x >= f, "pool {} ({:?}) is left with {} of {} (in its common precision), less than the minimum reserve {}: {}", p, q.kind, x, q.tokens[i], f, fmt_ev(&st.ev));
                    near = near.min(lg(*x - f));
                }
            }
        }
        let k = self.aimed.take();
        match k {
            Some((k, p)) => {
                env.rep.eval(&k, Some(hash64(format!("{} {} {} {}", k, st.ev.ok.is_ok(), near, lg(st.pre.pools[p].amounts.iter().copied().min().unwrap_or(0))).as_bytes())));
                env.rep.count(&format!("{} {}", k, if st.ev.ok.is_ok() { "done" } else { "refused" }));
                if near < 8 { env.rep.count("left within 100 steps of the floor"); }
                env.rep.sample(&format!("{} {}", k, st.ev.ok.is_ok()), || json!(fmt_ev(&st.ev)));
            }
            None => env.rep.eval("other call", None),
        }
        Ok(())
    }
}
fn c37(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 1 + r.us(2), stable: 1 + r.us(2), rated: r.p(60), degen: r.p(60), overprecise: r.p(10) };
    let mut w = gen::world(env.codes, &mut r, &sp);
    w.refresh_prices();
    let mix = Mix::only(&[(gen::M_SWAP, 10), (gen::M_INSTANT, 4), (gen::M_HOTZAP, 3), (gen::M_ADD, 8), (gen::M_REMOVE, 6), (gen::M_REMTOK, 8), (gen::M_TREASURY, 3), (gen::M_MFT, 2), (gen::M_SHADOW, 2), (gen::M_LIQ, 3), (gen::M_PRICE, 3), (gen::M_AMP, 1), (gen::M_VA, 2), (gen::M_DEPOSIT, 3)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 120, flags: F_POOLS | F_SHARES | F_DEP | F_SHADOW, mix, conc: 0 }, &mut M37 { aimed: None })
}
