//! C20 pausing, C21 freezing, C22 privileges, C23 token acceptance and cleanup, C27 amplification, C30 treasury, C31 pool registry.
use super::custody::args;
use super::xfer::{only, Payouts, BYTE};
use super::*;
use crate::chain::{Receipt, NEAR};
use crate::util::*;
use crate::vm::{Action, PRes};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C20", f: c20, rule: "one evaluation per receipt the exchange executes while paused: nothing it owes may change unless it is a settlement callback, a liquidation or an owner operation, and transfers in are refunded; non-trivial = the same receipt in a copy of the world that is not paused does change something, keyed by method and size", quick_secs: 16, min_evals: 3_000 },
        Check { id: "C21", f: c21, rule: "one evaluation per operation run in three copies of the world (never frozen, frozen, frozen and unfrozen): refused without effect if it involves the frozen token, otherwise identical; non-trivial = the operation has an effect when nothing is frozen, keyed by method, involvement, how and pool kinds", quick_secs: 18, min_evals: 1_500 },
        Check { id: "C22", f: c22, rule: "one evaluation per privileged call tried by one caller with one deposit, plus one per soup receipt that changed a privileged setting; non-trivial = the same call succeeds in a copy of the world for the caller it is meant for, keyed by method, caller and deposit", quick_secs: 16, min_evals: 5_000 },
        Check { id: "C23", f: c23, rule: "one evaluation per receipt: a new token entry or an accepted deposit needs whitelisting or the account's own registration, and unregistering calls may not make any balance disappear; non-trivial = an accepted or refused deposit, or an unregistration, keyed by method, outcome, whitelisting, registration and balances", quick_secs: 16, min_evals: 5_000 },
        Check { id: "C27", f: c27, rule: "one evaluation per reading of a pool's amplification against the ramp accepted last, and one per ramp or stop request against the rules; non-trivial = a reading inside a ramp or a request, keyed by kind, direction, position in the ramp and outcome", quick_secs: 16, min_evals: 5_000 },
        Check { id: "C30", f: c30, rule: "one evaluation per treasury operation or donation and per settlement of its payout: exact effect on protocol-owned balances, none on anybody else's; non-trivial = one that moved funds or was refused for exceeding them, keyed by method, outcome, pool kind and size", quick_secs: 16, min_evals: 3_000 },
        Check { id: "C31", f: c31, rule: "one evaluation per executed receipt (existing pools keep identity) and per pool creation attempt (validity, identifier, initial state, payment); non-trivial = a creation attempt, keyed by kind, what is wrong with it, caller, payment and outcome", quick_secs: 16, min_evals: 5_000 },
    ]
}
fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }
fn h(s: String) -> u64 { hash64(s.as_bytes()) }
fn call_of(rc: &Receipt) -> Option<(String, Value, u128)> { match rc.actions.first() { Some(Action::Call { method, args: a, deposit, .. }) => Some((method.clone(), args(&String::from_utf8_lossy(a)), *deposit)), _ => None } }
fn paused(s: &Snap) -> bool { s.meta["state"] == json!("Paused") }
/// receipts created by this step that carry value out of the exchange
fn outgoing(w: &World, st: &Step) -> Vec<String> {
    w.ch.pending.iter().filter(|r| st.ev.created.contains(&r.id)).flat_map(|r| r.actions.iter().filter_map(move |a| match a {
        Action::Transfer(d) if *d > 0 => Some(format!("{} NEAR to {}", d, r.receiver)),
        Action::Call { method, args, .. } if matches!(method.as_str(), "ft_transfer" | "ft_transfer_call" | "near_withdraw" | "mft_on_transfer" | "on_cast_shadow" | "on_remove_shadow") => Some(format!("{}.{} {}", r.receiver, method, String::from_utf8_lossy(args))),
        _ => None })).collect()
}

// ------------------------------------------------------------------ C20
const USER_METHODS: [&str; 30] = ["storage_deposit", "storage_withdraw", "storage_unregister", "register_tokens", "unregister_tokens", "withdraw", "claim_lostfound", "donation_share", "donation_token", "swap", "swap_by_output", "execute_actions", "execute_actions_in_va", "add_liquidity", "add_stable_liquidity", "remove_liquidity", "remove_liquidity_by_tokens", "mft_register", "mft_unregister", "mft_transfer", "mft_transfer_call", "mft_transfer_all_call", "shadow_action", "ft_on_transfer", "add_simple_pool", "get_pool", "update_token_rate", "update_degen_token_price", "batch_update_degen_token_price", "mft_transfer_call_with_msg"];
struct M20 { live: HashMap<usize, bool> }
impl Monitor for M20 {
    fn extra(&mut self, _w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        if paused(s) && !s.lost.is_empty() && r.permille(60) { // money in the lost-and-found, before and during a pause
            let c: Vec<(String, String)> = s.lost.iter().flat_map(|(a, m)| m.keys().map(move |t| (a.clone(), t.clone()))).filter(|x| x.0 != EX && _w.ch.accounts.contains_key(&x.0)).collect();
            if !c.is_empty() { let (a, t) = r.pick(&c).clone(); return Some(gen::op(&a, "claim_lostfound", json!({"token_id":t}), 1)); }
        }
        if r.permille(40) && !paused(s) { if let Some(o) = ghost_swap(_w, r, s) { return Some(o); } }
        if paused(s) { if r.permille(50) { return Some(gen::op(OWNER, "change_state", json!({"state":"Running"}), 1)); } if r.permille(20) { let u = *r.pick(&[GUARD, USERS[0], BOOST, EX]); return Some(gen::op(u, "change_state", json!({"state":"Running"}), 1)); } if r.permille(40) { return Some(gen::op(USERS[r.us(4)], "add_simple_pool", json!({"tokens":["ta.t","tb.t"],"fee":30}), NEAR)); } }
        else if r.permille(50) { return Some(gen::op(if r.p(60) { GUARD } else { OWNER }, "change_state", json!({"state":"Paused"}), 1)); }
        None
    }
    fn before(&mut self, w: &mut World, rc: &Receipt) {
        if rc.receiver != EX { return; }
        let s = w.snap();
        if !paused(&s) { return; }
        let mut f = w.clone(); f.ch.dt = 0;
        if f.quiet(OWNER, "change_state", json!({"state":"Running"}), 1).is_err() { return; }
        let pre = f.snap();
        if let Some(i) = f.pos(rc.id) { let st = f.exec(i); self.live.insert(rc.id, st.ev.ok.is_ok() && (only(&pre, &st.post, |_| ()).is_some() || pre.storage != st.post.storage)); }
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if ev.receiver != EX { return Ok(()); }
        if st.pre.meta["state"] != st.post.meta["state"] {
            let to = st.post.meta["state"].as_str().unwrap_or("");
            ensure!(ev.method == "change_state" && (ev.pred == OWNER || (ev.pred == GUARD && to == "Paused")), "state becomes {} by {}", to, fmt_ev(ev));
            ensure!(only(&st.pre, &st.post, |_| ()).is_none(), "changing the state changed balances: {}", fmt_ev(ev));
            env.rep.eval(&format!("state to {}", to), Some(h(ev.pred.clone())));
        }
        if !paused(&st.pre) { return Ok(()); }
        let owner_op = (ev.pred == OWNER || ev.pred == GUARD) && !USER_METHODS.contains(&ev.method.as_str());
        if ev.pred == EX || owner_op || (ev.pred == BURROW && ev.method == "on_burrow_liquidation") {
            env.rep.eval(if ev.pred == EX { "settlement while paused" } else { "owner operation while paused" }, None);
            return Ok(());
        }
        if let Some(d) = only(&st.pre, &st.post, |_| ()) { return Err(format!("paused, but {} changed {}", fmt_ev(ev), d)); }
        ensure!(st.pre.storage == st.post.storage, "paused, but {} changed storage balances {:?} -> {:?}", fmt_ev(ev), st.pre.storage, st.post.storage);
        let out = outgoing(w, st);
        ensure!(out.is_empty(), "paused, but {} sends {:?}", fmt_ev(ev), out);
        if ev.method == "ft_on_transfer" {
            let a = args(&ev.args);
            let back = match &ev.ok { Err(_) => num(&a["amount"]), Ok(v) => v.trim_matches('"').parse::<u128>().unwrap_or(0) };
            ensure!(back == num(&a["amount"]), "paused, but an incoming transfer of {} {} is kept (only {} returned)", num(&a["amount"]), ev.pred, back);
        }
        let live = self.live.remove(&ev.rid).unwrap_or(false);
        let a = args(&ev.args);
        let msg = a["msg"].as_str().map(|m| if m.contains("hot_zap") { "zap" } else if m.contains("actions") { "swap" } else { "plain" }).unwrap_or("");
        env.rep.eval(if live { "user call refused by pause" } else { "user call while paused" }, if live { Some(h(format!("{} {} {} {}", ev.method, msg, ev.pred, lg(a["amount"].as_str().and_then(|x| x.parse().ok()).unwrap_or(0))))) } else { None });
        if live { let m = ev.method.clone(); env.rep.count(&format!("refused {}{}", m, msg)); env.rep.sample(&format!("refused {}", m), || json!(fmt_ev(ev))); }
        Ok(())
    }
}
/// a swap paid out to somebody who cannot receive it and has no account here
fn ghost_swap(w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
    let ps: Vec<usize> = (0..s.pools.len()).filter(|p| s.pools[*p].kind == PK::Simple && s.pools[*p].supply > 0).collect();
    if ps.is_empty() { return None; }
    let (p, k) = (*r.pick(&ps), r.us(2));
    let (a, b) = (s.pools[p].tokens[k].clone(), s.pools[p].tokens[1 - k].clone());
    let u = *r.pick(&USERS);
    let x = w.ch.mock(&a).ft().get(u).min(s.pools[p].amounts[k] / 50);
    if x == 0 { return None; }
    w.ch.mock(&b).ft().bal.remove("ghost.near");
    Some(gen::op_at(u, &a, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":json!({"actions":[{"pool_id":p,"token_in":a,"token_out":b,"min_amount_out":"0"}],"swap_out_recipient":"ghost.near"}).to_string()}), 1))
}
fn c20(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = spec_any(&mut r);
    let mut w = gen::world(env.codes, &mut r, &sp);
    w.ch.add_user("ghost.near", 100 * NEAR); w.accts.push("ghost.near".into());
    let mut m = M20 { live: HashMap::new() };
    let mix = Mix::all().with(&[(gen::M_GUARD, 0), (gen::M_DEPOSIT, 10), (gen::M_CLAIM, 4), (gen::M_FAULT, 3), (gen::M_LIQ, 4)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 160, flags: F_MONEY, mix, conc: 0 }, &mut m)
}

// ------------------------------------------------------------------ C21
/// tokens an operation trades, pools, deposits or withdraws; None = the freeze does not speak about it
fn traded(w: &World, s: &Snap, o: &Op) -> Option<(BTreeSet<String>, &'static str)> {
    let acts = |v: &Value| -> BTreeSet<String> { v.as_array().map(|a| a.iter().flat_map(|x| vec![x["token_in"].as_str().unwrap_or("").to_string(), x["token_out"].as_str().unwrap_or("").to_string()]).collect()).unwrap_or_default() };
    let pool = |p: &Value| -> BTreeSet<String> { p.as_u64().and_then(|p| s.pools.get(p as usize)).map(|p| p.tokens.iter().cloned().collect()).unwrap_or_default() };
    let a = &o.a;
    if w.toks.contains_key(&o.recv) {
        if o.m != "ft_transfer_call" { return None; }
        let mut v: BTreeSet<String> = [o.recv.clone()].iter().cloned().collect();
        let msg = args(a["msg"].as_str().unwrap_or(""));
        if msg.get("hot_zap_actions").is_some() {
            v.extend(acts(&msg["hot_zap_actions"]));
            for i in msg["add_liquidity_infos"].as_array().cloned().unwrap_or_default() { v.extend(pool(&i["pool_id"])); }
            return Some((v, "zap"));
        }
        if msg.get("actions").is_some() { v.extend(acts(&msg["actions"])); return Some((v, "instant swap")); }
        return Some((v, "deposit"));
    }
    match o.m.as_str() {
        "swap" | "swap_by_output" | "execute_actions" | "execute_actions_in_va" => Some((acts(&a["actions"]), "swap")),
        "add_liquidity" | "add_stable_liquidity" | "remove_liquidity" | "remove_liquidity_by_tokens" => Some((pool(&a["pool_id"]), "liquidity")),
        "withdraw" => Some(([a["token_id"].as_str().unwrap_or("").to_string()].iter().cloned().collect(), "withdraw")),
        "claim_lostfound" => Some(([a["token_id"].as_str().unwrap_or("").to_string()].iter().cloned().collect(), "claim")),
        "on_burrow_liquidation" => { let p: u64 = a["shadow_id"].as_str().unwrap_or("").rsplit('-').next().unwrap_or("").parse().ok()?; Some((pool(&json!(p)), "liquidation")) }
        _ => None,
    }
}
/// every token the operation mentions in any way
fn mentions(o: &Op, t: &str) -> bool { o.recv == t || o.a.to_string().contains(t) }
fn ledgers(w: &World) -> BTreeMap<String, BTreeMap<String, u128>> { w.toks.keys().map(|t| (t.clone(), w.ch.mock_ref(t).ft_ref().bal.iter().filter(|x| *x.1 > 0).map(|(a, b)| (a.clone(), *b)).collect())).collect() }
/// run an operation with everything it causes
fn whole(w: &mut World, o: &Op) -> Option<(Arc<Snap>, Arc<Snap>, Result<Value, String>)> {
    let pre = w.snap();
    let id = send(w, o)?;
    w.drain();
    let res = w.ch.outcome(id);
    Some((pre, w.snap(), res))
}
fn c21(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = spec_any(&mut r);
    let mut w = gen::world(env.codes, &mut r, &sp);
    let mix = Mix::all().with(&[(gen::M_GUARD, 0), (gen::M_FAULT, 2), (gen::M_LIQ, 6), (gen::M_SHADOW, 8), (gen::M_CLAIM, 5), (gen::M_TIME, 1)]);
    w.flags = F_MONEY | F_META | F_STORAGE;
    w.cached = None;
    // lost-and-found entries to claim
    w.ch.add_user("ghost.near", 10 * NEAR); w.accts.push("ghost.near".into());
    if r.p(80) { let s = w.snap(); for _ in 0..3 {
        let live: Vec<&PoolS> = s.pools.iter().filter(|p| p.kind == PK::Simple && p.supply > 0 && p.amounts.iter().all(|x| *x > 1000)).collect();
        if live.is_empty() { break; }
        let p = *r.pick(&live); let k = r.us(2); let id = s.pools.iter().position(|x| x == p).unwrap();
        w.mint(&p.tokens[k], USERS[0], p.amounts[k]);
        let x = (p.amounts[k] / 50).max(1);
        let msg = json!({"actions":[{"pool_id":id,"token_in":p.tokens[k],"token_out":p.tokens[1 - k],"amount_in":x.to_string(),"min_amount_out":"0"}],"swap_out_recipient":"ghost.near","skip_unwrap_near":true});
        let _ = w.tx(USERS[0], &p.tokens[k], "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":msg.to_string()}), 1);
        if r.p(70) { w.ch.mock(&p.tokens[1 - k]).ft().bal.entry("ghost.near".into()).or_insert(0); }
    } }
    let mut done = 0;
    for k in 0..160 {
        let s = w.snap();
        let o = match gen::next_op(&mut w, &mut r, &s, &mix) { Some(o) => o, None => continue };
        if k < 40 && r.p(80) { if send(&mut w, &o).is_some() { w.drain(); } continue; }
        let tr = traded(&w, &s, &o);
        let all: Vec<String> = w.toks.keys().cloned().collect();
        let mut froz: Vec<String> = match &tr { Some((t, _)) if r.p(70) && !t.is_empty() => { let v: Vec<String> = t.iter().filter(|t| all.contains(t)).cloned().collect(); if v.is_empty() { continue; } vec![r.pick(&v).clone()] } _ => vec![r.pick(&all).clone()] };
        if r.p(20) { let t = r.pick(&all).clone(); if !froz.contains(&t) { froz.push(t); } }
        let hit = tr.as_ref().map(|(t, _)| froz.iter().any(|f| t.contains(f)));
        let touched = froz.iter().any(|f| mentions(&o, f) || o.a["pool_id"].as_u64().and_then(|p| s.pools.get(p as usize)).map_or(false, |p| p.tokens.contains(f)));
        let (mut f, mut u) = (w.clone(), w.clone());
        for x in [&mut f, &mut u].iter_mut() { x.ch.dt = 0; x.ok(if done % 2 == 0 { GUARD } else { OWNER }, EX, "extend_frozenlist_tokens", json!({"tokens":froz}), 1); }
        u.ok(OWNER, EX, "remove_frozenlist_tokens", json!({"tokens":froz}), 1);
        for x in [&mut f, &mut u].iter_mut() { x.ch.dt = w.ch.dt; x.ch.block = w.ch.block; }
        let (fl, sl, fn_) = (ledgers(&f), f.ch.bal(&o.signer), f.ch.total_near());
        let (rw, rf, ru) = match (whole(&mut w, &o), whole(&mut f, &o), whole(&mut u, &o)) { (Some(a), Some(b), Some(c)) => (a, b, c), _ => continue };
        let tell = |e: &mut Env, m: String| { *e.story = w.story(30); Err(format!("frozen {:?}, {}.{} {} by {}: {}", froz, o.recv, o.m, o.a, o.signer, m)) };
        let kinds = || -> String { tr.as_ref().map(|(t, _)| rw.0.pools.iter().filter(|p| p.tokens.iter().any(|x| t.contains(x))).map(|p| format!("{:?}", p.kind)).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(",")).unwrap_or_default() };
        let effect = only(&rw.0, &rw.1, |_| ()).is_some();
        let how = tr.as_ref().map(|x| x.1).unwrap_or("other");
        // unfreezing restores everything
        if let Some(d) = only(&rw.1, &ru.1, |_| ()) { return tell(env, format!("after unfreezing the outcome differs: {}", d)); }
        if rw.2.is_ok() != ru.2.is_ok() { return tell(env, format!("after unfreezing: {:?} instead of {:?}", ru.2, rw.2)); }
        if hit == Some(true) {
            if let Some(d) = only(&rf.0, &rf.1, |_| ()) { return tell(env, format!("took effect: {}", d)); }
            if rf.0.storage != rf.1.storage { return tell(env, "changed storage balances".into()); }
            let l2 = ledgers(&f);
            if l2 != fl { let d: Vec<&String> = fl.keys().filter(|k| fl.get(*k) != l2.get(*k)).collect(); return tell(env, format!("moved tokens {:?}", d)); }
            let spent = sl.saturating_sub(f.ch.bal(&o.signer));
            if o.signer != EX && spent != 0 && !(o.recv != EX && spent == o.dep) { return tell(env, format!("cost the signer NEAR: {} -> {}", sl, f.ch.bal(&o.signer))); }
            if f.ch.total_near() != fn_ { return tell(env, "NEAR not conserved".into()); }
            env.rep.eval("refused: involves a frozen token", if effect { Some(h(format!("{} {} {} {}", how, o.m, kinds(), froz.len()))) } else { None });
            if effect { env.rep.count(&format!("refused {}", how)); env.rep.sample(&format!("refused {}", how), || json!({"frozen": froz, "op": format!("{}.{} {}", o.recv, o.m, o.a)})); }
        } else if !touched {
            if let Some(d) = only(&rw.1, &rf.1, |_| ()) { return tell(env, format!("does not involve a frozen token but goes differently: {}", d)); }
            if rw.2.is_ok() != rf.2.is_ok() { return tell(env, format!("does not involve a frozen token: {:?} instead of {:?}", rf.2, rw.2)); }
            env.rep.eval("unaffected: no frozen token involved", if effect { Some(h(format!("{} {} {}", how, o.m, kinds()))) } else { None });
        }
        done += 1;
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
#[derive(Clone, Copy, PartialEq, Debug)]
enum Lvl { Owner, Guard, Own, User }
/// (method, arguments, who may, deposit it needs)
fn privileged(w: &World, r: &mut Rng, s: &Snap) -> Vec<(&'static str, Value, Lvl, u128)> {
    let t = w.toks.keys().nth(r.us(w.toks.len())).unwrap().clone();
    let wl = s.white.iter().next().cloned().unwrap_or(t.clone());
    let p = r.us(s.pools.len()) as u64;
    let st: Vec<u64> = s.pools.iter().enumerate().filter(|(_, p)| p.kind != PK::Simple).map(|x| x.0 as u64).collect();
    let dg: Vec<u64> = s.pools.iter().enumerate().filter(|(_, p)| p.kind == PK::Degen).map(|x| x.0 as u64).collect();
    let u = USERS[r.us(4)];
    let cfg = |o: &str, ts: u64| json!({"PriceOracle":{"oracle_id":o,"expire_ts":ts.to_string(),"maximum_recency_duration_sec":90,"maximum_staleness_duration_sec":90}});
    let mut v = vec![
        ("set_owner", json!({"owner_id":u}), Lvl::Owner, 1),
        ("extend_guardians", json!({"guardians":[u]}), Lvl::Owner, 1),
        ("remove_guardians", json!({"guardians":[GUARD]}), Lvl::Owner, 1),
        ("modify_wnear_id", json!({"wnear_id":u}), Lvl::Owner, 1),
        ("modify_admin_fee", json!({"admin_fee_bps":r.below(8001)}), Lvl::Owner, 1),
        ("retrieve_unmanaged_token", json!({"token_id":t,"amount":"1"}), Lvl::Owner, 1),
        ("upgrade", json!({}), Lvl::Owner, 0),
        ("unregister_rated_token", json!({"token_id":"rs.t"}), Lvl::Owner, 1),
        ("unregister_degen_token", json!({"token_id":"dg1.t"}), Lvl::Owner, 1),
        ("change_state", json!({"state":if paused(s) { "Running" } else { "Paused" }}), if paused(s) { Lvl::Owner } else { Lvl::Guard }, 1),
        ("extend_auto_whitelisted_postfix", json!({"postfixes":[".zz"]}), Lvl::Guard, 1),
        ("modify_boost_farm_id", json!({"boost_farm_id":u}), Lvl::Guard, 1),
        ("modify_burrowland_id", json!({"burrowland_id":u}), Lvl::Guard, 1),
        ("extend_whitelisted_tokens", json!({"tokens":[format!("n{}.t", r.us(99))]}), Lvl::Guard, 1),
        ("remove_whitelisted_tokens", json!({"tokens":[wl]}), Lvl::Guard, 1),
        ("extend_frozenlist_tokens", json!({"tokens":[t]}), Lvl::Guard, 1),
        ("insert_referral", json!({"referral_id":USERS[3],"fee_bps":1 + r.below(9998)}), Lvl::Guard, 1),
        ("modify_total_fee", json!({"pool_id":p,"total_fee":r.below(9999)}), Lvl::Guard, 1),
        ("register_rated_token", json!({"rate_type":"STNEAR","token_id":"zz.t"}), Lvl::Guard, 1),
        ("register_pool_twap_record", json!({"pool_id":p}), Lvl::Guard, 1),
        ("modify_cumulative_info_record_interval_sec", json!({"record_interval_sec":r.below(900)}), Lvl::Guard, 1),
        ("extend_client_echo_token_id_whitelist", json!({"token_ids":["q.t"]}), Lvl::Guard, 1),
        ("extend_client_echo_sender_id_whitelist", json!({"sender_ids":["q.t"]}), Lvl::Guard, 1),
        ("add_stable_swap_pool", json!({"tokens":["ta.t","tb.t"],"decimals":[18,6],"fee":30,"amp_factor":100}), Lvl::Guard, NEAR),
        ("add_rated_swap_pool", json!({"tokens":["ta.t","tc.t"],"decimals":[18,24],"fee":30,"amp_factor":100}), Lvl::Guard, NEAR),
        ("add_degen_swap_pool", json!({"tokens":["ta.t","tc.t"],"decimals":[18,24],"fee":30,"amp_factor":100}), Lvl::Guard, NEAR),
        ("register_degen_oracle_config", json!({"degen_oracle_config":cfg("new.oracle", 5)}), Lvl::Guard, 1),
        ("extend_secure_sender_whitelist", json!({"sender_ids":["q.t"]}), Lvl::Guard, 1),
        ("migrate", json!({}), Lvl::Own, 0),
        ("storage_deposit", json!({"account_id":"zzz.near"}), Lvl::User, NEAR),
        ("mft_unregister", json!({"token_id":format!(":{}", p)}), Lvl::User, 1),
        ("storage_withdraw", json!({"amount":"1"}), Lvl::User, 1),
        ("register_tokens", json!({"token_ids":["odd.t"]}), Lvl::User, 1),
        ("unregister_tokens", json!({"token_ids":["odd.t"]}), Lvl::User, 1),
        ("sync_pool_twap_record", json!({"pool_id":p}), Lvl::User, 0),
    ];
    if let Some(g) = s.frozen.iter().next() { v.push(("remove_frozenlist_tokens", json!({"tokens":[g]}), Lvl::Guard, 1)); }
    if let Some(g) = s.refs.keys().next() { v.push(("update_referral", json!({"referral_id":g,"fee_bps":1 + r.below(9998)}), Lvl::Guard, 1)); v.push(("remove_referral", json!({"referral_id":g}), Lvl::Guard, 1)); }
    for x in strs(&s.meta["auto_whitelisted_postfix"]).into_iter().take(1) { v.push(("remove_auto_whitelisted_postfix", json!({"postfixes":[x]}), Lvl::Guard, 1)); }
    for x in strs(&w.v("get_secure_sender_whitelist", json!({}))).into_iter().take(1) { v.push(("remove_secure_sender_whitelist", json!({"sender_ids":[x]}), Lvl::Owner, 1)); }
    if let Some((p, x)) = s.shares.iter().enumerate().filter_map(|(i, m)| m.get(EX).map(|x| (i, *x))).next() { v.push(("remove_exchange_fee_liquidity", json!({"pool_id":p,"shares":(x / 2).to_string(),"min_amounts":js(&vec![0; s.pools[p].tokens.len()])}), Lvl::Guard, 1)); }
    if let Some((t, x)) = s.dep.get(s.meta["owner"].as_str().unwrap_or("")).and_then(|m| m.iter().find(|x| *x.1 > 0)) { v.push(("withdraw_owner_token", json!({"token_id":t,"amount":x.to_string(),"skip_unwrap_near":true}), Lvl::Guard, 1)); }
    if let Some(p) = (0..s.pools.len()).find(|p| w.vr("get_pool_twap_info_view", json!({"pool_id":p})).map_or(false, |v| !v.is_null())) { v.push(("unregister_pool_twap_record", json!({"pool_id":p}), Lvl::Guard, 1)); }
    v.push(("remove_client_echo_token_id_whitelist", json!({"token_ids":["*.t"]}), Lvl::Owner, 1));
    v.push(("remove_client_echo_sender_id_whitelist", json!({"sender_ids":[USERS[0]]}), Lvl::Owner, 1));
    if let Some(x) = st.get(0) { let p = st[r.us(st.len())]; let _ = x; let a = s.pools[p as usize].amp; v.push(("stable_swap_ramp_amp", json!({"pool_id":p,"future_amp_factor":(a / 2).max(1),"future_amp_time":(w.ch.ts + 3 * DAY).to_string()}), Lvl::Guard, 1)); v.push(("stable_swap_stop_ramp_amp", json!({"pool_id":p}), Lvl::Guard, 1)); }
    if s.rated.as_object().map_or(false, |m| m.contains_key("rf.t")) { v.push(("update_rated_token_extra_info", json!({"token_id":"rf.t","extra_info":json!({"PriceOracle":{"oracle_id":ORACLE,"base_contract_id":"frax.t","maximum_recency_duration_sec":90,"maximum_staleness_duration_sec":90}}).to_string()}), Lvl::Guard, 1)); }
    if let Some(p) = dg.get(0) {
        let lim = json!({"tvl_limit":"1000000"});
        v.push(("add_degen_pool_limit", json!({"pool_id":p,"degen_pool_limit_info":lim}), Lvl::Guard, 1));
        v.push(("update_degen_pool_limit", json!({"pool_id":p,"degen_pool_limit_info":lim}), Lvl::Owner, 1));
        v.push(("remove_pool_limit", json!({"pool_id":p}), Lvl::Owner, 1));
        v.push(("update_degen_oracle_config", json!({"degen_oracle_config":cfg(ORACLE, 77)}), Lvl::Owner, 1));
        v.push(("unregister_degen_oracle_config", json!({"degen_oracle_config_key":w.v("list_degen_oracle_configs", json!({})).as_object().and_then(|m| m.keys().next().cloned()).unwrap_or_else(|| format!("PriceOracle-{}", ORACLE))}), Lvl::Owner, 1));
        v.push(("update_degen_token", json!({"token_id":"dg1.t","degen_type":{"PriceOracle":{"decimals":17}}}), Lvl::Owner, 1));
        v.push(("register_degen_token", json!({"token_id":"dgz.t","degen_type":{"PriceOracle":{"decimals":17}}}), Lvl::Guard, 1));
    }
    v
}
/// settlement callbacks with the results of the step they settle
fn callbacks(w: &World, r: &mut Rng, s: &Snap) -> Vec<(&'static str, Value, Vec<PRes>)> {
    let u = USERS[r.us(4)];
    let t = w.toks.keys().nth(r.us(w.toks.len())).unwrap().clone();
    let okv = |v: Value| PRes::Ok(v.to_string().into_bytes());
    let p = (0..s.pools.len()).max_by_key(|p| s.pools[*p].supply).unwrap();
    let holder = s.shares[p].iter().filter(|x| x.0 != EX).max_by_key(|x| *x.1).map(|x| x.0.clone()).unwrap_or(u.into());
    let sh = s.share(p, &holder);
    let mut v = vec![
        ("exchange_callback_post_withdraw", json!({"token_id":t,"sender_id":u,"amount":"1000000"}), vec![PRes::Failed]),
        ("exchange_callback_post_withdraw", json!({"token_id":t,"sender_id":u,"amount":"1000000"}), vec![PRes::Ok(vec![])]),
        ("exchange_callback_post_withdraw_near", json!({"sender_id":u,"amount":"1000000"}), vec![PRes::Failed]),
        ("exchange_callback_post_withdraw_near", json!({"sender_id":u,"amount":"1000000"}), vec![PRes::Ok(vec![])]),
        ("mft_resolve_transfer", json!({"token_id":format!(":{}", p),"sender_id":u,"receiver_id":holder,"amount":(sh / 2).to_string()}), vec![PRes::Failed]),
        ("mft_resolve_transfer", json!({"token_id":format!(":{}", p),"sender_id":u,"receiver_id":holder,"amount":(sh / 2).to_string()}), vec![okv(json!((sh / 3).to_string()))]),
        ("mft_resolve_transfer", json!({"token_id":t,"sender_id":u,"receiver_id":OWNER,"amount":"5"}), vec![okv(json!("5"))]),
        ("callback_on_shadow", json!({"action":"ToFarming","sender_id":holder,"pool_id":p,"amount":"1","storage_fee":"0"}), vec![PRes::Failed]),
        ("callback_on_shadow", json!({"action":"FromFarming","sender_id":holder,"pool_id":p,"amount":"1","storage_fee":"0"}), vec![PRes::Ok(vec![])]),
        ("callback_on_shadow", json!({"action":"ToBurrowland","sender_id":holder,"pool_id":p,"amount":"1","storage_fee":"0"}), vec![PRes::Failed]),
        ("callback_on_burrow_liquidation", json!({"sender_id":holder,"pool_id":p,"amount":"1"}), vec![PRes::Failed]),
        ("callback_on_burrow_liquidation", json!({"sender_id":holder,"pool_id":p,"amount":"1"}), vec![PRes::Ok(vec![])]),
        ("migrate", json!({}), vec![]),
    ];
    if s.rated.get("rs.t").is_some() { v.push(("update_token_rate_callback", json!({"token_id":"rs.t"}), vec![okv(json!("1234567890123456789012345"))])); }
    if s.degen.get("dg1.t").is_some() {
        let ts = w.ch.ts.to_string();
        let data = json!({"timestamp":ts,"recency_duration_sec":60,"prices":[{"asset_id":"dg1.t","price":{"multiplier":"77777","decimals":22}}]});
        v.push(("update_degen_token_price_callback", json!({"token_id":"dg1.t"}), vec![okv(data.clone())]));
        v.push(("batch_update_degen_token_by_price_oracle_callback", json!({"token_id_decimals_map":{"dg1.t":18}}), vec![okv(data)]));
        v.push(("batch_update_degen_token_by_pyth_oracle_callback", json!({"price_id_token_id_map":{PYTH_A:["dg2.t"]}}), vec![okv(json!({PYTH_A:{"price":"123456","conf":"1","expo":-5,"publish_time":w.ch.ts / SEC}}))]));
    }
    v
}
/// a receipt of `pred` that arrives with the given results, as a contract's own promise chain would produce it
fn forged(w: &mut World, pred: &str, m: &str, a: &Value, res: &[PRes]) -> Result<String, String> {
    let mut deps = vec![];
    for x in res { let id = w.ch.next_id; w.ch.next_id += 1; w.ch.results.insert(id, x.clone()); deps.push(id); }
    let id = w.ch.next_id; w.ch.next_id += 1;
    w.ch.pending.push_back(Receipt { id, parent: None, pred: pred.into(), signer: pred.into(), receiver: EX.into(), actions: vec![Action::Call { method: m.into(), args: a.to_string().into_bytes(), deposit: 0, gas: 300_000_000_000_000 }], deps });
    let i = w.pos(id).unwrap();
    let k = w.exec_fast(i);
    w.ch.log[k].ok.clone()
}
/// settings only the owner (true) or owner and guardians (false) may change
fn settings(w: &World, s: &Snap) -> Vec<(&'static str, String, bool)> {
    let m = &s.meta;
    let v = |x: &str| w.vr(x, json!({})).map(|v| v.to_string()).unwrap_or_default();
    vec![("owner", m["owner"].to_string(), true), ("guardians", m["guardians"].to_string(), true), ("wnear", m["wnear_id"].to_string(), true), ("admin fee", m["admin_fee_bps"].to_string(), true),
        ("boost farm", m["boost_farm_id"].to_string(), false), ("burrowland", m["burrowland_id"].to_string(), false), ("postfixes", m["auto_whitelisted_postfix"].to_string(), false), ("state", m["state"].to_string(), false),
        ("frozen", format!("{:?}", s.frozen), false), ("whitelist", format!("{:?}", s.white), false), ("referrals", format!("{:?}", s.refs), false), ("limits", s.limits.to_string(), false),
        ("fees", format!("{:?}", s.pools.iter().map(|p| p.fee).collect::<Vec<_>>()), false), ("rated", { let mut x = s.rated.clone(); if let Some(o) = x.as_object_mut() { for (_, y) in o.iter_mut() { y.as_object_mut().map(|y| { y.remove("rate_price"); y.remove("last_update_ts"); y.remove("is_valid"); }); } } x.as_object().map(|o| o.keys().cloned().collect::<Vec<_>>().join(",")).unwrap_or_default() }, false),
        ("echo tokens", v("get_client_echo_token_id_whitelist"), false), ("echo senders", v("get_client_echo_sender_id_whitelist"), false), ("secure senders", v("get_secure_sender_whitelist"), false)]
}
fn c22(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 2, stable: 1, rated: r.p(70), degen: r.p(70), overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    w.flags = F_MONEY | F_META | F_STORAGE | F_PRICES;
    w.cached = None;
    if r.p(50) { w.ok(OWNER, EX, "extend_guardians", json!({"guardians":[USERS[3]]}), 1); }
    // something for every removing or updating method to work on
    for p in 0..w.pool_count() {
        if r.p(60) { let _ = w.ex(GUARD, "register_pool_twap_record", json!({"pool_id":p}), 1); }
        if r.p(50) { let _ = w.ex(GUARD, "add_degen_pool_limit", json!({"pool_id":p,"degen_pool_limit_info":{"tvl_limit":"99999999999999"}}), 1); }
        for u in USERS.iter().take(2) { let x = w.share_of(p, u); if x > 10 { for a in ["ToFarming", "ToBurrowland"].iter() { let _ = w.ex(u, "shadow_action", json!({"action":a,"pool_id":p,"amount":(x / 3).to_string(),"msg":""}), NEAR / 10); } if r.p(50) { let _ = w.ex(u, "donation_share", json!({"pool_id":p,"amount":(x / 100).max(1).to_string()}), 1); } } }
    }
    if r.p(50) { let _ = w.ex(OWNER, "extend_auto_whitelisted_postfix", json!({"postfixes":[".old"]}), 1); let _ = w.ex(OWNER, "extend_secure_sender_whitelist", json!({"sender_ids":["*.old"]}), 1); }
    if r.p(50) { let _ = w.ex(OWNER, "unregister_degen_oracle_config", json!({"degen_oracle_config_key":"PriceOracleConfig"}), 1); }
    let mut owner = OWNER.to_string();
    if r.p(25) { // ownership moves; the old owner keeps nothing
        let n = *r.pick(&[USERS[1], GUARD, LIQ]);
        w.ok(OWNER, EX, "set_owner", json!({"owner_id":n}), 1);
        owner = n.to_string();
    }
    if r.p(30) { w.ok(&owner, EX, "remove_guardians", json!({"guardians":[GUARD]}), 1); }
    if r.p(30) { w.ok(&owner, EX, "change_state", json!({"state":"Paused"}), 1); }
    if r.p(60) { w.ok(&owner, EX, "extend_frozenlist_tokens", json!({"tokens":["te.t"]}), 1); }
    let s = w.snap();
    let guards: Vec<String> = strs(&s.meta["guardians"]);
    if r.p(20) {
        // a contract on which nothing has been configured yet is no less guarded
        let mut f = w.clone();
        f.ch.add_wasm("fresh.near", env.codes.ex.clone(), 1000 * crate::chain::NEAR);
        f.ok(OWNER, "fresh.near", "new", json!({"owner_id":OWNER,"boost_farm_id":BOOST,"burrowland_id":BURROW,"exchange_fee":2000,"referral_fee":500}), 0);
        f.ok(OWNER, "fresh.near", "extend_guardians", json!({"guardians":[GUARD]}), 1);
        for (m, a, lvl, dep) in privileged(&w, &mut r, &s) {
            if m == "change_state" { continue; }
            for c in [GUARD, USERS[0], BOOST, BURROW].iter() {
                if lvl == Lvl::User || lvl == Lvl::Guard && *c == GUARD { continue; }
                let x = f.tx(c, "fresh.near", m, a.clone(), dep);
                ensure!(x.is_err(), "on a contract that is not configured yet {} can call {} {}", c, m, a);
                env.rep.eval("unconfigured contract", Some(hash64(format!("fresh {} {}", m, c).as_bytes())));
            }
        }
    }
    for _ in 0..3 {
        let rows = privileged(&w, &mut r, &s);
        for (m, a, lvl, dep) in rows {
            // does it work for whom it is meant?
            let lead: &str = match lvl { Lvl::Own => EX, Lvl::User => USERS[0], _ => &owner };
            let mut g = w.clone();
            let probe = g.quiet(lead, m, a.clone(), dep);
            if std::env::var("REFMON_DEBUG").is_ok() { if let Err(e) = &probe { eprintln!("never: {} {} {}", m, a, e); } }
            let works = match probe { Ok(_) => true, Err(e) => !e.contains("MethodNotFound") && lvl == Lvl::Own };
            let mut cs: Vec<&str> = vec![OWNER, GUARD, USERS[0], USERS[3], BOOST, BURROW, EX, LIQ];
            if r.p(50) { cs = vec![cs[r.us(8)], cs[r.us(8)], cs[r.us(8)]]; }
            for c in cs {
                let may = match lvl { Lvl::Owner => c == owner, Lvl::Guard => c == owner || guards.iter().any(|g| g == c), Lvl::Own => c == EX, Lvl::User => true };
                for d in [0u128, 1, 2, dep].iter().take(if dep > 1 { 4 } else { 3 }) {
                    let deposit_ok = if dep == 1 { *d == 1 } else { true };
                    if may && deposit_ok { if d == &dep && works && lvl != Lvl::User { let mut f = w.clone(); let ok = f.quiet(c, m, a.clone(), *d).is_ok(); if lvl != Lvl::Own { ensure!(ok || c == lead || !works, "{} {} works for {} but not for {}, who may call it too", m, a, lead, c); } env.rep.eval("allowed", Some(h(format!("{} {}", m, c)))); } continue; }
                    if w.ch.bal(c) < *d { continue; }
                    let mut f = w.clone();
                    let e = f.quiet(c, m, a.clone(), *d);
                    if e.is_ok() { *env.story = f.story(20); return Err(format!("{} {} by {} (owner {}, guardians {:?}) with {} yoctoNEAR succeeds; it is for {:?} with deposit {}", m, a, c, owner, guards, d, lvl, dep)); }
                    env.rep.eval("refused", if works { Some(h(format!("{} {} {}", m, c, d))) } else { None });
                    if works { env.rep.count(&format!("refused {:?}", lvl)); env.rep.sample(&format!("{:?}", lvl), || json!(format!("{} by {} with {}", m, c, d))); } else { env.rep.count(&format!("never accepted {}", m)); }
                }
            }
        }
        // a liquidation is the lending contract's alone, whoever the call names as the one to be paid
        let bl = s.meta["burrowland_id"].as_str().unwrap_or(BURROW).to_string();
        let _ = w.ex(BURROW, "storage_deposit", json!({}), NEAR / 5);
        for (v, ps) in s.shadow.iter() { for (p, x) in ps.iter().filter(|x| (x.1).1 > 0) {
            let call = |l: &str| json!({"liquidator_account_id":l,"liquidation_account_id":v,"shadow_id":format!("shadow_ref_v1-{}", p),"liquidate_share_amount":((x.1 / 2).max(1)).to_string(),"min_token_amounts":js(&vec![0; s.pools[*p as usize].tokens.len()])});
            for l in [LIQ, BURROW, v].iter() {
                let works = w.clone().quiet(&bl, "on_burrow_liquidation", call(l), 0).is_ok();
                for c in [&owner[..], GUARD, v, LIQ, BOOST, USERS[3]].iter().filter(|c| **c != bl) {
                    let mut f = w.clone();
                    if f.quiet(c, "on_burrow_liquidation", call(l), 0).is_ok() { *env.story = f.story(20); return Err(format!("{} liquidates the shares of {} in favour of {}; only {} may", c, v, l, bl)); }
                    env.rep.eval("liquidation refused", if works { Some(h(format!("liq {} {} {}", c, l, *l == v))) } else { None });
                }
            }
        } }
        for (m, a, res) in callbacks(&w, &mut r, &s) {
            let works = forged(&mut w.clone(), EX, m, &a, &res).is_ok();
            for c in [&owner[..], GUARD, USERS[0], USERS[3], BOOST, BURROW, ORACLE, "ta.t"].iter() {
                let mut f = w.clone();
                if forged(&mut f, c, m, &a, &res).is_ok() { *env.story = f.story(20); return Err(format!("callback {} {} with results {:?} accepted from {}", m, a, res, c)); }
                env.rep.eval("forged callback refused", if works { Some(h(format!("{} {} {:?}", m, c, res.iter().map(|x| matches!(x, PRes::Failed)).collect::<Vec<_>>()))) } else { None });
                env.rep.count(&format!("{} {}", if works { "forged" } else { "forged, never accepted" }, m));
            }
        }
        if r.p(50) { w.ch.ts += DAY; }
    }
    if owner != OWNER { return Ok(()); }
    // ordinary traffic never changes settings except through their guardians
    let mut last = settings(&w, &s);
    let mix = Mix::all().with(&[(gen::M_GUARD, 4), (gen::M_FEES, 4)]);
    let mut sub = r.clone();
    soup(env, &mut w, &mut sub, &SoupCfg { n: 40, flags: F_MONEY | F_PRICES, mix, conc: 0 }, &mut |w, st, env| {
        if st.ev.receiver != EX { return Ok(()); }
        let now = settings(w, &st.post);
        for (a, b) in last.iter().zip(now.iter()) {
            if a.1 == b.1 { continue; }
            let c = &st.ev.pred;
            if b.0 == "fees" && now.len() == last.len() && st.post.pools.len() > st.pre.pools.len() { continue; }
            ensure!(c == OWNER || (!b.2 && guards.iter().any(|g| g == c)), "{} changed from {} to {} by {}", b.0, a.1, b.1, fmt_ev(&st.ev));
            env.rep.eval("setting changed", Some(h(format!("{} {}", b.0, c))));
        }
        last = now;
        Ok(())
    })
}

// ------------------------------------------------------------------ C23
struct M23 { post: BTreeSet<String> }
impl Monitor for M23 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        let toks: Vec<String> = w.toks.keys().cloned().collect();
        let t = r.pick(&toks).clone();
        let u = USERS[r.us(4)];
        match r.below(100) {
            0..=3 => Some(gen::op(GUARD, if s.white.contains(&t) { "remove_whitelisted_tokens" } else { "extend_whitelisted_tokens" }, json!({"tokens":[t]}), 1)),
            4 => { let p = r.pick(&[".t", "a.t", "1.t"]).to_string(); Some(gen::op(GUARD, if self.post.contains(&p) { "remove_auto_whitelisted_postfix" } else { "extend_auto_whitelisted_postfix" }, json!({"postfixes":[p]}), 1)) }
            5..=12 => { let mut ts = vec![t]; if r.p(40) { ts.push(r.pick(&toks).clone()); } Some(gen::op(u, "unregister_tokens", json!({"token_ids":ts}), 1)) }
            13..=18 => { let x = r.amount(w.ledger(&t, u).max(1)); Some(gen::op_at(u, &t, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":""}), 1)) }
            19..=23 => { let b = s.deposit(u, &t); if b == 0 { return None; } let x = if r.p(50) { b } else { r.amount(b).min(b) }; Some(gen::op(u, if r.p(50) { "withdraw" } else { "donation_token" }, json!({"token_id":t,"amount":x.to_string(),"unregister":true}), 1)) }
            24..=27 => { let p = r.us(s.pools.len()); Some(gen::op(u, "mft_unregister", json!({"token_id":format!(":{}", p)}), 1)) }
            28..=31 => { let p = r.us(s.pools.len()); let b = s.share(p, u); let x = if r.p(50) { b } else { r.amount(b.max(1)) }; Some(gen::op(u, "donation_share", json!({"pool_id":p,"amount":x.to_string(),"unregister":true}), 1)) }
            32..=34 => Some(gen::op(u, "storage_unregister", json!({"force":r.p(60)}), 1)),
            // empty an account, step by step
            35..=40 => { let m: Vec<(String, u128)> = s.dep.get(u).map(|m| m.iter().map(|(a, b)| (a.clone(), *b)).collect()).unwrap_or_default(); if m.is_empty() { return None; } let z: Vec<String> = m.iter().filter(|x| x.1 == 0).map(|x| x.0.clone()).collect(); if !z.is_empty() && r.p(60) { return Some(gen::op(u, "unregister_tokens", json!({"token_ids":z}), 1)); } let (t, b) = r.pick(&m).clone(); Some(gen::op(u, "withdraw", json!({"token_id":t,"amount":b.to_string(),"skip_unwrap_near":true}), 1)) }
            41..=43 => Some(gen::op(u, "register_tokens", json!({"token_ids":[t]}), 1)),
            44 => Some(gen::op(u, "storage_deposit", json!({}), NEAR / 10)),
            // hot-zaps bringing in, leading through or ending in any token, by anyone
            45..=50 => {
                let ps: Vec<usize> = (0..s.pools.len()).filter(|i| s.pools[*i].supply > 0).collect();
                if ps.len() < 2 { return None; }
                let p = *r.pick(&ps); let pl = &s.pools[p];
                let i = r.us(pl.tokens.len()); let o = (i + 1 + r.us(pl.tokens.len() - 1)) % pl.tokens.len();
                let qs: Vec<usize> = ps.iter().cloned().filter(|q| s.pools[*q].tokens.contains(&pl.tokens[o])).collect();
                let q = *r.pick(&qs); let ql = &s.pools[q];
                let (tin, out) = (pl.tokens[i].clone(), pl.tokens[o].clone());
                let x = r.amount((pl.amounts[i] / 5).max(2)).max(2);
                w.mint(&tin, u, x);
                let y = w.vr("get_return", json!({"pool_id":p,"token_in":tin,"amount_in":(x / 2).to_string(),"token_out":out})).map(|v| num(&v)).unwrap_or(0);
                // a simple pool needs all its tokens: offer the rest of the input as the other one where it fits
                let am: Vec<u128> = ql.tokens.iter().map(|k| if *k == out { y } else if *k == tin { x - x / 2 } else { 0 }).collect();
                let mut o = json!({"pool_id":q,"amounts":js(&am)});
                if ql.kind == PK::Simple { o["min_amounts"] = js(&vec![0; am.len()]); } else { o["min_shares"] = json!("0"); }
                let msg = json!({"hot_zap_actions":[{"pool_id":p,"token_in":tin,"amount_in":(x / 2).to_string(),"token_out":out,"min_amount_out":"0"}],"add_liquidity_infos":[o],"skip_degen_price_sync":true});
                Some(gen::op_at(u, &tin, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":msg.to_string()}), 1))
            }
            _ => None,
        }
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if ev.receiver != EX { return Ok(()); }
        self.post = strs(&st.post.meta["auto_whitelisted_postfix"]).into_iter().collect();
        let white = |t: &str| st.pre.white.contains(t) || strs(&st.pre.meta["auto_whitelisted_postfix"]).iter().any(|p| t.ends_with(p.as_str()));
        let a = args(&ev.args);
        // an incoming plain deposit
        if ev.method == "ft_on_transfer" && a["msg"] == json!("") {
            let (u, x, t) = (a["sender_id"].as_str().unwrap_or("").to_string(), num(&a["amount"]), ev.pred.clone());
            let reg = st.pre.dep.get(&u).map_or(false, |m| m.contains_key(&t));
            let kept = match &ev.ok { Err(_) => 0, Ok(v) => x - v.trim_matches('"').parse::<u128>().unwrap_or(x).min(x) };
            if kept > 0 { ensure!(st.pre.registered(&u) && (white(&t) || reg), "{} of {} kept for {} (account known: {}, whitelisted: {}, registered: {})", x, t, u, st.pre.registered(&u), white(&t), reg); }
            if let Some(d) = only(&st.pre, &st.post, |e| if kept > 0 { *e.dep.entry(u.clone()).or_default().entry(t.clone()).or_insert(0) += kept }) { return Err(format!("{} keeps {} but changes {}", fmt_ev(ev), kept, d)); }
            env.rep.eval(if kept > 0 { "deposit accepted" } else { "deposit refused" }, Some(h(format!("{} {} {} {} {}", kept > 0, st.pre.registered(&u), white(&t), reg, t))));
            env.rep.sample(&format!("deposit kept={} white={} reg={}", kept > 0, white(&t), reg), || json!(fmt_ev(ev)));
            return Ok(());
        }
        // tokens brought in by a hot-zap stay with the exchange
        if ev.method == "ft_on_transfer" {
            let msg: Value = serde_json::from_str(a["msg"].as_str().unwrap_or("")).unwrap_or(Value::Null);
            if msg.get("hot_zap_actions").is_some() {
                let (u, t) = (a["sender_id"].as_str().unwrap_or("").to_string(), ev.pred.clone());
                let has = |t: &str| st.pre.dep.get(&u).map_or(false, |m| m.contains_key(t));
                let took = ev.ok.as_ref().map_or(false, |v| v.trim_matches('"') == "0");
                if took {
                    ensure!(st.pre.registered(&u), "a hot-zap of unregistered {} accepted: {}", u, fmt_ev(ev));
                    let mut ts: BTreeSet<String> = std::iter::once(t.clone()).collect();
                    for i in msg["add_liquidity_infos"].as_array().unwrap() { ts.extend(st.pre.pools[i["pool_id"].as_u64().unwrap() as usize].tokens.iter().cloned()); }
                    for x in st.post.dep.get(&u).into_iter().flat_map(|m| m.iter()) { if *x.1 > st.pre.deposit(&u, x.0) { ts.insert(x.0.clone()); } }
                    for x in ts { ensure!(white(&x) || has(&x), "a hot-zap of {} leaves {} with the exchange, which is neither whitelisted nor registered by the sender: {}", u, x, fmt_ev(ev)); }
                }
                env.rep.eval(if took { "hot-zap accepted" } else { "hot-zap refused" }, Some(h(format!("z {} {} {} {} {}", took, st.pre.registered(&u), white(&t), has(&t), t))));
            }
        }
        // new token entries
        for (u, m) in &st.post.dep {
            for (t, x) in m {
                if st.pre.dep.get(u).map_or(false, |m| m.contains_key(t)) { continue; }
                let own = ev.method == "register_tokens" && &ev.pred == u;
                env.rep.eval("new token entry", Some(h(format!("{} {} {}", ev.method, own, t))));
                let _ = x; let _ = own;
            }
        }
        if ev.ok.is_err() { if matches!(ev.method.as_str(), "unregister_tokens" | "storage_unregister" | "mft_unregister") || a["unregister"] == json!(true) { env.rep.eval("unregistration refused", Some(h(format!("{} {:?}", ev.method, st.pre.dep.get(&ev.pred).map(|m| m.values().filter(|x| **x > 0).count()))))); } return Ok(()); }
        let keep = |what: &str| -> Res { if let Some(d) = only(&st.pre, &st.post, |_| ()) { Err(format!("{} {}: {}", what, fmt_ev(ev), d)) } else { Ok(()) } };
        match ev.method.as_str() {
            "register_tokens" | "mft_register" | "storage_deposit" | "storage_withdraw" => keep("a registration changed balances:")?,
            "unregister_tokens" => {
                keep("unregistering made value disappear:")?;
                for t in strs(&a["token_ids"]) { ensure!(!st.post.dep.get(&ev.pred).map_or(false, |m| m.contains_key(&t)), "{} still registered after {}", t, fmt_ev(ev)); }
                env.rep.eval("unregistered tokens", Some(h(format!("{} {:?}", a, ev.pred))));
            }
            "mft_unregister" => { keep("unregistering made value disappear:")?; let p = a["token_id"].as_str().and_then(|x| x.trim_start_matches(':').parse::<usize>().ok()).unwrap_or(0); ensure!(st.pre.share(p, &ev.pred) == 0, "{} while holding {} shares", fmt_ev(ev), st.pre.share(p, &ev.pred)); env.rep.eval("unregistered shares", Some(h(format!("{} {}", p, ev.pred)))); }
            "storage_unregister" => {
                keep("closing an account made value disappear:")?;
                ensure!(st.pre.dep.get(&ev.pred).map_or(true, |m| m.values().all(|x| *x == 0)), "{} while holding {:?}", fmt_ev(ev), st.pre.dep.get(&ev.pred));
                ensure!(!st.pre.shadow.contains_key(&ev.pred), "{} while pledging {:?}", fmt_ev(ev), st.pre.shadow.get(&ev.pred));
                env.rep.eval("closed account", Some(h(format!("{} {}", ev.pred, st.pre.registered(&ev.pred)))));
            }
            "donation_share" | "donation_token" | "withdraw" if a["unregister"] == json!(true) => {
                let (k, left) = if ev.method == "donation_share" { let p = a["pool_id"].as_u64().unwrap_or(0) as usize; (format!(":{}", p), st.post.share(p, &ev.pred)) } else { let t = a["token_id"].as_str().unwrap_or("").to_string(); let l = st.post.deposit(&ev.pred, &t); (t, l) };
                // what is gone must have gone somewhere: the sum over everybody, pools and payouts is unchanged
                let paid: u128 = w.ch.pending.iter().filter(|r| st.ev.created.contains(&r.id) && r.receiver == k).filter_map(|r| call_of(r)).filter(|(m, _, _)| m.starts_with("ft_transfer") || m == "near_withdraw").map(|(_, a, _)| num(&a["amount"])).sum();
                let tot = |s: &Snap| -> u128 { if ev.method == "donation_share" { s.shares[a["pool_id"].as_u64().unwrap_or(0) as usize].values().sum() } else { s.liabilities(&k) } };
                ensure!(tot(&st.pre) == tot(&st.post) + paid, "{}: {} of {} before, {} after and {} sent", fmt_ev(ev), tot(&st.pre), k, tot(&st.post), paid);
                env.rep.eval("moved and unregistered", Some(h(format!("{} {} {}", ev.method, k, left > 0))));
            }
            _ => {
                // nothing else may drop an entry that held something, unless it moved it
                for (u, m) in &st.pre.dep { for (t, x) in m { if *x > 0 && !st.post.dep.get(u).map_or(false, |m| m.contains_key(t)) { let paid: u128 = w.ch.pending.iter().filter(|r| st.ev.created.contains(&r.id) && &r.receiver == t).filter_map(|r| call_of(r)).filter(|(m, _, _)| m.starts_with("ft_transfer") || m == "near_withdraw").map(|(_, a, _)| num(&a["amount"])).sum(); ensure!(st.pre.liabilities(t) == st.post.liabilities(t) + paid, "{} dropped {}'s {} {}", fmt_ev(ev), u, x, t); env.rep.eval("entry dropped", Some(h(format!("{} {}", ev.method, t)))); } } }
            }
        }
        Ok(())
    }
}
fn c23(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 2 + r.us(3), stable: 1, rated: r.p(20), degen: r.p(20), overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    let mix = Mix::only(&[(gen::M_DEPOSIT, 10), (gen::M_REGTOK, 8), (gen::M_STORAGE, 6), (gen::M_WITHDRAW, 6), (gen::M_SWAP, 4), (gen::M_ADD, 4), (gen::M_REMOVE, 4), (gen::M_MFT, 8), (gen::M_SHADOW, 5), (gen::M_DONATE, 4), (gen::M_HOTZAP, 2), (gen::M_FAULT, 2), (gen::M_MFTCALL, 2)]);
    // pools holding a token that is not on the list
    if r.p(70) {
        let b = gen::BASE_TOKENS; let (x, y) = (b[r.us(b.len())].0, 1_000_000u128 + r.below128(10u128.pow(22)));
        let p = w.add_simple(&["odd.t", x], 30);
        w.ok(USERS[0], EX, "register_tokens", json!({"token_ids":["odd.t"]}), 1);
        let z = w.unit(x); w.seed(USERS[0], p, &[y, z]);
        if r.p(50) { let b0 = w.dec(x); let _ = b0; if w.dec(x) <= 18 { let p = w.add_stable(PK::Stable, &["odd.t", x], 5, 100); let (a, c) = (w.unit("odd.t"), w.unit(x)); w.seed(USERS[0], p, &[a * 1000, c * 1000]); } }
    }
    let mut m = M23 { post: BTreeSet::new() };
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 170, flags: F_MONEY, mix, conc: 0 }, &mut m)
}

// ------------------------------------------------------------------ C27
#[derive(Clone, Debug)]
struct Ramp { a0: u128, a1: u128, t0: u64, t1: u64 }
impl Ramp {
    fn at(&self, t: u64) -> u128 {
        if t >= self.t1 { return self.a1; }
        let (r, d) = ((self.t1 - self.t0) as u128, (t - self.t0) as u128);
        if self.a1 >= self.a0 { self.a0 + (self.a1 - self.a0) * d / r } else { self.a0 - (self.a0 - self.a1) * d / r }
    }
    fn place(&self, t: u64) -> &'static str { if self.t0 == 0 { "never ramped" } else if t >= self.t1 { "after" } else if t == self.t0 { "start" } else if t - self.t0 < (self.t1 - self.t0) / 2 { "first half" } else { "second half" } }
    fn dir(&self) -> &'static str { if self.a1 > self.a0 { "up" } else if self.a1 < self.a0 { "down" } else { "flat" } }
}
struct M27 { m: BTreeMap<usize, Ramp> }
impl Monitor for M27 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        if r.p(45) { return None; }
        let st: Vec<usize> = (0..s.pools.len()).filter(|p| s.pools[*p].kind != PK::Simple).collect();
        let p = if r.p(4) { r.us(s.pools.len() + 1) } else { *r.pick(&st) };
        let c = if r.p(90) { if r.p(50) { OWNER } else { GUARD } } else { *r.pick(&[USERS[0], USERS[3], BOOST, LIQ]) };
        let dep = if r.p(95) { 1 } else { *r.pick(&[0u128, 2]) };
        let m = match self.m.get(&p) { Some(m) => m.clone(), None => Ramp { a0: 100, a1: 100, t0: 0, t1: 0 } };
        // move the clock to interesting moments
        if r.p(60) {
            let goal = match r.below(8) { 0 => m.t0 + DAY, 1 => m.t0 + DAY - 1, 2 => m.t1, 3 => m.t1.saturating_sub(1), 4 => m.t0 + (m.t1 - m.t0) / 2, 5 => m.t0 + r.below((m.t1 - m.t0).max(1)), 6 => m.t0 + DAY + r.below(20 * DAY), _ => w.ch.ts + r.below(3 * DAY) };
            if goal > w.ch.ts + SEC { w.ch.ts = goal - w.ch.dt; }
        }
        let t = w.ch.ts + w.ch.dt;
        if r.p(15) { return Some(gen::op(c, "stable_swap_stop_ramp_amp", json!({"pool_id":p}), dep)); }
        let a = m.at(t);
        let f = match r.below(14) { 0 => 0, 1 => 1_000_000, 2 => 999_999, 3 => a * 10, 4 => a * 10 + 1, 5 => a / 10, 6 => (a / 10).saturating_sub(1), 7 => (a + 9) / 10, 8 => a, 9 => 1, 10 | 11 => a + r.below128(a * 9 + 1), _ => a / 10 + r.below128(a + 1) };
        let end = match r.below(8) { 0 => t + DAY, 1 => t + DAY - 1, 2 => t + DAY + 1, 3 => r.below(t), 4 => t + r.below(DAY), 5 => t + DAY + r.below(1000), _ => t + DAY + r.below(30 * DAY) };
        Some(gen::op(c, "stable_swap_ramp_amp", json!({"pool_id":p,"future_amp_factor":f as u64,"future_amp_time":end.to_string()}), dep))
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if ev.receiver != EX { return Ok(()); }
        let a = args(&ev.args);
        let boss = ev.pred == st.pre.meta["owner"].as_str().unwrap_or("") || strs(&st.pre.meta["guardians"]).contains(&ev.pred);
        if ev.method == "stable_swap_ramp_amp" || ev.method == "stable_swap_stop_ramp_amp" {
            let p = a["pool_id"].as_u64().unwrap_or(0) as usize;
            let known = self.m.contains_key(&p);
            let m = self.m.get(&p).cloned().unwrap_or(Ramp { a0: 0, a1: 0, t0: 0, t1: 0 });
            let cur = m.at(ev.ts);
            let mut why: Vec<&str> = vec![];
            if !boss { why.push("caller"); }
            if ev.deposit != 1 { why.push("deposit"); }
            if !known { why.push("no such stable-type pool"); }
            let (mut f, mut e) = (0u128, 0u64);
            if ev.method == "stable_swap_ramp_amp" {
                f = a["future_amp_factor"].as_u64().unwrap() as u128; e = a["future_amp_time"].as_str().unwrap().parse().unwrap();
                if ev.ts < m.t0 + DAY { why.push("a ramp began or was stopped less than a day ago"); }
                if e < ev.ts + DAY { why.push("shorter than a day"); }
                if f == 0 || f >= 1_000_000 { why.push("out of bounds"); }
                if known && ((f >= cur && f > cur * 10) || (f < cur && f * 10 < cur)) { why.push("changes by more than ten times"); }
            }
            ensure!(ev.ok.is_ok() == why.is_empty(), "{} while the amplification is {} ({:?}): objections {:?}", fmt_ev(ev), cur, m, why);
            let key = h(format!("{} {:?} {} {} {:?}", ev.method, why, m.dir(), m.place(ev.ts), st.pre.pools.get(p).map(|p| p.kind)));
            env.rep.eval(if ev.ok.is_ok() { "accepted request" } else { "refused request" }, Some(key));
            env.rep.sample(&format!("{} {:?}", ev.method, why), || json!(fmt_ev(ev)));
            if ev.ok.is_ok() { self.m.insert(p, if ev.method == "stable_swap_ramp_amp" { Ramp { a0: cur, a1: f, t0: ev.ts, t1: e } } else { Ramp { a0: cur, a1: cur, t0: ev.ts, t1: ev.ts } }); }
            if let Some(d) = only(&st.pre, &st.post, |_| ()) { return Err(format!("{} changed {}", fmt_ev(ev), d)); }
        }
        for (p, m) in &self.m { self.read(env, &st.post.pools[*p], *p, m, ev.ts)?; }
        // and ahead of time
        if ev.method.starts_with("stable_swap") && ev.ok.is_ok() {
            let p = a["pool_id"].as_u64().unwrap() as usize;
            let m = self.m[&p].clone();
            let len = m.t1 - m.t0;
            let mut ts = vec![m.t0, m.t0 + 1, m.t0 + len / 3, m.t0 + len / 2, m.t1.saturating_sub(1), m.t1, m.t1 + 1, m.t1 + DAY];
            for k in 0..4u64 { ts.push(m.t0 + len / 1000 * (h(format!("{}{}", m.t0, k)) % 1000)); }
            for t in ts { if t < ev.ts { continue; } let v = w.ch.view_at(EX, "get_pool_detail_info", json!({"pool_id":p}), t).map_err(|e| format!("the pool cannot be read at {}: {}", t, e))?; self.read(env, &parse_pool(&v), p, &m, t)?; }
        }
        Ok(())
    }
}
impl M27 {
    fn read(&self, env: &mut Env, ps: &PoolS, p: usize, m: &Ramp, t: u64) -> Res {
        let e = m.at(t);
        let (lo, hi) = (m.a0.min(m.a1), m.a0.max(m.a1));
        ensure!(ps.amp as u128 >= lo && ps.amp as u128 <= hi, "pool {} has amplification {} outside its ramp {:?} at {}", p, ps.amp, m, t);
        ensure!(ps.amp as u128 == e, "pool {} has amplification {} at {}, its ramp {:?} prescribes {}", p, ps.amp, t, m, e);
        let pl = m.place(t);
        env.rep.eval(&format!("reading {}", pl), if pl == "never ramped" { None } else { Some(h(format!("{:?} {} {} {} {}", ps.kind, m.dir(), pl, lg(m.a0), lg(m.a1)))) });
        Ok(())
    }
}
fn c27(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 1, stable: 2, rated: true, degen: true, overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    w.flags = F_ALL; w.cached = None;
    let s = w.snap();
    let m = s.pools.iter().enumerate().filter(|(_, p)| p.kind != PK::Simple).map(|(i, p)| (i, Ramp { a0: p.amp as u128, a1: p.amp as u128, t0: 0, t1: 0 })).collect();
    let mix = Mix::only(&[(gen::M_SWAP, 10), (gen::M_ADD, 4), (gen::M_REMOVE, 4), (gen::M_REMTOK, 3), (gen::M_FEES, 2), (gen::M_GUARD, 1), (gen::M_PRICE, 4)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 220, flags: F_MONEY, mix, conc: 0 }, &mut M27 { m })
}

// ------------------------------------------------------------------ C30
struct M30 { pay: Payouts }
impl Monitor for M30 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        if r.p(55) { return None; }
        let owner = s.meta["owner"].as_str().unwrap_or(OWNER).to_string();
        let c: &str = match r.below(10) { 0..=4 => &owner, 5..=8 => GUARD, _ => USERS[r.us(4)] };
        let u = USERS[r.us(4)];
        let size = |r: &mut Rng, x: u128| match r.below(8) { 0 => x, 1 => x.saturating_add(1), 2 => x.saturating_mul(2).max(1), 3 => 1, 4 => 0, _ => r.amount(x.max(1)) };
        match r.below(100) {
            0..=29 => { let c2: Vec<usize> = (0..s.pools.len()).filter(|p| s.share(*p, EX) > 0).collect(); let p = if c2.is_empty() || r.p(5) { r.us(s.pools.len()) } else { *r.pick(&c2) }; let b = s.share(p, EX); let x = size(r, b); let ps = &s.pools[p]; let mins: Vec<u128> = ps.tokens.iter().enumerate().map(|(i, _)| if r.p(80) || ps.supply == 0 { 0 } else { let f = crate::math::muldiv(ps.amounts[i], x, ps.supply.max(x)); f.saturating_add(r.below128(3)).saturating_sub(1) }).collect(); Some(gen::op(c, "remove_exchange_fee_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":js(&mins)}), 1)) }
            30..=54 => { let held: Vec<(String, u128)> = s.dep.get(&owner).map(|m| m.iter().filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), *v)).collect()).unwrap_or_default(); if held.is_empty() { return None; } let (t, b) = if r.p(25) { held.iter().find(|x| x.0 == WNEAR).cloned().unwrap_or(held[0].clone()) } else { r.pick(&held).clone() }; let x = size(r, b); Some(gen::op(c, "withdraw_owner_token", json!({"token_id":t,"amount":x.to_string(),"skip_unwrap_near":r.p(40)}), 1)) }
            55..=64 => { let t = w.toks.keys().nth(r.us(w.toks.len())).unwrap().clone(); let un = w.ledger(&t, EX).saturating_sub(s.liabilities(&t) + s.pools.len() as u128); if un < 2 { let m = w.unit(&t); w.mint(&t, EX, m); return None; } if !w.ch.pending.is_empty() { return None; } let x = r.amount(un); Some(gen::op(c, "retrieve_unmanaged_token", json!({"token_id":t,"amount":x.to_string()}), 1)) }
            65..=79 => { let c2: Vec<(usize, String, u128)> = s.shares.iter().enumerate().flat_map(|(i, m)| m.iter().filter(|x| x.0 != EX && USERS.contains(&x.0.as_str())).map(move |(a, x)| (i, a.clone(), *x))).collect(); if c2.is_empty() { return None; } let (p, a, b) = r.pick(&c2).clone(); let lim = if r.p(40) { s.free(&a, p) } else { b }; let x = size(r, lim); let mut j = json!({"pool_id":p}); if r.p(80) { j["amount"] = json!(x.to_string()); } if r.p(30) { j["unregister"] = json!(r.p(80)); } Some(gen::op(&a, "donation_share", j, 1)) }
            80..=94 => { let held: Vec<(String, u128)> = s.dep.get(u).map(|m| m.iter().map(|(k, v)| (k.clone(), *v)).collect()).unwrap_or_default(); if held.is_empty() { return None; } let (t, b) = r.pick(&held).clone(); let x = size(r, b); let mut j = json!({"token_id":t}); if r.p(80) { j["amount"] = json!(x.to_string()); } if r.p(30) { j["unregister"] = json!(r.p(80)); } Some(gen::op(if r.p(8) { &owner } else { u }, "donation_token", j, 1)) }
            95 | 96 => { let n = *r.pick(&[LIQ, OWNER, OWNER, USERS[1]]); Some(gen::op(&owner, "set_owner", json!({"owner_id":n}), 1)) }
            _ => { let f = w.ch.mock(&w.toks.keys().nth(r.us(w.toks.len())).unwrap().clone()).ft(); f.fail = !f.fail && r.p(50); None }
        }
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        let outs = self.pay.created(w, st)?;
        if let Some((o, how)) = self.pay.settle(w, st)? { if o.origin == "withdraw_owner_token" { env.rep.eval(&format!("owner withdrawal {}", how), Some(h(format!("{} {} {} {}", o.token, how, o.method, lg(o.amount) / 4)))); } return Ok(()); }
        if ev.receiver != EX { return Ok(()); }
        let a = args(&ev.args);
        let m = ev.method.as_str();
        // nothing else burns the exchange's fee shares
        for p in 0..st.pre.pools.len() { ensure!(st.post.share(p, EX) >= st.pre.share(p, EX) || m == "remove_exchange_fee_liquidity", "the exchange's shares of pool {} fell from {} to {} through {}", p, st.pre.share(p, EX), st.post.share(p, EX), fmt_ev(ev)); }
        if !matches!(m, "remove_exchange_fee_liquidity" | "withdraw_owner_token" | "retrieve_unmanaged_token" | "donation_share" | "donation_token") { return Ok(()); }
        let owner = st.pre.meta["owner"].as_str().unwrap_or("").to_string();
        let boss = ev.pred == owner || strs(&st.pre.meta["guardians"]).contains(&ev.pred);
        let run = !paused(&st.pre);
        let u = ev.pred.clone();
        let p = a["pool_id"].as_u64().unwrap_or(0) as usize;
        let t = a["token_id"].as_str().unwrap_or("").to_string();
        if ev.ok.is_err() {
            let x = a["amount"].as_str().or(a["shares"].as_str()).map(|x| x.parse::<u128>().unwrap());
            let must = match m {
                "remove_exchange_fee_liquidity" => { let ps = &st.pre.pools[p]; let x = x.unwrap(); boss && run && x > 0 && x <= st.pre.share(p, EX) && nums(&a["min_amounts"]).iter().all(|y| *y == 0) && (ps.kind == PK::Simple || x.saturating_mul(1000) < ps.supply) && st.pre.storage.get(&owner).map_or(false, |(d, us)| us + 148 * BYTE * ps.tokens.len() as u128 <= *d) }
                "withdraw_owner_token" => boss && run && x.unwrap() > 0 && x.unwrap() <= st.pre.deposit(&owner, &t),
                "retrieve_unmanaged_token" => u == owner && x.unwrap() > 0,
                "donation_token" => run && x.map_or(false, |x| x > 0 && x <= st.pre.deposit(&u, &t)) && a["unregister"] != json!(true) && st.pre.dep.get(&owner).map_or(false, |m| m.contains_key(&t)) && st.pre.storage.get(&u).map_or(false, |(d, us)| us <= d),
                _ => run && x.map_or(false, |x| x > 0 && x <= st.pre.free(&u, p)) && a["unregister"] != json!(true),
            };
            ensure!(!must, "refused although nothing speaks against it: {}", fmt_ev(ev));
            env.rep.eval(&format!("{} refused", m), Some(h(format!("{} {} {} {:?}", m, boss, run, x.map(lg)))));
            return Ok(());
        }
        ensure!(run || m == "retrieve_unmanaged_token", "while paused: {}", fmt_ev(ev));
        let mut kind = String::new();
        match m {
            "remove_exchange_fee_liquidity" => {
                let x = num(&a["shares"]);
                let ps = st.pre.pools[p].clone();
                kind = format!("{:?}", ps.kind);
                ensure!(boss && x <= st.pre.share(p, EX), "{} (fee shares {})", fmt_ev(ev), st.pre.share(p, EX));
                let mins = nums(&a["min_amounts"]);
                let mut pays = vec![];
                for (i, t) in ps.tokens.iter().enumerate() {
                    let (f, dv) = super::swap::c_factor(ps.kind, ps.dec.get(i).copied().unwrap_or(0));
                    let due_c = if ps.kind == PK::Simple { w_(ps.amounts[i]) } else { w_(ps.c[i]) } * w_(x) / w_(ps.supply.max(1));
                    let due = if ps.kind == PK::Simple { due_c } else { due_c * w_(dv) / w_(f) };
                    let slack = if ps.kind == PK::Simple { 1 } else { 1 + dv };
                    let paid = st.post.deposit(&owner, t).wrapping_sub(st.pre.deposit(&owner, t));
                    ensure!(w_(paid) <= due && w_(paid) + w_(slack) >= due, "collecting {} of {} fee shares credits {} {}; the pro-rata part is {}", x, ps.supply, paid, t, due);
                    ensure!(paid >= mins[i], "{} {} credited although {} is the minimum", paid, t, mins[i]);
                    let took = ps.amounts[i] - st.post.pools[p].amounts[i];
                    ensure!(w_(took) <= w_(paid) + w_(1 + slack) && w_(took) + w_(1) >= w_(paid), "the pool gave {} {} but {} was credited", took, t, paid);
                    pays.push((t.clone(), paid));
                }
                if let Some(d) = only(&st.pre, &st.post, |e| { sub_share(e, p, EX, x); e.pools[p].supply -= x; e.pools[p].amounts = st.post.pools[p].amounts.clone(); e.pools[p].c = st.post.pools[p].c.clone(); for (t, y) in &pays { *e.dep.entry(owner.clone()).or_default().entry(t.clone()).or_insert(0) += y; } }) { return Err(format!("collecting fee liquidity: {} ({})", d, fmt_ev(ev))); }
                ensure!(outs.is_empty(), "collecting fee liquidity sends tokens: {:?}", outs);
            }
            "withdraw_owner_token" => {
                let x = num(&a["amount"]);
                ensure!(boss && x > 0 && x <= st.pre.deposit(&owner, &t), "{} (owner holds {})", fmt_ev(ev), st.pre.deposit(&owner, &t));
                if let Some(d) = only(&st.pre, &st.post, |e| { *e.dep.entry(owner.clone()).or_default().entry(t.clone()).or_insert(0) -= x; }) { return Err(format!("withdrawing the owner's {}: {}", t, d)); }
                ensure!(outs.len() == 1 && outs[0].token == t && outs[0].amount == x && outs[0].to == owner && outs[0].cb.is_some(), "withdrawing {} of the owner's {} starts {:?}", x, t, outs);
            }
            "retrieve_unmanaged_token" => {
                ensure!(u == owner, "{}", fmt_ev(ev));
                if let Some(d) = only(&st.pre, &st.post, |_| ()) { return Err(format!("retrieving unmanaged {} changes {}", t, d)); }
                ensure!(outs.len() == 1 && outs[0].token == t && outs[0].amount == num(&a["amount"]) && outs[0].to == owner && outs[0].method == "ft_transfer", "retrieving {} {} starts {:?}", a["amount"], t, outs);
            }
            "donation_share" => {
                let had = st.pre.share(p, &u);
                kind = format!("{:?} {}", st.pre.pools[p].kind, a["unregister"]);
                let x = a["amount"].as_str().map(|x| x.parse::<u128>().unwrap()).unwrap_or(st.pre.free(&u, p));
                ensure!(x > 0 && x <= st.pre.free(&u, p), "{} of {} shares donated, {} free", x, had, st.pre.free(&u, p));
                if let Some(d) = only(&st.pre, &st.post, |e| { sub_share(e, p, &u, x); *e.shares[p].entry(EX.into()).or_insert(0) += x; }) { return Err(format!("{}: {}", fmt_ev(ev), d)); }
                ensure!(outs.is_empty(), "a donation sends tokens: {:?}", outs);
            }
            _ => {
                let x = a["amount"].as_str().map(|x| x.parse::<u128>().unwrap()).unwrap_or(st.pre.deposit(&u, &t));
                ensure!(x > 0 && x <= st.pre.deposit(&u, &t), "{} of {} {} donated", x, st.pre.deposit(&u, &t), t);
                kind = format!("{} {}", u == owner, a["unregister"]);
                if let Some(d) = only(&st.pre, &st.post, |e| { *e.dep.entry(u.clone()).or_default().entry(t.clone()).or_insert(0) -= x; *e.dep.entry(owner.clone()).or_default().entry(t.clone()).or_insert(0) += x; }) { return Err(format!("{}: {}", fmt_ev(ev), d)); }
                ensure!(outs.is_empty(), "a donation sends tokens: {:?}", outs);
            }
        }
        let x = a["amount"].as_str().or(a["shares"].as_str()).map(|x| x.parse::<u128>().unwrap_or(0)).unwrap_or(0);
        env.rep.eval(m, Some(h(format!("{} {} {} {}", m, kind, t, lg(x) / 2))));
        env.rep.sample(m, || json!(fmt_ev(ev)));
        Ok(())
    }
}
fn w_(x: u128) -> U1024 { U1024::from(x) }
fn sub_share(e: &mut Snap, p: usize, a: &str, x: u128) { *e.shares[p].entry(a.into()).or_insert(0) -= x; }
fn c30(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut sp = spec_any(&mut r);
    sp.simple = 2 + r.us(3);
    let mut w = gen::world(env.codes, &mut r, &sp);
    // fee shares in every pool
    w.flags = F_MONEY; w.cached = None;
    if r.p(80) { let s = w.snap(); for p in 0..s.pools.len() { for (a, x) in s.shares[p].clone() { if a != EX && r.p(60) { let y = x / (2 + r.below128(1000)); if y > 0 { let _ = w.quiet(&a, "donation_share", json!({"pool_id":p,"amount":y.to_string()}), 1); } } } } }
    let mix = Mix::all().with(&[(gen::M_GUARD, 1), (gen::M_TREASURY, 4), (gen::M_DONATE, 5), (gen::M_FAULT, 4), (gen::M_SWAP, 10)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 150, flags: F_MONEY, mix, conc: 0 }, &mut M30 { pay: Payouts::default() })
}

// ------------------------------------------------------------------ C31
struct M31 { usage: HashMap<usize, u64> }
impl Monitor for M31 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        if r.p(60) { return None; }
        let owner = s.meta["owner"].as_str().unwrap_or(OWNER).to_string();
        let toks: Vec<String> = w.toks.keys().cloned().collect();
        let simple = r.p(45);
        let c: String = if simple { USERS[r.us(4)].into() } else { match r.below(10) { 0..=4 => owner.clone(), 5..=7 => GUARD.into(), _ => r.pick(&[USERS[0], USERS[2], BOOST]).to_string() } };
        let n = if simple { match r.below(12) { 0 => 1, 1 => 3, 2 => 0, _ => 2 } } else { 2 + r.us(4) };
        let mut ts: Vec<String> = vec![];
        while ts.len() < n { let t = if r.p(8) { format!("unk{}.t", r.below(50)) } else { r.pick(&toks).clone() }; if !ts.contains(&t) || toks.len() <= n { ts.push(t); } }
        if r.p(8) && n > 1 { let k = r.us(n); let j = (k + 1 + r.us(n - 1)) % n; ts[k] = ts[j].clone(); }
        let fee = match r.below(10) { 0 => 10_000, 1 => 9_999, 2 => 10_001, 3 => u32::MAX as u64, 4 => 0, _ => r.below(400) };
        let mut m = if simple { "add_simple_pool" } else { *r.pick(&["add_stable_swap_pool", "add_rated_swap_pool", "add_degen_swap_pool"]) };
        if m == "add_degen_swap_pool" { // pools of tokens that have no price yet cannot be listed
            let dg = w.degen_tokens();
            if dg.len() < 2 { m = "add_stable_swap_pool"; } else { ts = ts.iter().map(|_| r.pick(&dg).clone()).collect(); if r.p(80) { ts.sort(); ts.dedup(); } }
        }
        let mut a = json!({"tokens":ts,"fee":fee});
        if !simple {
            let mut d: Vec<u64> = ts.iter().map(|t| w.toks.get(t).copied().unwrap_or(18) as u64).collect();
            match r.below(16) { 0 => { d[0] = 0; } 1 => { let k = r.us(d.len()); d[k] = 25; } 2 => { d.pop(); } 3 => { d.push(18); } 4 => { let k = r.us(d.len()); d[k] = 24; } 5 => { let k = r.us(d.len()); d[k] = 1; } _ => {} }
            a["decimals"] = json!(d);
            a["amp_factor"] = json!(match r.below(12) { 0 => 0, 1 => 1_000_000, 2 => 1_000_001, 3 => 1, 4 => u64::MAX, _ => 1 + r.below(10_000) });
        }
        // what it costs
        let mut f = w.clone();
        let u0 = f.ch.accounts[EX].usage;
        let cost = if w.ch.bal(&c) > NEAR && f.quiet(&c, m, a.clone(), NEAR).is_ok() { (f.ch.accounts[EX].usage - u0) as u128 * BYTE } else { NEAR / 100 };
        let dep = match r.below(10) { 0 => cost - 1, 1 | 2 => cost, 3 => cost + 1, 4 => 0, 5 => cost / 2, _ => cost + r.below128(NEAR / 10) };
        Some(gen::op(&c, m, a, dep))
    }
    fn before(&mut self, w: &mut World, rc: &Receipt) { if rc.receiver == EX { self.usage.insert(rc.id, w.ch.accounts[EX].usage); } }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if ev.receiver != EX { return Ok(()); }
        let u0 = self.usage.remove(&ev.rid).unwrap_or(0);
        let (n0, n1) = (st.pre.pools.len(), st.post.pools.len());
        let creates = matches!(ev.method.as_str(), "add_simple_pool" | "add_stable_swap_pool" | "add_rated_swap_pool" | "add_degen_swap_pool");
        ensure!(n1 == n0 + (creates && ev.ok.is_ok()) as usize, "{} pools before and {} after {}", n0, n1, fmt_ev(ev));
        ensure!(num(&w.v("get_number_of_pools", json!({}))) as usize == n1, "number of pools");
        for p in 0..n0 { let (x, y) = (&st.pre.pools[p], &st.post.pools[p]); ensure!(x.kind == y.kind && x.tokens == y.tokens && x.dec == y.dec, "pool {} changed from {:?} to {:?} through {}", p, x, y, fmt_ev(ev)); }
        if !creates { env.rep.eval("other receipt", None); return Ok(()); }
        let a = args(&ev.args);
        let simple = ev.method == "add_simple_pool";
        let ts = strs(&a["tokens"]);
        let d: Vec<u64> = a["decimals"].as_array().map(|v| v.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
        let fee = a["fee"].as_u64().unwrap_or(0);
        let amp = a["amp_factor"].as_u64().unwrap_or(0);
        let mut why: Vec<&str> = vec![];
        if ts.iter().collect::<BTreeSet<_>>().len() != ts.len() { why.push("same token twice"); }
        if fee >= 10_000 { why.push("fee"); }
        if simple { if ts.len() != 2 { why.push("token number"); } if paused(&st.pre) { why.push("paused"); } }
        else {
            if d.len() != ts.len() { why.push("decimals number"); }
            if d.iter().any(|x| *x < 1 || *x > 24) { why.push("decimals"); }
            if amp < 1 || amp > 1_000_000 { why.push("amplification"); }
            if !(ev.pred == st.pre.meta["owner"].as_str().unwrap_or("") || strs(&st.pre.meta["guardians"]).contains(&ev.pred)) { why.push("caller"); }
        }
        let key = |o: &str| h(format!("{} {:?} {} {} {}", ev.method, why, ev.pred, ts.len(), o));
        if ev.ok.is_err() {
            // a generous payment must be enough
            ensure!(!(why.is_empty() && ev.deposit >= NEAR), "refused although valid and paid: {}", fmt_ev(ev));
            if let Some(x) = only(&st.pre, &st.post, |_| ()) { return Err(format!("a rejected creation changed {}", x)); }
            ensure!(w.ch.accounts[EX].usage == u0 && ev.created.is_empty(), "a rejected creation left traces: {}", fmt_ev(ev));
            if why.is_empty() && ev.deposit > 0 { // exactly the storage it needs is enough
                let mut f = w.clone();
                let u1 = f.ch.accounts[EX].usage;
                f.ch.accounts.get_mut(&ev.pred).unwrap().balance += NEAR;
                ensure!(f.quiet(&ev.pred, &ev.method, a.clone(), NEAR).is_ok(), "valid creation refused with 1 NEAR: {}", fmt_ev(ev));
                let cost = (f.ch.accounts[EX].usage - u1) as u128 * BYTE;
                ensure!(ev.deposit < cost, "refused although {} covers the storage cost {}: {}", ev.deposit, cost, fmt_ev(ev));
                env.rep.eval("refused: payment too small", Some(key("short")));
            } else { env.rep.eval("refused: invalid", Some(key("bad"))); }
            env.rep.sample(&format!("refused {} {:?}", ev.method, why), || json!(fmt_ev(ev)));
            return Ok(());
        }
        ensure!(why.is_empty(), "accepted in spite of {:?}: {}", why, fmt_ev(ev));
        let id: usize = ev.ok.as_ref().unwrap().parse().unwrap_or(usize::MAX);
        ensure!(id == n0, "new pool got identifier {} instead of {}", id, n0);
        let q = &st.post.pools[id];
        let kind = match ev.method.as_str() { "add_simple_pool" => PK::Simple, "add_stable_swap_pool" => PK::Stable, "add_rated_swap_pool" => PK::Rated, _ => PK::Degen };
        ensure!(q.kind == kind && q.tokens == ts && q.fee as u64 == fee && q.supply == 0 && q.amounts == vec![0; ts.len()], "asked for {} and got {:?}", a, q);
        if !simple { ensure!(q.dec.iter().map(|x| *x as u64).collect::<Vec<_>>() == d && q.amp == amp && q.c == vec![0; ts.len()], "asked for {} and got {:?}", a, q); }
        ensure!(st.post.shares[id].is_empty(), "a new pool has shares {:?}", st.post.shares[id]);
        ensure!(st.post.vols[id].iter().all(|(x, y)| x.is_zero() && y.is_zero()) && st.post.vols[id].len() == ts.len(), "a new pool has volumes {:?}", st.post.vols[id]);
        let (q, ex) = (q.clone(), st.post.shares[id].clone());
        if let Some(x) = only(&st.pre, &st.post, |e| { e.pools.push(q); e.shares.push(ex); }) { return Err(format!("creating a pool changed {}", x)); }
        let back: u128 = w.ch.pending.iter().filter(|r| ev.created.contains(&r.id)).map(|r| { match r.actions.first() { Some(Action::Transfer(d)) if r.receiver == ev.pred => *d, _ => u128::MAX / 4 } }).sum();
        let cost = (w.ch.accounts[EX].usage - u0) as u128 * BYTE;
        ensure!(back == ev.deposit - cost.min(ev.deposit) && cost <= ev.deposit, "{} attached for storage worth {}, {} returned: {}", ev.deposit, cost, back, fmt_ev(ev));
        env.rep.eval(&format!("created {:?}", kind), Some(key(if back == 0 { "exact" } else { "excess" })));
        env.rep.sample(&format!("created {:?}", kind), || json!(fmt_ev(ev)));
        Ok(())
    }
}
fn c31(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 1 + r.us(2), stable: r.us(2), rated: r.p(30), degen: r.p(30), overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    if r.p(20) { w.ok(OWNER, EX, "set_owner", json!({"owner_id":LIQ}), 1); }
    let mix = Mix::all().with(&[(gen::M_GUARD, 2), (gen::M_FEES, 3)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 90, flags: F_MONEY | F_VOLS, mix, conc: 0 }, &mut M31 { usage: HashMap::new() })
}
