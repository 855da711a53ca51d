//! C14 withdrawals, C15 transfer-started swaps, C16 share transfers, C17 pledges, C18 liquidation, C32 hot zaps.
use super::custody::args;
use super::deals::{self, Batch, Hop};
use super::*;
use crate::chain::{Receipt, NEAR};
use crate::mocks::{Answer, Mock, Reply};
use crate::util::*;
use crate::vm::{Action, PRes};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C14", f: c14, rule: "one evaluation per step of a payout (withdrawal, lostfound claim, owner withdrawal, delivery): debit, the single transfer it creates, and its callback's effect (nothing on success, exactly the amount in exactly one legal place on failure); non-trivial keyed by origin, stage, outcome, destination and token", quick_secs: 18, min_evals: 5_000 },
        Check { id: "C15", f: c15, rule: "one evaluation per transfer-started swap: deliveries created vs the same actions executed one by one in a copy of the world, recipient and route per option, account balances untouched, refund on rejection, and the delivery's outcome; non-trivial = accepted swap or rejected one with refund, keyed by options, kinds, hops and outcome", quick_secs: 18, min_evals: 2_000 },
        Check { id: "C16", f: c16, rule: "one evaluation per share or token transfer step (transfer, transfer-call, resolve): exact movement and nothing else, with hostile receiver answers and receiver actions in between; non-trivial = a step that moved something, or a resolve, keyed by answer class, refund class and kind", quick_secs: 18, min_evals: 5_000 },
        Check { id: "C17", f: c17, rule: "one evaluation per executed receipt: pledge records vs share balances of every account and pool, and the exact change each call may make to them; non-trivial = a receipt that changed a pledge or tried to move pledged shares, keyed by method, outcome and how much is free", quick_secs: 18, min_evals: 10_000 },
        Check { id: "C18", f: c18, rule: "one evaluation per liquidation attempt: exact burn, pro-rata payout, pledge changes and the farm message, or no effect; non-trivial = any attempt on a real pledge, keyed by outcome, farm adjustment, pool kind and fraction", quick_secs: 18, min_evals: 1_000 },
        Check { id: "C32", f: c32, rule: "one evaluation per hot zap: pools and shares compared with the same swaps and additions executed one by one in a copy, token conservation, leftovers credited, refund on rejection; non-trivial = accepted zap, or a rejected one, keyed by pool kinds, number of actions and outcome", quick_secs: 18, min_evals: 1_000 },
    ]
}
fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }

/// `post` must be `pre` with `f` applied; None = it is.
pub fn only(pre: &Snap, post: &Snap, f: impl FnOnce(&mut Snap)) -> Option<String> {
    let mut e = pre.clone();
    f(&mut e);
    let clean = |m: &BTreeMap<String, BTreeMap<String, u128>>| -> BTreeMap<(String, String), u128> { m.iter().flat_map(|(a, v)| v.iter().filter(|(_, x)| **x > 0).map(move |(t, x)| ((a.clone(), t.clone()), *x))).collect() };
    if clean(&e.dep) != clean(&post.dep) { let (a, b) = (clean(&e.dep), clean(&post.dep)); let d: Vec<String> = a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).take(4).map(|k| format!("{:?}: expected {:?} found {:?}", k, a.get(k), b.get(k))).collect(); return Some(format!("deposits {:?}", d)); }
    if clean(&e.lost) != clean(&post.lost) { return Some(format!("lostfound: expected {:?} found {:?}", clean(&e.lost), clean(&post.lost))); }
    let sh = |v: &Vec<BTreeMap<String, u128>>| -> Vec<BTreeMap<String, u128>> { v.iter().map(|m| m.iter().filter(|x| *x.1 > 0).map(|(k, x)| (k.clone(), *x)).collect()).collect() };
    if sh(&e.shares) != sh(&post.shares) { for i in 0..e.shares.len() { if sh(&e.shares).get(i) != sh(&post.shares).get(i) { return Some(format!("shares of pool {}: expected {:?} found {:?}", i, e.shares[i], post.shares.get(i))); } } return Some("share tables".into()); }
    if e.shadow != post.shadow { return Some(format!("pledges: expected {:?} found {:?}", e.shadow, post.shadow)); }
    if e.pools.len() != post.pools.len() { return Some("number of pools".into()); }
    for i in 0..e.pools.len() { let (a, b) = (&e.pools[i], &post.pools[i]); if (&a.amounts, &a.c, a.supply, a.fee, &a.tokens) != (&b.amounts, &b.c, b.supply, b.fee, &b.tokens) { return Some(format!("pool {}: expected {:?} found {:?}", i, a, b)); } }
    None
}
fn add2(m: &mut BTreeMap<String, BTreeMap<String, u128>>, a: &str, t: &str, x: u128) { *m.entry(a.into()).or_default().entry(t.into()).or_insert(0) += x; }
fn sub2(m: &mut BTreeMap<String, BTreeMap<String, u128>>, a: &str, t: &str, x: u128) -> bool { let e = m.entry(a.into()).or_default().entry(t.into()).or_insert(0); if *e < x { return false; } *e -= x; true }

#[derive(Clone, Debug)]
pub struct Out { pub rid: usize, pub cb: Option<usize>, pub token: String, pub amount: u128, pub to: String, pub method: String, pub origin: String, pub msg: Option<String> }
/// Every token payout the exchange starts, and its single settlement.
#[derive(Default)]
pub struct Payouts { pub by_cb: HashMap<usize, Out>, pub known: HashMap<usize, Out>, pub settled: u64 }
const ORIGINS: [&str; 5] = ["withdraw", "claim_lostfound", "withdraw_owner_token", "ft_on_transfer", "retrieve_unmanaged_token"];
impl Payouts {
    /// payouts created by this exchange receipt
    pub fn created(&mut self, w: &World, st: &Step) -> Result<Vec<Out>, String> {
        let mut v = vec![];
        if st.ev.receiver != EX || st.ev.ok.is_err() { return Ok(v); }
        let rs: Vec<Receipt> = w.ch.pending.iter().filter(|r| st.ev.created.contains(&r.id)).cloned().collect();
        for r in &rs {
            if let Some(Action::Call { method, args: ra, .. }) = r.actions.first() {
                if !w.toks.contains_key(&r.receiver) || !matches!(method.as_str(), "ft_transfer" | "ft_transfer_call" | "near_withdraw") { continue; }
                ensure!(ORIGINS.contains(&st.ev.method.as_str()), "{} sends tokens: {} {}", fmt_ev(&st.ev), r.receiver, method);
                let a = args(&String::from_utf8_lossy(ra));
                let cb = rs.iter().find(|c| c.receiver == EX && c.deps.contains(&r.id)).map(|c| c.id);
                let cba = cb.and_then(|c| rs.iter().find(|x| x.id == c)).and_then(|c| match c.actions.first() { Some(Action::Call { args, .. }) => Some(super::custody::args(&String::from_utf8_lossy(args))), _ => None });
                let to = if method == "near_withdraw" { cba.as_ref().map(|c| c["sender_id"].as_str().unwrap_or("").to_string()).unwrap_or_default() } else { a["receiver_id"].as_str().unwrap_or("").to_string() };
                let o = Out { rid: r.id, cb, token: r.receiver.clone(), amount: num(&a["amount"]), to, method: method.clone(), origin: st.ev.method.clone(), msg: a["msg"].as_str().map(|x| x.to_string()) };
                if let Some(c) = cb { ensure!(self.by_cb.insert(c, o.clone()).is_none(), "two payouts settle in one callback: {}", fmt_ev(&st.ev)); }
                self.known.insert(r.id, o.clone());
                v.push(o);
            }
        }
        Ok(v)
    }
    /// the settling callback: exactly nothing on success, exactly the amount once on failure
    pub fn settle(&mut self, w: &World, st: &Step) -> Result<Option<(Out, String)>, String> {
        if st.ev.receiver != EX { if st.ev.pred == EX && w.toks.contains_key(&st.ev.receiver) && st.ev.ok.is_ok() && matches!(st.ev.method.as_str(), "ft_transfer" | "ft_transfer_call" | "near_withdraw") { ensure!(self.known.contains_key(&st.ev.rid), "unexplained payout {}", fmt_ev(&st.ev)); } return Ok(None); }
        let o = match self.by_cb.remove(&st.ev.rid) { Some(o) => o, None => return Ok(None) };
        self.settled += 1;
        ensure!(st.ev.ok.is_ok(), "the callback of a payout of {} {} to {} failed, so a failed transfer can never be credited back: {}", o.amount, o.token, o.to, fmt_ev(&st.ev));
        let paid = matches!(w.ch.results.get(&o.rid), Some(PRes::Ok(_)));
        if paid {
            if let Some(d) = only(&st.pre, &st.post, |_| ()) { return Err(format!("a payout that succeeded ({:?}) was also credited: {}", o, d)); }
            let near: Vec<(String, u128)> = w.ch.pending.iter().filter(|r| st.ev.created.contains(&r.id)).map(|r| (r.receiver.clone(), match r.actions.first() { Some(Action::Transfer(d)) => *d, _ => 0 })).collect();
            if o.method == "near_withdraw" { ensure!(near == vec![(o.to.clone(), o.amount)], "unwrapped {} for {} but sent {:?}", o.amount, o.to, near); } else { ensure!(near.is_empty(), "callback of a delivered payout sends {:?}", near); }
            return Ok(Some((o, "paid".into())));
        }
        ensure!(st.ev.created.is_empty(), "callback of a failed payout starts new receipts: {}", fmt_ev(&st.ev));
        // where it may go
        let (t, a, x) = (o.token.clone(), o.to.clone(), o.amount);
        let can_hold = match st.pre.storage.get(&a) { None => false, Some((d, u)) => st.pre.dep.get(&a).map_or(false, |m| m.contains_key(&t)) || u + 148 * BYTE <= *d };
        let acc = &w.ch.accounts[EX];
        let free = acc.balance.saturating_sub(acc.usage as u128 * BYTE);
        let places: Vec<&str> = if can_hold { vec!["account"] } else if free > 101 * NEAR { vec!["lostfound"] } else if free < 99 * NEAR { vec!["owner"] } else { vec!["lostfound", "owner"] };
        for pl in &places {
            let d = only(&st.pre, &st.post, |e| match *pl { "account" => add2(&mut e.dep, &a, &t, x), "lostfound" => add2(&mut e.lost, &a, &t, x), _ => add2(&mut e.dep, st.pre.meta["owner"].as_str().unwrap_or(OWNER), &t, x) });
            if d.is_none() { return Ok(Some((o, format!("back to {}", pl)))); }
        }
        let d = only(&st.pre, &st.post, |_| ()).unwrap_or_else(|| "nothing".into());
        Err(format!("a failed payout of {} {} to {} has to reappear in its {:?}; what changed: {}", x, t, a, places, d))
    }
}
pub const BYTE: u128 = 10_000_000_000_000_000_000;

/// sometimes the exchange holds little NEAR of its own, so that lostfound entries are not affordable
fn maybe_poor(w: &mut World, r: &mut Rng) { if r.p(25) { let a = w.ch.accounts.get_mut(EX).unwrap(); a.balance = a.usage as u128 * BYTE + 40 * NEAR; } }
/// a world with users that have little storage paid
fn shrink_storage(w: &mut World, r: &mut Rng) { for u in [USERS[2], USERS[3], LIQ].iter() { if r.p(70) { let _ = w.quiet(u, "storage_withdraw", json!({}), 1); w.drain(); } } }

// ------------------------------------------------------------------ C14
struct M14 { pay: Payouts, direct: bool }
impl Monitor for M14 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        if self.direct && r.permille(30) { // forged settlement
            let u = *r.pick(&USERS); let t = w.toks.keys().nth(r.us(w.toks.len())).unwrap().clone();
            return Some(gen::op(u, if r.p(50) { "exchange_callback_post_withdraw" } else { "exchange_callback_post_withdraw_near" }, json!({"token_id":t,"sender_id":u,"amount":"1000"}), 0));
        }
        if self.direct && r.permille(120) { // payouts to someone who cannot hold anything, and his claims
            let g = "ghost.near";
            let lost: Vec<String> = s.lost.get(g).map(|m| m.iter().filter(|x| *x.1 > 0).map(|x| x.0.clone()).collect()).unwrap_or_default();
            if !lost.is_empty() && r.p(35 * lost.len().min(2) as u64) {
                let t = r.pick(&lost).clone();
                if r.p(60) { w.ch.mock(&t).ft().bal.entry(g.into()).or_insert(0); } else { w.ch.mock(&t).ft().bal.remove(g); }
                return Some(gen::op(g, "claim_lostfound", json!({"token_id":t}), 1));
            }
            let ps: Vec<usize> = (0..s.pools.len()).filter(|p| s.pools[*p].kind == PK::Simple && s.pools[*p].supply > 0).collect();
            if ps.is_empty() { return None; }
            let p = *r.pick(&ps); let k = r.us(2);
            let (a, b) = (s.pools[p].tokens[k].clone(), s.pools[p].tokens[1 - k].clone());
            let u = *r.pick(&USERS);
            let x = w.ch.mock(&a).ft().get(u).min(s.pools[p].amounts[k] / 50);
            if x == 0 { return None; }
            w.ch.mock(&b).ft().bal.remove(g);
            return Some(gen::op_at(u, &a, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":json!({"actions":[{"pool_id":p,"token_in":a,"token_out":b,"min_amount_out":"0"}],"swap_out_recipient":g}).to_string()}), 1));
        }
        if r.permille(60) { // leave nothing behind in the middle of a withdrawal
            let u = *r.pick(&[USERS[2], USERS[3]]);
            let held: Vec<(String, u128)> = s.dep.get(u).map(|m| m.iter().filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), *v)).collect()).unwrap_or_default();
            if held.len() > 2 {
                let last = held.iter().position(|x| x.0 == WNEAR).filter(|_| r.p(60)).unwrap_or(0);
                for (i, (t, _)) in held.iter().enumerate() { if i != last { let _ = w.ch.send(u, EX, "withdraw", json!({"token_id":t,"amount":"0","unregister":true,"skip_unwrap_near":true}), 1); } }
                let t = held[last].0.clone();
                let a = json!({"token_id":t,"amount":"0","unregister":true,"skip_unwrap_near":t != WNEAR || r.p(20)});
                if r.p(50) { let _ = w.ch.send(u, EX, "withdraw", a, 1); return Some(gen::op(u, "storage_unregister", json!({}), 1)); }
                return Some(gen::op(u, "withdraw", a, 1));
            }
            return Some(gen::op(u, "storage_unregister", json!({}), 1));
        }
        None
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        let m = ev.method.as_str();
        // lostfound entries are only taken by their own claim, and only appear when a payout failed
        let cb = self.by(ev.rid);
        if let Some((o, how)) = self.pay.settle(w, st)? {
            env.rep.eval(&format!("{} {} {}", o.origin, o.method, how), Some(hash64(format!("{}{}{}{}{}", o.origin, o.method, how, o.token, lg(o.amount) / 8).as_bytes())));
            env.rep.sample(&format!("{} {}", o.origin, how), || json!(fmt_ev(ev)));
        } else if m != "claim_lostfound" || ev.receiver != EX {
            ensure!(st.pre.lost == st.post.lost, "lostfound entries changed by {}", fmt_ev(ev));
        }
        let _ = cb;
        let outs = self.pay.created(w, st)?;
        if ev.receiver == EX && ev.ok.is_ok() && (m == "withdraw" || m == "claim_lostfound" || m == "withdraw_owner_token") {
            let a = args(&ev.args);
            let t = a["token_id"].as_str().unwrap_or("").to_string();
            let from = if m == "withdraw_owner_token" { OWNER.to_string() } else { ev.pred.clone() };
            let x = if m == "claim_lostfound" { st.pre.lostf(&from, &t) } else { let y = num(&a["amount"]); if y == 0 && m == "withdraw" { st.pre.deposit(&from, &t) } else { y } };
            ensure!(x > 0, "a payout of nothing was accepted: {}", fmt_ev(ev));
            let mut enough = true;
            let d = only(&st.pre, &st.post, |e| if m == "claim_lostfound" { enough = sub2(&mut e.lost, &from, &t, x) } else { enough = sub2(&mut e.dep, &from, &t, x) });
            ensure!(enough, "{} paid {} although only {} was there", fmt_ev(ev), x, st.pre.deposit(&from, &t));
            if let Some(d) = d { return Err(format!("{} has to take exactly {} from {}: {}", fmt_ev(ev), x, from, d)); }
            ensure!(outs.len() == 1 && outs[0].token == t && outs[0].amount == x && outs[0].to == from && outs[0].cb.is_some() && outs[0].method != "ft_transfer_call", "{} has to start exactly one payout of {} {} to {}, started {:?}", fmt_ev(ev), x, t, from, outs);
            let unwrap = t == WNEAR && a["skip_unwrap_near"] == json!(false) && m != "claim_lostfound";
            ensure!((outs[0].method == "near_withdraw") == unwrap, "{} pays through {}", fmt_ev(ev), outs[0].method);
            ensure!(st.ev.created.len() == 2, "{} starts {} receipts", fmt_ev(ev), st.ev.created.len());
            env.rep.eval(&format!("{} started", m), Some(hash64(format!("s{}{}{}{}", m, t, unwrap, lg(x) / 8).as_bytes())));
        } else if m.starts_with("exchange_callback") && ev.pred != EX { ensure!(ev.ok.is_err(), "a payout callback was accepted from {}", ev.pred); env.rep.eval("forged callback", Some(hash64(m.as_bytes()))); }
        else if ev.receiver == EX && (m == "withdraw" || m == "claim_lostfound") { if let Some(d) = only(&st.pre, &st.post, |_| ()) { return Err(format!("failed {} changed {}", m, d)); } env.rep.eval(&format!("{} refused", m), None); }
        Ok(())
    }
}
impl M14 { fn by(&self, rid: usize) -> bool { self.pay.by_cb.contains_key(&rid) } }
fn c14(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 2 + r.us(3), stable: 1, rated: r.p(15), degen: r.p(15), overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    maybe_poor(&mut w, &mut r); shrink_storage(&mut w, &mut r);
    w.ch.pending.clear();
    w.ch.add_user("ghost.near", 100 * NEAR); w.accts.push("ghost.near".into());
    let mut m = M14 { pay: Payouts::default(), direct: true };
    let mix = Mix::all().with(&[(gen::M_WITHDRAW, 30), (gen::M_FAULT, 14), (gen::M_CLAIM, 12), (gen::M_STORAGE, 5), (gen::M_REGTOK, 4), (gen::M_GUARD, 1), (gen::M_INSTANT, 6), (gen::M_TREASURY, 4), (gen::M_ADD, 2), (gen::M_HOTZAP, 1), (gen::M_SHADOW, 1), (gen::M_AMP, 0), (gen::M_PRICE, 0)]);
    let n = if env.tier == "thorough" { 150 } else { 90 };
    soup_m(env, &mut w, &mut r, &SoupCfg { n, flags: F_MONEY, mix, conc: 0 }, &mut m)?;
    if !m.pay.by_cb.is_empty() { *env.story = w.story(60); }
    ensure!(m.pay.by_cb.is_empty(), "payouts never settled: {:?}", m.pay.by_cb.values().next());
    Ok(())
}

// ------------------------------------------------------------------ C15
/// hops and final holdings of a batch started by a transfer, from a copy of the world
fn expect_instant(w: &World, t: &str, amount: u128, acts: &[Value], rf: &Value) -> Option<Result<BTreeMap<String, u128>, String>> {
    let mut f = w.clone();
    f.ch.ts += f.ch.dt; f.ch.dt = 0; f.keep_oplog = false;
    for (_, x) in f.toks.clone().iter().enumerate() { let m = f.ch.mock(x.0).ft(); m.fail = false; m.deny.clear(); }
    f.ch.pending.clear();
    let u = "shadowrunner.near";
    f.ch.add_user(u, 1000 * NEAR); f.accts.push(u.into());
    let k = f.quiet(u, "storage_deposit", json!({}), 10 * NEAR);
    if k.is_err() { return None; }
    let output = acts[0].get("amount_out").map_or(false, |x| !x.is_null()) || acts[0].get("max_amount_in").is_some();
    for a in acts { for k in ["token_in", "token_out"].iter() { let x = a[*k].as_str()?.to_string(); if !f.toks.contains_key(&x) { return None; } if f.deposit_of(u, &x) == 0 {
        let _ = f.quiet(u, "register_tokens", json!({"token_ids":[x]}), 1);
        f.mint(&x, u, deals::TOP);
        f.ch.mock(&x).ft().bal.entry(EX.into()).or_insert(0);
        let id = f.ch.send(u, &x, "ft_transfer_call", json!({"receiver_id":EX,"amount":deals::TOP.to_string(),"msg":""}), 1);
        let _ = id; f.drain();
        if f.deposit_of(u, &x) == 0 { return None; } // frozen or paused
    } } }
    let hops: Vec<Hop> = match if output { deals::seq_output(&mut f, u, acts, rf) } else { deals::seq_forward(&mut f, u, acts, Some(amount), rf) } { Ok(h) => h, Err(deals::POOR) => return None, Err(k) => return Some(Err(format!("step {} fails alone", k))) };
    let mut ut = BTreeMap::new(); ut.insert(t.to_string(), amount);
    let b = Batch { op: gen::op(u, "", Value::Null, 0), acts: acts.to_vec(), via: 2, u: u.into(), use_tokens: ut, rf: rf.clone(), output };
    Some(match deals::virtual_run(&b, &hops) { Some(v) => Ok(v), None => Err("spends more than it was given".into()) })
}
struct M15 { pay: Payouts, expect: Option<(usize, Option<Result<BTreeMap<String, u128>, String>>)>, refunds: HashMap<usize, u128> }
impl Monitor for M15 {
    fn before(&mut self, w: &mut World, rc: &Receipt) {
        self.expect = None;
        if rc.receiver != EX { return; }
        if let Some(Action::Call { method, args: ra, .. }) = rc.actions.first() {
            if method != "ft_on_transfer" { return; }
            let a = args(&String::from_utf8_lossy(ra));
            let m = args(a["msg"].as_str().unwrap_or(""));
            if let Some(acts) = m["actions"].as_array() { if !acts.is_empty() { self.expect = Some((rc.id, expect_instant(w, &rc.pred, num(&a["amount"]), acts, &m["referral_id"]))); } }
        }
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if let Some((o, how)) = self.pay.settle(w, st)? { if o.origin == "ft_on_transfer" { env.rep.eval(&format!("delivery {} {}", o.method, how), Some(hash64(format!("{}{}{}", o.method, how, o.token).as_bytes()))); } }
        let outs = self.pay.created(w, st)?;
        if ev.receiver != EX || ev.method != "ft_on_transfer" {
            if let Some(x) = self.refunds.remove(&ev.rid) { let used = ev.ok.as_ref().ok().and_then(|s| s.trim_matches('"').parse::<u128>().ok()); ensure!(used == Some(0), "a rejected transfer of {} was not returned in full: {}", x, fmt_ev(ev)); env.rep.eval("refund of a rejected transfer", Some(hash64(format!("r{}{}", ev.receiver, lg(x) / 16).as_bytes()))); }
            return Ok(());
        }
        let a = args(&ev.args);
        let msg = args(a["msg"].as_str().unwrap_or(""));
        let amount = num(&a["amount"]);
        if ev.ok.is_err() {
            if let Some(d) = only(&st.pre, &st.post, |_| ()) { return Err(format!("rejected transfer changed {}", d)); }
            // the token's resolve receipt is the sibling that depends on this one
            if let Some(rc) = w.ch.pending.iter().find(|r| r.deps.contains(&ev.rid) && r.receiver == ev.pred) { self.refunds.insert(rc.id, amount); }
            return Ok(());
        }
        if !msg["actions"].is_array() { return Ok(()); }
        ensure!(ev.ok.as_ref().unwrap().trim_matches('"') == "0", "an accepted swap also refunds: {}", fmt_ev(ev));
        let sender = a["sender_id"].as_str().unwrap().to_string();
        let to = msg["swap_out_recipient"].as_str().unwrap_or(&sender).to_string();
        let echo = msg["client_echo"].as_str().map(|x| x.to_string());
        // the swap itself never touches accounts
        ensure!(st.pre.dep == st.post.dep && st.pre.lost == st.post.lost, "a transfer-started swap changed internal balances: {}", fmt_ev(ev));
        match self.expect.take() {
            Some((id, Some(v))) if id == ev.rid => {
                let v = match v { Ok(v) => v, Err(e) => return Err(format!("a transfer-started swap succeeded although {}: {}", e, fmt_ev(ev))) };
                let want: BTreeMap<String, u128> = v.into_iter().filter(|x| x.1 > 0).collect();
                let mut got: BTreeMap<String, u128> = BTreeMap::new();
                for o in &outs { ensure!(got.insert(o.token.clone(), o.amount).is_none(), "two deliveries of {}: {}", o.token, fmt_ev(ev)); }
                ensure!(got == want, "the swap ends with {:?} but {:?} is sent out: {}", want, got, fmt_ev(ev));
                env.rep.eval("swap started by a transfer", Some(hash64(format!("{}{}{}{}{}{}", want.len(), echo.is_some(), to == sender, msg["skip_unwrap_near"], msg["actions"].as_array().unwrap().len(), deals::kinds(&st.pre, msg["actions"].as_array().unwrap(), "pool_id")).as_bytes())));
                env.rep.sample(&format!("echo {} recipient {}", echo.is_some(), to == sender), || json!(fmt_ev(ev)));
            }
            _ => { env.rep.eval("swap without an independent expectation", None); }
        }
        for o in &outs {
            ensure!(o.to == to && o.cb.is_some(), "output goes to {} instead of {}: {}", o.to, to, fmt_ev(ev));
            let want = if echo.is_some() { "ft_transfer_call" } else if o.token == WNEAR && msg["skip_unwrap_near"] == json!(false) { "near_withdraw" } else { "ft_transfer" };
            ensure!(o.method == want && (echo.is_none() || o.msg == echo), "output is delivered by {} (message {:?}) instead of {}: {}", o.method, o.msg, want, fmt_ev(ev));
        }
        Ok(())
    }
}
fn c15(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 3 + r.us(3), stable: 1 + r.us(2), rated: r.p(30), degen: r.p(30), overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    maybe_poor(&mut w, &mut r);
    if r.p(30) { shrink_storage(&mut w, &mut r); }
    let mut m = M15 { pay: Payouts::default(), expect: None, refunds: HashMap::new() };
    let mix = Mix::only(&[(gen::M_INSTANT, 40), (gen::M_FAULT, 6), (gen::M_SWAP, 4), (gen::M_ADD, 3), (gen::M_DEPOSIT, 3), (gen::M_HOTZAP, 3), (gen::M_GUARD, 1), (gen::M_FEES, 1), (gen::M_STORAGE, 1), (gen::M_PRICE, 2), (gen::M_TIME, 1), (gen::M_CLAIM, 2)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 45, flags: F_MONEY, mix, conc: 0 }, &mut m)?;
    if !m.pay.by_cb.is_empty() { *env.story = w.story(60); }
    ensure!(m.pay.by_cb.is_empty(), "deliveries never settled");
    Ok(())
}

// ------------------------------------------------------------------ C16
struct M16 { resolve: HashMap<usize, (Value, String, String, u128, usize)> }
fn pool_of(t: &str) -> Option<usize> { t.strip_prefix(':').and_then(|x| x.parse().ok()) }
fn moved(e: &mut Snap, t: &str, from: &str, to: &str, x: u128) -> bool {
    match pool_of(t) {
        Some(p) => { let b = e.share(p, from); if b < x { return false; } e.shares[p].insert(from.into(), b - x); *e.shares[p].entry(to.into()).or_insert(0) += x; true }
        None => { if !sub2(&mut e.dep, from, t, x) { return false; } add2(&mut e.dep, to, t, x); true }
    }
}
impl Monitor for M16 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        // a sender who closes his account while the transfer is being answered
        let g = "ghost.near";
        if s.registered(g) && r.p(70) && self.resolve.values().any(|v| v.1 == g) { return Some(gen::op(g, "storage_unregister", json!({}), 1)); }
        if r.p(7) {
            let (p, c) = (r.us(s.pools.len()), *r.pick(&[BOOST, BURROW]));
            let _ = w.quiet(g, "storage_deposit", json!({}), NEAR / 50);
            if !s.registered(c) && r.p(60) { let _ = w.quiet(c, "storage_deposit", json!({}), NEAR / 50); }
            for a in [g, c] { if !s.shares[p].contains_key(a) { let _ = w.quiet(a, "mft_register", json!({"token_id":format!(":{}", p),"account_id":a}), NEAR / 50); } }
            let f = s.free(g, p);
            if f == 0 {
                let u = *r.pick(&USERS); let x = r.amount(s.free(u, p).max(1));
                return Some(gen::op(u, "mft_transfer", json!({"token_id":format!(":{}", p),"receiver_id":g,"amount":x.to_string()}), 1));
            }
            let x = r.amount(f).min(f).max(1);
            let a = Answer::json(json!(r.amount(x).to_string()));
            if let Mock::Script(sc) = w.ch.mock(c) { sc.answers.insert("mft_on_transfer".into(), a); }
            return Some(gen::op(g, "mft_transfer_call", json!({"token_id":format!(":{}", p),"receiver_id":c,"amount":x.to_string(),"msg":"m"}), 1));
        }
        if r.p(12) { // the receiver acts before it answers
            let c = *r.pick(&[BOOST, BURROW]);
            let p = r.us(s.pools.len());
            let x = r.amount(s.share(p, c).max(1 << 40));
            let emit = match r.below(4) {
                0 => vec![(EX.to_string(), "mft_transfer".to_string(), json!({"token_id":format!(":{}", p),"receiver_id":*r.pick(&USERS),"amount":x.to_string()}), 1)],
                1 => vec![(EX.to_string(), "donation_share".to_string(), json!({"pool_id":p,"amount":x.to_string()}), 1)],
                2 => vec![(EX.to_string(), "remove_liquidity".to_string(), json!({"pool_id":p,"shares":x.to_string(),"min_amounts":js(&vec![0u128; s.pools[p].tokens.len()])}), 1)],
                _ => vec![(EX.to_string(), "shadow_action".to_string(), json!({"action":"ToFarming","pool_id":p,"amount":x.to_string(),"msg":""}), NEAR / 50)],
            };
            let reply = match r.below(4) { 0 => Reply::Json(json!("0")), 1 => Reply::Json(json!(u128::MAX.to_string())), 2 => Reply::Raw(b"{".to_vec()), _ => Reply::Json(json!(r.amount(1 << 80).to_string())) };
            if let Mock::Script(sc) = w.ch.mock(c) { sc.answers.insert("mft_on_transfer".into(), Answer { emit, reply, forward_last: false }); }
            return None;
        }
        if r.p(4) { let c = *r.pick(&[BOOST, BURROW]); let dep = NEAR / 5; if w.ch.bal(c) > dep { return Some(gen::op(c, "storage_deposit", json!({}), dep)); } }
        if r.p(8) { // answers around what was sent
            let c = *r.pick(&[BOOST, BURROW]);
            let a = Answer::json(json!((1u128 << r.below(100)).to_string()));
            if let Mock::Script(sc) = w.ch.mock(c) { sc.answers.insert("mft_on_transfer".into(), a); }
        }
        if r.p(5) { let u = *r.pick(&USERS); let p = r.us(s.pools.len()); if s.share(p, u) == 0 { return Some(gen::op(u, "mft_unregister", json!({"token_id":format!(":{}", p)}), 1)); } }
        None
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if ev.receiver != EX { return Ok(()); }
        let a = args(&ev.args);
        match ev.method.as_str() {
            "mft_transfer" | "mft_transfer_call" | "mft_transfer_all_call" => {
                let t = a["token_id"].as_str().unwrap_or("").to_string();
                let (from, to) = (ev.pred.clone(), a["receiver_id"].as_str().unwrap_or("").to_string());
                if ev.ok.is_err() { if let Some(d) = only(&st.pre, &st.post, |_| ()) { return Err(format!("failed transfer changed {}", d)); }
                    if let Some(p) = pool_of(&t).filter(|p| *p < st.pre.pools.len()) {
                        let free = st.pre.free(&from, p);
                        let x = if ev.method == "mft_transfer_all_call" { free } else { num(&a["amount"]) };
                        let due = ev.deposit == 1 && st.pre.meta["state"] == json!("Running") && from != to && x > 0 && x <= free && w.v("mft_has_registered", json!({"token_id":t,"account_id":to})) == json!(true);
                        ensure!(!due, "transfer of {} of {} free shares to a registered receiver refused: {}", x, free, fmt_ev(ev));
                    }
                    env.rep.eval("refused transfer", None); return Ok(()); }
                let p = pool_of(&t);
                let all = ev.method == "mft_transfer_all_call";
                let x = if all { st.pre.free(&from, p.ok_or("transfer of all of a plain token")?) } else { num(&a["amount"]) };
                ensure!(from != to, "transfer to oneself accepted: {}", fmt_ev(ev));
                if let Some(p) = p {
                    ensure!(x > 0 && x <= st.pre.free(&from, p), "{} moved {} although {} of {} are free", fmt_ev(ev), x, st.pre.free(&from, p), st.pre.share(p, &from));
                }
                let mut ok = true;
                let d = only(&st.pre, &st.post, |e| ok = moved(e, &t, &from, &to, x));
                ensure!(ok, "transfer of {} beyond the balance accepted: {}", x, fmt_ev(ev));
                if let Some(d) = d { return Err(format!("{} has to move exactly {} of {} from {} to {}: {}", fmt_ev(ev), x, t, from, to, d)); }
                if ev.method != "mft_transfer" {
                    let rs: Vec<&Receipt> = w.ch.pending.iter().filter(|r| ev.created.contains(&r.id)).collect();
                    ensure!(rs.len() == 2, "transfer-call started {} receipts", rs.len());
                    let cargs = |r: &Receipt| match r.actions.first() { Some(Action::Call { method, args: x, .. }) => (method.clone(), args(&String::from_utf8_lossy(x))), _ => (String::new(), Value::Null) };
                    let (m0, a0) = cargs(rs[0]);
                    ensure!(rs[0].receiver == to && m0 == "mft_on_transfer" && num(&a0["amount"]) == x && a0["sender_id"] == json!(from) && a0["token_id"] == json!(t), "receiver is told {} {:?}", m0, a0);
                    self.resolve.insert(rs[1].id, (json!(t), from.clone(), to.clone(), x, rs[0].id));
                } else { ensure!(ev.created.is_empty(), "plain transfer starts receipts"); }
                env.rep.eval(&ev.method, Some(hash64(format!("{}{}{}{}", ev.method, p.is_some(), lg(x) / 4, to).as_bytes())));
                env.rep.sample(&ev.method, || json!(fmt_ev(ev)));
            }
            "mft_resolve_transfer" => {
                let (t, from, to, x, told) = match self.resolve.remove(&ev.rid) { Some(v) => v, None => { ensure!(ev.ok.is_err(), "resolve accepted out of turn: {}", fmt_ev(ev)); return Ok(()); } };
                let t = t.as_str().unwrap().to_string();
                let unused = match w.ch.results.get(&told) { Some(PRes::Ok(v)) => serde_json::from_slice::<Value>(v).ok().and_then(|v| v.as_str().and_then(|s| s.parse::<u128>().ok())).map(|y| y.min(x)).unwrap_or(x), _ => x };
                let held = match pool_of(&t) { Some(p) => st.pre.share(p, &to), None => st.pre.deposit(&to, &t) };
                let back = unused.min(held);
                let target = if st.pre.registered(&from) { from.clone() } else { EX.to_string() };
                if ev.ok.is_err() {
                    if let Some(d) = only(&st.pre, &st.post, |_| ()) { return Err(format!("failed resolve changed {}", d)); }
                    // only a refund that cannot be moved may stay with the receiver
                    let stuck = match pool_of(&t) { Some(p) => back > st.pre.free(&to, p) || to == target || w.v("mft_has_registered", json!({"token_id":t,"account_id":target})) == json!(false), None => true };
                    ensure!(stuck, "refund of {} unused {} to {} was refused: {}", back, t, target, fmt_ev(ev));
                    env.rep.eval("resolve could not refund", Some(hash64(format!("stuck{}", pool_of(&t).is_some()).as_bytes())));
                    return Ok(());
                }
                let d = only(&st.pre, &st.post, |e| { if back > 0 { moved(e, &t, &to, &target, back); } });
                if let Some(d) = d { return Err(format!("receiver reported {} of {} unused and holds {}: exactly {} has to go from {} to {}: {}", unused, x, held, back, to, target, d)); }
                env.rep.eval(&format!("resolve {}", if unused == 0 { "nothing unused" } else if back < unused { "receiver no longer holds it" } else if unused < x { "part unused" } else { "all unused" }), Some(hash64(format!("{} {} {} {}", unused == 0, back < unused, target == from, lg(back) / 4).as_bytes())));
                env.rep.sample(&format!("resolve {}", back < unused), || json!(fmt_ev(ev)));
            }
            _ => {}
        }
        Ok(())
    }
}
fn c16(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 2 + r.us(2), stable: 1, rated: r.p(20), degen: r.p(20), overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    w.ch.add_user("ghost.near", 100 * NEAR); w.accts.push("ghost.near".into());
    let mut m = M16 { resolve: HashMap::new() };
    let mix = Mix::only(&[(gen::M_MFT, 22), (gen::M_MFTCALL, 30), (gen::M_SHADOW, 6), (gen::M_FAULT, 6), (gen::M_ADD, 6), (gen::M_REMOVE, 3), (gen::M_STORAGE, 2), (gen::M_DONATE, 2), (gen::M_DEPOSIT, 2), (gen::M_LIQ, 1)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 110, flags: F_MONEY, mix, conc: 0 }, &mut m)?;
    ensure!(m.resolve.is_empty(), "transfer-calls never resolved");
    Ok(())
}

// ------------------------------------------------------------------ C17 / C18
/// what one receipt may do to the pledge records
struct M17 { pend: HashMap<usize, (String, String, usize, u128, usize)>, only_liq: bool }
fn shad_set(e: &mut Snap, a: &str, p: usize, f: u128, b: u128) { let m = e.shadow.entry(a.into()).or_default(); if f == 0 && b == 0 { m.remove(&(p as u64)); } else { m.insert(p as u64, (f, b)); } if m.is_empty() { e.shadow.remove(a); } }
impl Monitor for M17 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        // try to move pledged shares in every way
        if r.p(35) {
            let c: Vec<(String, usize)> = s.shadow.iter().flat_map(|(a, m)| m.keys().map(move |p| (a.clone(), *p as usize))).collect();
            if c.is_empty() { return None; }
            let (u, p) = r.pick(&c).clone();
            if !w.ch.accounts.contains_key(&u) { return None; }
            let (tot, free) = (s.share(p, &u), s.free(&u, p));
            let x = match r.below(6) { 0 => free, 1 => free.saturating_add(1), 2 => tot, 3 => tot.saturating_sub(1), _ => r.amount(tot.max(1)) }.max(1);
            let n = s.pools[p].tokens.len();
            return Some(match r.below(if self.only_liq { 2 } else { 8 }) {
                0 => gen::op(&u, "mft_transfer", json!({"token_id":format!(":{}", p),"receiver_id":EX,"amount":x.to_string()}), 1),
                1 => gen::op(&u, "remove_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":js(&vec![0u128; n])}), 1),
                2 => gen::op(&u, "mft_transfer_call", json!({"token_id":format!(":{}", p),"receiver_id":*r.pick(&[BOOST, BURROW]),"amount":x.to_string(),"msg":""}), 1),
                3 => { let mut a = json!({"pool_id":p}); if r.p(70) { a["amount"] = json!(x.to_string()); } if r.p(30) { a["unregister"] = json!(true); } gen::op(&u, "donation_share", a, 1) }
                4 => { let am: Vec<u128> = s.pools[p].amounts.iter().map(|y| crate::math::muldiv(*y, x, s.pools[p].supply.max(1))).collect(); gen::op(&u, "remove_liquidity_by_tokens", json!({"pool_id":p,"amounts":js(&am),"max_burn_shares":u128::MAX.to_string()}), 1) }
                5 => gen::op(&u, "mft_transfer_all_call", json!({"token_id":format!(":{}", p),"receiver_id":*r.pick(&[BOOST, BURROW]),"msg":""}), 1),
                6 => gen::op(&u, "mft_unregister", json!({"token_id":format!(":{}", p)}), 1),
                _ => gen::op(&u, "storage_unregister", json!({"force":r.p(50)}), 1),
            });
        }
        if r.permille(15) { let u = *r.pick(&USERS); let act = *r.pick(&["ToFarming", "FromFarming", "ToBurrowland", "FromBurrowland"]); return Some(gen::op(u, "callback_on_shadow", json!({"action":act,"sender_id":u,"pool_id":r.us(s.pools.len()),"amount":"5","storage_fee":"0"}), 0)); }
        None
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        let m = ev.method.as_str();
        let a = args(&ev.args);
        let exok = ev.receiver == EX && ev.ok.is_ok();
        let mut exp = (*st.pre).clone();
        let mut key = None;
        let touched = ev.receiver == EX && matches!(m, "shadow_action" | "callback_on_shadow" | "on_burrow_liquidation");
        if ev.receiver == EX && ev.ok.is_err() && m == "callback_on_shadow" && ev.pred == EX {
            if let Some((act, u, p, x, told)) = self.pend.remove(&ev.rid) {
                let ok = matches!(w.ch.results.get(&told), Some(PRes::Ok(_)));
                let (f, b) = st.pre.shad(&u, p as u64);
                let rec = if act.ends_with("Farming") { f } else { b };
                let needed = if ok { act.starts_with("From") } else { act.starts_with("To") };
                ensure!(needed && rec < x || !st.pre.registered(&u), "the settlement of {} {} for {} failed: {}", act, x, u, fmt_ev(ev));
                env.rep.eval("settlement overtaken by liquidation", None);
            }
        }
        if exok && m == "shadow_action" {
            let act = a["action"].as_str().unwrap().to_string(); let p = a["pool_id"].as_u64().unwrap() as usize;
            let (u, (f, b), tot) = (ev.pred.clone(), st.pre.shad(&ev.pred, p as u64), st.pre.share(p, &ev.pred));
            let lim = match act.as_str() { "ToFarming" => tot - f, "ToBurrowland" => tot - b, "FromFarming" => f, _ => b };
            let x = if a["amount"].is_null() { lim } else { num(&a["amount"]) };
            ensure!(x > 0 && x <= lim, "{} of {} accepted although only {} is available: {}", act, x, lim, fmt_ev(ev));
            match act.as_str() { "ToFarming" => shad_set(&mut exp, &u, p, f + x, b), "ToBurrowland" => shad_set(&mut exp, &u, p, f, b + x), _ => {} }
            let rs: Vec<Receipt> = w.ch.pending.iter().filter(|r| ev.created.contains(&r.id)).cloned().collect();
            let (peer, told) = (if act.ends_with("Farming") { BOOST } else { BURROW }, if act.starts_with("To") { "on_cast_shadow" } else { "on_remove_shadow" });
            let r0 = rs.iter().find(|r| r.receiver == peer);
            ensure!(r0.is_some(), "{} does not reach {}", fmt_ev(ev), peer);
            if let Some(Action::Call { method, args: ra, .. }) = r0.unwrap().actions.first() { let y = args(&String::from_utf8_lossy(ra)); ensure!(method == told && y["account_id"] == json!(u) && num(&y["amount"]) == x && y["shadow_id"] == json!(format!("shadow_ref_v1-{}", p)), "{} tells {} {:?}", fmt_ev(ev), method, y); }
            let cb = rs.iter().find(|r| r.receiver == EX && r.deps.contains(&r0.unwrap().id));
            ensure!(cb.is_some(), "{} has no settlement", fmt_ev(ev));
            self.pend.insert(cb.unwrap().id, (act.clone(), u, p, x, r0.unwrap().id));
            key = Some(hash64(format!("{}{}{}", act, f > b, lg(x) / 4).as_bytes()));
        }
        if exok && m == "callback_on_shadow" {
            match self.pend.remove(&ev.rid) {
                None => return Err(format!("pledge settlement accepted out of turn: {}", fmt_ev(ev))),
                Some((act, u, p, x, told)) => {
                    let ok = matches!(w.ch.results.get(&told), Some(PRes::Ok(_)));
                    let (f, b) = st.pre.shad(&u, p as u64);
                    let dec = if ok { act.starts_with("From") } else { act.starts_with("To") };
                    if dec { if act.ends_with("Farming") { ensure!(f >= x, "underflow"); shad_set(&mut exp, &u, p, f - x, b); } else { ensure!(b >= x, "underflow"); shad_set(&mut exp, &u, p, f, b - x); } }
                    key = Some(hash64(format!("cb{}{}{}", act, ok, lg(x) / 4).as_bytes()));
                }
            }
        }
        if ev.receiver == EX && m == "on_burrow_liquidation" { key = self.liquidation(w, st, &a, &mut exp, env)?; }
        if touched { if let Some(d) = only(&exp, &st.post, |_| ()) { return Err(format!("{}: {}", fmt_ev(ev), d)); } }
        else { ensure!(st.pre.shadow == st.post.shadow, "pledges changed from {:?} to {:?} by {}", st.pre.shadow, st.post.shadow, fmt_ev(ev)); }
        if !self.only_liq {
            for (u, ms) in &st.post.shadow { for (p, (f, b)) in ms {
                let tot = st.post.share(*p as usize, u);
                ensure!(*f <= tot && *b <= tot, "{} holds {} shares of pool {} but {} are pledged to farming and {} to lending, after {}", u, tot, p, f, b, fmt_ev(ev));
                // an attempt on shares partly pledged
                if ev.receiver == EX && ev.pred == *u && matches!(m, "mft_transfer" | "mft_transfer_call" | "mft_transfer_all_call" | "donation_share" | "remove_liquidity" | "remove_liquidity_by_tokens" | "storage_unregister" | "mft_unregister") { key = key.or(Some(hash64(format!("try{}{}{}", m, ev.ok.is_ok(), if tot == 0 { 0 } else { crate::math::muldiv((*f).max(*b), 16, tot) }).as_bytes()))); }
            } }
            env.rep.eval(if key.is_some() { m } else { "other receipt" }, key);
            if key.is_some() { env.rep.sample(&format!("{} {}", m, ev.ok.is_ok()), || json!(fmt_ev(ev))); }
        }
        Ok(())
    }
}
impl M17 {
    fn liquidation(&mut self, w: &World, st: &Step, a: &Value, exp: &mut Snap, env: &mut Env) -> Result<Option<u64>, String> {
        let ev = &st.ev;
        let (v, l) = (a["liquidation_account_id"].as_str().unwrap_or("").to_string(), a["liquidator_account_id"].as_str().unwrap_or("").to_string());
        let p = a["shadow_id"].as_str().unwrap_or("").rsplit('-').next().unwrap_or("").parse::<usize>().unwrap_or(usize::MAX);
        let x = num(&a["liquidate_share_amount"]);
        if p >= st.pre.pools.len() { ensure!(ev.ok.is_err(), "liquidation in an unknown pool"); return Ok(None); }
        let (f, b) = st.pre.shad(&v, p as u64);
        let ps = &st.pre.pools[p];
        let mins = nums(&a["min_token_amounts"]);
        let forbidden = ev.pred != BURROW || x > b || !st.pre.registered(&l) || ps.tokens.iter().any(|t| st.pre.frozen.contains(t));
        if ev.ok.is_err() {
            if self.only_liq { env.rep.eval(if forbidden { "refused liquidation that must be refused" } else { "refused liquidation" }, if b > 0 { Some(hash64(format!("ref{}{}{}", ev.pred == BURROW, x > b, f > 0).as_bytes())) } else { None }); }
            // must go through: lending contract, pledged amount, no minimums, liquidator can hold the tokens
            let room = st.pre.storage.get(&l).map_or(false, |(d, u)| u + 148 * BYTE * ps.tokens.len() as u128 <= *d) && st.pre.storage.get(&v).map_or(false, |(d, u)| u <= d);
            let keeps = ps.kind == PK::Simple || x * 1000 < ps.supply;
            ensure!(forbidden || !room || mins.iter().any(|y| *y > 0) || mins.len() != ps.tokens.len() || x == 0 || !keeps, "a rightful liquidation of {} by the lending contract is refused: {}", x, fmt_ev(ev));
            return Ok(None);
        }
        ensure!(!forbidden, "liquidation accepted although {}: {}", if ev.pred != BURROW { "the caller is not the lending contract" } else if x > b { "more than the pledge is named" } else { "it must not run" }, fmt_ev(ev));
        let tot = st.pre.share(p, &v);
        let f2 = f.min(tot - x);
        shad_set(exp, &v, p, f2, b - x);
        exp.shares[p].insert(v.clone(), tot - x);
        exp.pools[p].supply -= x;
        // payout: pro rata, learnt from the pool's change and bounded by it
        for (i, t) in ps.tokens.iter().enumerate() {
            let fair = crate::math::muldiv(if ps.c.is_empty() { ps.amounts[i] } else { ps.c[i] }, x, ps.supply) / unit(ps, i);
            let paid = st.post.deposit(&l, t) - st.pre.deposit(&l, t).min(st.post.deposit(&l, t));
            ensure!(paid <= fair && fair - paid <= 1, "liquidating {} of {} shares pays {} of {} ({} pooled): {}", x, ps.supply, paid, t, ps.amounts[i], fmt_ev(ev));
            ensure!(paid >= mins[i], "liquidator receives {} of {} although the minimum is {}", paid, t, mins[i]);
            let took = ps.amounts[i] - st.post.pools[p].amounts[i];
            ensure!(took >= paid && took - paid <= 1 + slack(ps, i), "pool gave {} of {} but {} was paid", took, t, paid);
            add2(&mut exp.dep, &l, t, paid);
        }
        exp.pools[p].amounts = st.post.pools[p].amounts.clone(); exp.pools[p].c = st.post.pools[p].c.clone();
        let told: Vec<Value> = w.ch.pending.iter().filter(|r| ev.created.contains(&r.id) && r.receiver == BOOST).filter_map(|r| match r.actions.first() { Some(Action::Call { method, args: ra, .. }) if method == "on_remove_shadow" => Some(args(&String::from_utf8_lossy(ra))), _ => None }).collect();
        if f > f2 { ensure!(told.len() == 1 && num(&told[0]["amount"]) == f - f2 && told[0]["account_id"] == json!(v) && told[0]["shadow_id"] == a["shadow_id"], "farming pledge shrank by {} but the farm is told {:?}", f - f2, told); } else { ensure!(told.is_empty(), "the farm is told {:?} although its pledge is unchanged", told); }
        let key = hash64(format!("liq{:?}{}{}{}{}", ps.kind, f > f2, b == x, l == v, lg(x) / 2).as_bytes());
        if self.only_liq { env.rep.eval(&format!("liquidation {}", if f > f2 { "with farm adjustment" } else { "without farm adjustment" }), Some(key)); env.rep.sample(&format!("liquidation {}", f > f2), || json!(fmt_ev(ev))); }
        Ok(Some(key))
    }
}
/// comparable units per native unit
fn unit(ps: &PoolS, i: usize) -> u128 { match ps.kind { PK::Simple => 1, PK::Stable => if ps.dec[i] < 18 { 10u128.pow(18 - ps.dec[i] as u32) } else { 1 }, _ => 10u128.pow(24 - ps.dec[i] as u32) } }
/// over-precise tokens lose up to one comparable unit per removal
fn slack(ps: &PoolS, i: usize) -> u128 { if ps.kind == PK::Stable && ps.dec[i] > 18 { 10u128.pow(ps.dec[i] as u32 - 18) } else { 1 } }
fn c17(env: &mut Env, mut r: Rng, _ep: u64) -> Res { shadows(env, &mut r, false) }
fn c18(env: &mut Env, mut r: Rng, _ep: u64) -> Res { shadows(env, &mut r, true) }
fn shadows(env: &mut Env, r: &mut Rng, only_liq: bool) -> Res {
    let sp = WorldSpec { simple: 1 + r.us(2), stable: 1, rated: r.p(25), degen: r.p(25), overprecise: false };
    let mut w = gen::world(env.codes, r, &sp);
    let mut m = M17 { pend: HashMap::new(), only_liq };
    let mix = if only_liq { Mix::only(&[(gen::M_LIQ, 30), (gen::M_SHADOW, 35), (gen::M_ADD, 6), (gen::M_SWAP, 4), (gen::M_REMOVE, 2), (gen::M_MFT, 2), (gen::M_FAULT, 2), (gen::M_GUARD, 1)]) }
        else { Mix::only(&[(gen::M_SHADOW, 35), (gen::M_LIQ, 5), (gen::M_ADD, 8), (gen::M_SWAP, 2), (gen::M_REMOVE, 5), (gen::M_REMTOK, 4), (gen::M_MFT, 6), (gen::M_MFTCALL, 5), (gen::M_DONATE, 4), (gen::M_FAULT, 6), (gen::M_STORAGE, 2), (gen::M_WITHDRAW, 2), (gen::M_HOTZAP, 1)]) };
    soup_m(env, &mut w, r, &SoupCfg { n: 110, flags: F_MONEY, mix, conc: 0 }, &mut m)?;
    ensure!(m.pend.is_empty(), "pledge settlements never ran");
    Ok(())
}

// ------------------------------------------------------------------ C32
struct M32 { expect: Option<(usize, Option<Result<(Vec<PoolS>, Vec<u128>), String>>)>, refunds: HashMap<usize, u128> }
/// the zap's swaps and additions executed one by one by its sender in a copy
fn expect_zap(w: &World, u: &str, amount: u128, m: &Value) -> Option<Result<(Vec<PoolS>, Vec<u128>), String>> {
    let acts = m["hot_zap_actions"].as_array()?.clone();
    let infos = m["add_liquidity_infos"].as_array()?.clone();
    if acts.is_empty() || infos.is_empty() || m["referral_id"] == json!(u) { return None; }
    let mut f = w.clone();
    f.ch.ts += f.ch.dt; f.ch.dt = 0; f.keep_oplog = false; f.ch.pending.clear();
    f.flags = F_MONEY; f.cached = None;
    if !f.read(F_STORAGE).registered(u) { return Some(Err("the sender is not registered".into())); }
    for t in f.toks.keys().cloned().collect::<Vec<_>>() { let x = f.ch.mock(&t).ft(); x.fail = false; x.deny.clear(); }
    f.ch.accounts.get_mut(u)?.balance += 100 * NEAR;
    let _ = f.quiet(u, "storage_deposit", json!({}), 10 * NEAR);
    let mut need: Vec<String> = acts.iter().flat_map(|a| vec![a["token_in"].as_str().unwrap_or("").to_string(), a["token_out"].as_str().unwrap_or("").to_string()]).collect();
    let s = f.snap();
    for i in &infos { let p = i["pool_id"].as_u64()? as usize; if p >= s.pools.len() { return None; } need.extend(s.pools[p].tokens.clone()); }
    need.sort(); need.dedup();
    for x in need {
        if !f.toks.contains_key(&x) { return None; }
        f.mint(&x, u, deals::TOP);
        let before = f.deposit_of(u, &x);
        f.ch.send(u, &x, "ft_transfer_call", json!({"receiver_id":EX,"amount":deals::TOP.to_string(),"msg":""}), 1);
        f.drain();
        if f.deposit_of(u, &x) == before { return None; }
    }
    let output = acts[0].get("amount_out").map_or(false, |x| !x.is_null());
    let sh0 = f.read(F_SHARES | F_POOLS);
    match if output { deals::seq_output(&mut f, u, &acts, &m["referral_id"]) } else { deals::seq_forward(&mut f, u, &acts, Some(amount), &m["referral_id"]) } { Ok(_) => {} Err(deals::POOR) => return None, Err(k) => return Some(Err(format!("swap {} fails alone", k))) }
    for i in &infos {
        let p = i["pool_id"].as_u64()? as usize;
        let rr = if s.pools[p].kind == PK::Simple {
            if i["min_amounts"].is_null() { return Some(Err("minimum amounts are missing".into())); }
            f.quiet(u, "add_liquidity", json!({"pool_id":p,"amounts":i["amounts"],"min_amounts":i["min_amounts"]}), NEAR)
        } else {
            if i["min_shares"].is_null() { return Some(Err("minimum shares are missing".into())); }
            f.quiet(u, "add_stable_liquidity", json!({"pool_id":p,"amounts":i["amounts"],"min_shares":i["min_shares"]}), NEAR)
        };
        f.ch.pending.clear();
        if rr.is_err() { return Some(Err("an addition fails alone".into())); }
    }
    let s2 = f.read(F_SHARES | F_POOLS);
    Some(Ok((s2.pools.clone(), (0..s2.pools.len()).map(|p| s2.share(p, u) - sh0.share(p, u)).collect())))
}
impl Monitor for M32 {
    fn before(&mut self, w: &mut World, rc: &Receipt) {
        self.expect = None;
        if rc.receiver != EX { return; }
        if let Some(Action::Call { method, args: ra, .. }) = rc.actions.first() {
            if method != "ft_on_transfer" { return; }
            let a = args(&String::from_utf8_lossy(ra));
            let m = args(a["msg"].as_str().unwrap_or(""));
            if m["hot_zap_actions"].is_array() { let u = a["sender_id"].as_str().unwrap().to_string(); self.expect = Some((rc.id, expect_zap(w, &u, num(&a["amount"]), &m))); }
        }
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if let Some(x) = self.refunds.remove(&ev.rid) { let used = ev.ok.as_ref().ok().and_then(|s| s.trim_matches('"').parse::<u128>().ok()); ensure!(used == Some(0), "a rejected hot zap of {} was not returned in full: {}", x, fmt_ev(ev)); env.rep.eval("refund of a rejected zap", Some(hash64(format!("r{}{}", ev.receiver, lg(x) / 16).as_bytes()))); }
        if ev.receiver != EX || ev.method != "ft_on_transfer" { return Ok(()); }
        let a = args(&ev.args);
        let m = args(a["msg"].as_str().unwrap_or(""));
        if !m["hot_zap_actions"].is_array() { return Ok(()); }
        let (u, t, amount) = (a["sender_id"].as_str().unwrap().to_string(), ev.pred.clone(), num(&a["amount"]));
        let ex = self.expect.take();
        if ev.ok.is_err() {
            if let Some(d) = only(&st.pre, &st.post, |_| ()) { return Err(format!("rejected hot zap changed {}", d)); }
            ensure!(st.pre.storage == st.post.storage, "rejected hot zap changed storage balances");
            if let Some(rc) = w.ch.pending.iter().find(|r| r.deps.contains(&ev.rid) && r.receiver == t) { self.refunds.insert(rc.id, amount); }
            env.rep.eval("rejected zap", None);
            return Ok(());
        }
        ensure!(ev.ok.as_ref().unwrap().trim_matches('"') == "0", "an accepted hot zap also refunds {}", fmt_ev(ev));
        // conservation per token
        for tk in w.toks.keys() {
            let mut pools = 0i128;
            for (p, q) in st.pre.pools.iter().zip(&st.post.pools) { if let Some(i) = p.tokens.iter().position(|x| x == tk) { pools += q.amounts[i] as i128 - p.amounts[i] as i128; } }
            let dep = st.post.deposit(&u, tk) as i128 - st.pre.deposit(&u, tk) as i128;
            ensure!(dep >= 0, "a hot zap spent {} of the sender's existing {}: {}", -dep, tk, fmt_ev(ev));
            let inn = if *tk == t { amount as i128 } else { 0 };
            let precise = w.dec(tk) <= 18 || st.pre.pools.iter().all(|p| p.kind != PK::Stable || !p.tokens.contains(tk));
            let dust = m["hot_zap_actions"].as_array().unwrap().iter().map(|x| match st.pre.pools[x["pool_id"].as_u64().unwrap_or(0) as usize].kind { PK::Simple => 0i128, PK::Stable => (x["token_out"] == json!(tk)) as i128, _ => { let q = &st.pre.pools[x["pool_id"].as_u64().unwrap() as usize]; match q.tokens.iter().position(|y| y == tk) { Some(i) if x["token_out"] == json!(tk) || x["token_in"] == json!(tk) => 4 + 4 * (10i128.pow(24) / q.rates.get(i).copied().unwrap_or(10u128.pow(24)).max(1) as i128), _ => 0 } } }).sum::<i128>();
            ensure!(pools + dep <= inn && pools + dep >= inn - dust || (!precise && pools + dep <= inn && inn - pools - dep < 10_000_000), "hot zap: {} of {} came in, pools gained {}, the sender's account gained {}: {}", inn, tk, pools, dep, fmt_ev(ev));
        }
        let mut keys = vec![];
        let d = only(&st.pre, &st.post, |e| {
            for tk in w.toks.keys() { let y = st.post.deposit(&u, tk); if y > 0 { e.dep.entry(u.clone()).or_default().insert(tk.clone(), y); } }
            for p in 0..e.pools.len() { for who in [u.as_str(), EX, m["referral_id"].as_str().unwrap_or(EX)].iter() { let y = st.post.share(p, who); if y > 0 || e.shares[p].contains_key(*who) { e.shares[p].insert(who.to_string(), y); } } e.pools[p] = st.post.pools[p].clone(); keys.push(e.pools[p].kind); }
        });
        if let Some(d) = d { return Err(format!("hot zap changed other balances: {}: {}", d, fmt_ev(ev))); }
        match ex {
            Some((id, Some(v))) if id == ev.rid => {
                let (pools, shares) = match v { Ok(v) => v, Err(e) => return Err(format!("hot zap succeeded although {}: {}", e, fmt_ev(ev))) };
                for p in 0..pools.len() {
                    ensure!(pools[p] == st.post.pools[p], "hot zap left pool {} at {:?}; the same steps one by one lead to {:?}: {}", p, st.post.pools[p], pools[p], fmt_ev(ev));
                    let got = st.post.share(p, &u) - st.pre.share(p, &u);
                    ensure!(got == shares[p], "hot zap gave {} {} shares of pool {}, the same additions one by one give {}", u, got, p, shares[p]);
                }
                env.rep.eval("accepted zap", Some(hash64(format!("{}{}{}", deals::kinds(&st.pre, m["hot_zap_actions"].as_array().unwrap(), "pool_id"), deals::kinds(&st.pre, m["add_liquidity_infos"].as_array().unwrap(), "pool_id"), lg(amount) / 8).as_bytes())));
                env.rep.sample("accepted zap", || json!(fmt_ev(ev)));
            }
            _ => { env.rep.eval("accepted zap without an independent expectation", None); }
        }
        Ok(())
    }
}
fn c32(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 3 + r.us(3), stable: 1 + r.us(2), rated: r.p(30), degen: r.p(30), overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    if r.p(15) { shrink_storage(&mut w, &mut r); }
    let mut m = M32 { expect: None, refunds: HashMap::new() };
    let mix = Mix::only(&[(gen::M_HOTZAP, 50), (gen::M_SWAP, 4), (gen::M_ADD, 3), (gen::M_DEPOSIT, 3), (gen::M_REMOVE, 2), (gen::M_GUARD, 1), (gen::M_FEES, 1), (gen::M_STORAGE, 2), (gen::M_PRICE, 2), (gen::M_TIME, 1), (gen::M_WITHDRAW, 2), (gen::M_FAULT, 1)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 45, flags: F_MONEY, mix, conc: 0 }, &mut m)
}
