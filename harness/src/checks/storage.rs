//! C19: NEAR paid for storage.
use super::custody::args;
use super::xfer::BYTE;
use super::*;
use crate::chain::{Receipt, NEAR};
use crate::mocks::{Answer, Mock};
use crate::util::*;
use crate::vm::Action;
use serde_json::json;
use std::collections::BTreeMap;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C19", f: c19, rule: "one evaluation per executed receipt of the exchange: change of its NEAR balance minus storage staked minus what the records owe (must not fall), records changed only where the call may, exact effect of every storage call; non-trivial = a receipt that moved NEAR, a storage record or the storage used, keyed by method, options, outcome and magnitudes", quick_secs: 18, min_evals: 3000 },
    ]
}
fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }
const USERM: [&str; 38] = ["storage_deposit", "storage_withdraw", "storage_unregister", "register_tokens", "unregister_tokens", "withdraw", "claim_lostfound", "donation_share", "donation_token",
    "swap", "swap_by_output", "execute_actions", "execute_actions_in_va", "add_liquidity", "add_stable_liquidity", "remove_liquidity", "remove_liquidity_by_tokens",
    "mft_register", "mft_unregister", "mft_transfer", "mft_transfer_call", "mft_transfer_all_call", "mft_resolve_transfer", "shadow_action", "callback_on_shadow", "callback_on_burrow_liquidation",
    "on_burrow_liquidation", "ft_on_transfer", "add_simple_pool", "add_stable_swap_pool", "add_rated_swap_pool", "add_degen_swap_pool", "exchange_callback_post_withdraw", "exchange_callback_post_withdraw_near",
    "callback_post_withdraw_lostfound", "remove_exchange_fee_liquidity", "withdraw_owner_token", "modify_total_fee"];
/// calls whose attached deposit pays for storage: nothing of it may stay behind unaccounted
const PAYERS: [&str; 12] = ["storage_deposit", "add_liquidity", "add_stable_liquidity", "mft_register", "shadow_action", "add_simple_pool", "add_stable_swap_pool", "add_rated_swap_pool", "add_degen_swap_pool", "mft_unregister", "donation_share", "callback_on_shadow"];
struct M19 { bal: u128, usage: u64, min: u128, names: Vec<String>, pot: i128, mk: u64, next: Option<Op> }
fn surplus(s: &Snap) -> i128 { s.storage.values().map(|(d, u)| *d as i128 - *u as i128).sum() }
fn used(s: &Snap) -> i128 { s.storage.values().map(|(_, u)| *u as i128).sum() }
impl Monitor for M19 {
    fn extra(&mut self, w: &mut World, r: &mut Rng, s: &Snap) -> Option<Op> {
        if let Some(o) = self.next.take() { return Some(o); }
        if r.p(3) { // two pledges of the same shares before either is answered
            let c: Vec<(String, usize)> = (0..s.pools.len()).flat_map(|p| s.shares[p].iter().filter(move |x| s.registered(x.0) && x.0 != EX && s.free(x.0, p) > 3).map(move |x| (x.0.clone(), p))).collect();
            if !c.is_empty() {
                let (u, p) = r.pick(&c).clone();
                let x = s.free(&u, p) / 3;
                let farm = r.p(50);
                { let who = if farm { BOOST } else { BURROW }; let a = if r.p(75) { Answer::fail() } else { Answer::json(json!(null)) }; if let Mock::Script(sc) = w.ch.mock(who) { sc.answers.insert("on_cast_shadow".into(), a); } }
                let mut o = |r: &mut Rng| gen::op(&u, "shadow_action", json!({"action":if farm { "ToFarming" } else { "ToBurrowland" },"pool_id":p,"amount":r.amount(x).to_string(),"msg":"m"}), NEAR / 50);
                self.next = Some(o(r));
                return Some(o(r));
            }
        }
        if !r.p(25) { return None; }
        let u: String = if r.p(45) { r.pick(&self.names).clone() } else { gen::who(r).into() };
        let tgt: String = if r.p(60) { r.pick(&self.names).clone() } else { gen::who(r).into() };
        let (d, us) = s.storage.get(&u).copied().unwrap_or((0, 0));
        let av = d.saturating_sub(us);
        Some(match r.below(14) {
            0 | 1 | 2 | 3 => {
                let mut a = json!({});
                if r.p(60) { a["account_id"] = json!(tgt); }
                match r.below(5) { 0 | 1 => a["registration_only"] = json!(true), 2 => a["registration_only"] = json!(false), _ => {} }
                let x = *r.pick(&[0u128, 1, self.min - 1, self.min, self.min + 1, self.min * 2, NEAR / 100, NEAR / 10]);
                gen::op(&u, "storage_deposit", a, x)
            }
            4 | 5 | 6 => {
                let mut a = json!({});
                if r.p(75) { a["amount"] = json!(match r.below(8) { 0 => 0, 1 => av, 2 => av + 1, 3 => d, 4 => 1, 5 => d + 1, _ => r.amount(av.max(1)) }.to_string()); }
                gen::op(&u, "storage_withdraw", a, if r.p(95) { 1 } else { r.below128(3) })
            }
            7 | 8 => {
                if r.p(50) { // give up what it holds first
                    let ts: Vec<String> = s.dep.get(&u).map(|m| m.iter().filter(|x| *x.1 == 0).map(|x| x.0.clone()).collect()).unwrap_or_default();
                    if !ts.is_empty() { return Some(gen::op(&u, "unregister_tokens", json!({"token_ids":ts}), 1)); }
                }
                let mut a = json!({}); if r.p(30) { a["force"] = json!(r.p(70)); }
                gen::op(&u, "storage_unregister", a, if r.p(96) { 1 } else { 0 })
            }
            9 => { let p = r.below(s.pools.len() as u64); gen::op(&u, "mft_register", json!({"token_id":format!(":{}", p),"account_id":tgt}), *r.pick(&[0u128, 1, NEAR / 1000, NEAR / 100, NEAR / 10])) }
            10 => { let p = r.below(s.pools.len() as u64); gen::op(&u, "mft_unregister", json!({"token_id":format!(":{}", p)}), 1) }
            11 => { let n = 1 + r.us(3); let ts: Vec<String> = (0..n).map(|_| { let k: Vec<&String> = w.toks.keys().collect(); (*r.pick(&k)).clone() }).collect(); gen::op(&u, "register_tokens", json!({"token_ids":ts}), 1) }
            12 => { self.mk += 1; let k: Vec<String> = w.toks.keys().cloned().collect(); let (a, b) = (r.pick(&k).clone(), r.pick(&k).clone()); gen::op(&u, "add_simple_pool", json!({"tokens":[a, b],"fee":r.below(100)}), *r.pick(&[0u128, NEAR / 1000, NEAR / 10])) }
            _ => { let ps: Vec<usize> = (0..s.pools.len()).filter(|i| s.share(*i, &u) > 0).collect(); if ps.is_empty() { return None; } let p = *r.pick(&ps); let mut a = json!({"pool_id":p}); if r.p(70) { a["unregister"] = json!(true); } if r.p(30) { a["amount"] = json!(s.free(&u, p).to_string()); } gen::op(&u, "donation_share", a, 1) }
        })
    }
    fn before(&mut self, w: &mut World, rc: &Receipt) {
        if rc.receiver != EX { return; }
        self.bal = w.ch.accounts[EX].balance; self.usage = w.ch.accounts[EX].usage;
    }
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res {
        let ev = &st.ev;
        if ev.receiver != EX { return Ok(()); }
        let (pre, post) = (&st.pre, &st.post);
        let (bal, usage) = (w.ch.accounts[EX].balance, w.ch.accounts[EX].usage);
        let db = bal as i128 - self.bal as i128;
        let ds = (usage as i128 - self.usage as i128) * BYTE as i128;
        let (l0, l1) = (surplus(pre), surplus(post));
        let de = db - ds - (l1 - l0);
        let rec = used(post) - used(pre);
        let near = |s: &Snap, a: &str| s.storage.get(a).map(|x| x.0);
        // reporting is consistent
        for (a, (d, u)) in &post.storage {
            if pre.storage.get(a) == Some(&(*d, *u)) { continue; }
            let v = w.v("storage_balance_of", json!({"account_id":a}));
            ensure!(num(&v["total"]) == *d && num(&v["available"]) == d.saturating_sub(*u), "{} has balance {} and usage {} but is told {}", a, d, u, v);
        }
        for (a, (_, u)) in &post.storage {
            let n = post.dep.get(a).map_or(0, |m| m.len()) as u128;
            ensure!(*u == self.min + n * 148 * BYTE, "{} holds {} token entries and is charged {} (minimum {})", a, n, u, self.min);
        }
        let rs: Vec<Receipt> = w.ch.pending.iter().filter(|r| ev.created.contains(&r.id)).cloned().collect();
        let mut paid: BTreeMap<String, u128> = BTreeMap::new();
        let mut yoctos = 0i128;
        for r in &rs { if r.pred == EX { for a in &r.actions { match a { Action::Transfer(x) => { if *x > 0 { *paid.entry(r.receiver.clone()).or_insert(0) += x; } } Action::Call { deposit, .. } => { ensure!(*deposit <= 1, "{} sends {} yoctoNEAR along with a call: {}", fmt_ev(ev), deposit, r.receiver); yoctos += *deposit as i128; } _ => {} } } } }
        if ev.ok.is_err() {
            ensure!(db == 0 && ds == 0 && pre.storage == post.storage, "failed call changed NEAR or storage: balance {} storage {}: {}", db, ds, fmt_ev(ev));
            let known = USERM.contains(&ev.method.as_str());
            env.rep.eval("failed call", if known && ev.deposit > 1 { Some(hash64(format!("f {} {}", ev.method, lg(ev.deposit)).as_bytes())) } else { None });
            return self.storage_call(w, st, env, &paid, &near);
        }
        // unwrapped NEAR passing through
        if ev.method.is_empty() || !USERM.contains(&ev.method.as_str()) {
            if ev.pred == WNEAR && ev.method == "transfer" { self.pot += db; }
            ensure!(pre.storage.iter().all(|(a, x)| post.storage.get(a).map_or(false, |y| y.0 == x.0)) && post.storage.len() == pre.storage.len(), "storage balances changed by {}", fmt_ev(ev));
            env.rep.eval("other receipt", None);
            return Ok(());
        }
        let mut de = de;
        if ev.method == "exchange_callback_post_withdraw_near" {
            let out: u128 = paid.values().sum();
            self.pot -= out as i128; de += out as i128;
            ensure!(self.pot >= 0, "more NEAR paid out than was unwrapped: {}", fmt_ev(ev));
        }
        // a new lostfound entry is stored at the exchange's expense
        let lost = post.lost.values().map(|m| m.len()).sum::<usize>() > pre.lost.values().map(|m| m.len()).sum::<usize>();
        // Token entries of accounts are charged at a flat recorded size, settled through the usage records; all other storage is charged
        // at its real cost. `free` = NEAR that came in and belongs to nobody, after the storage created outside account entries.
        let near_d = l1 - l0 + rec;
        let entries = !pre.storage.iter().map(|(k, x)| (k, x.1)).eq(post.storage.iter().map(|(k, x)| (k, x.1))) && ev.method != "on_burrow_liquidation";
        let free = db + (de - (db - ds - (l1 - l0))) - near_d - if entries { 0 } else { ds };
        let low = -yoctos - if lost { ds.max(0) } else if ev.method == "on_burrow_liquidation" && rec > 0 { rec * 2 } else { 0 };
        ensure!(free >= low, "the exchange pays {} yoctoNEAR itself (balance {:+}, storage {:+}, records {:+}): {}", -free, db, ds, near_d, fmt_ev(ev));
        ensure!(bal as i128 >= post.storage.values().map(|x| x.0 as i128).sum::<i128>(), "balance {} does not cover the recorded storage deposits", bal);
        if PAYERS.contains(&ev.method.as_str()) { ensure!(free <= 1, "{} yoctoNEAR stay with the exchange (attached {}, balance {:+}, storage {:+}, records {:+}): {}", free, ev.deposit, db, ds, near_d, fmt_ev(ev)); }
        // who may end up below its usage
        for (a, (d, u)) in &post.storage {
            if d < u && pre.storage.get(a).map_or(true, |x| x.0 >= x.1) { ensure!(a == OWNER, "{} is left with usage {} above its balance {} by {}", a, u, d, fmt_ev(ev)); env.rep.count("owner below its usage after taking tokens in"); }
        }
        // whose record may change
        let a = args(&ev.args);
        for k in pre.storage.keys().chain(post.storage.keys()) {
            let (x, y) = (near(pre, k), near(post, k));
            if x == y { continue; }
            let may = match ev.method.as_str() {
                "storage_deposit" | "storage_withdraw" | "storage_unregister" => true, // checked exactly below
                "donation_share" => *k == ev.pred && y.unwrap_or(0) as i128 == x.unwrap_or(0) as i128 - ds && ds < 0,
                "callback_on_shadow" => a["sender_id"] == json!(k) && y.unwrap_or(0) as i128 == x.unwrap_or(0) as i128 - ds && ds < 0,
                "on_burrow_liquidation" => a["liquidation_account_id"] == json!(k) && y > x,
                "ft_on_transfer" => a["sender_id"] == json!(k) && y < x && x.unwrap_or(0) as i128 - y.unwrap_or(0) as i128 <= ds.max(0),
                _ => k == OWNER && x.is_none() && y == Some(0) && ev.method.starts_with("exchange_callback"),
            };
            ensure!(may, "storage balance of {} goes from {:?} to {:?} (storage {:+}): {}", k, x, y, ds, fmt_ev(ev));
        }
        // NEAR leaving for an account
        for (to, x) in &paid {
            let may = match ev.method.as_str() {
                "exchange_callback_post_withdraw_near" => true,
                "callback_on_shadow" => a["sender_id"] == json!(to),
                _ => *to == ev.pred,
            };
            ensure!(may, "{} yoctoNEAR paid to {}: {}", x, to, fmt_ev(ev));
        }
        let moved = db != 0 || ds != 0 || pre.storage != post.storage;
        let key = if moved { Some(hash64(format!("{} {} {} {} {} {}", ev.method, ds.signum() * lg(ds.abs() as u128) as i128, rec.signum() * lg(rec.abs() as u128) as i128, lg(ev.deposit), paid.len(), (l1 - l0).signum()).as_bytes())) } else { None };
        env.rep.eval(&format!("{}{}", ev.method, if moved { "" } else { " (no NEAR or storage moved)" }), key);
        if moved { env.rep.sample(&ev.method, || json!({"call":fmt_ev(ev),"balance":db.to_string(),"storage_cost":ds.to_string(),"records_free":(l1 - l0).to_string(),"left_with_exchange":free.to_string()})); }
        self.storage_call(w, st, env, &paid, &near)
    }
}
impl M19 {
    fn storage_call(&mut self, w: &World, st: &Step, env: &mut Env, paid: &BTreeMap<String, u128>, near: &dyn Fn(&Snap, &str) -> Option<u128>) -> Res {
        let ev = &st.ev;
        let (pre, post) = (&st.pre, &st.post);
        let a = args(&ev.args);
        let ok = ev.ok.is_ok();
        let run = pre.meta["state"] == json!("Running");
        let others = |k: &str| pre.storage.iter().filter(|x| x.0 != k).eq(post.storage.iter().filter(|x| x.0 != k));
        let to_caller = |x: u128| { let mut m: BTreeMap<String, u128> = BTreeMap::new(); if x > 0 { m.insert(ev.pred.clone(), x); } *paid == m };
        let cat;
        match ev.method.as_str() {
            "storage_deposit" => {
                let who = a["account_id"].as_str().map(String::from).unwrap_or(ev.pred.clone());
                let reg = pre.storage.get(&who).copied();
                let d = ev.deposit;
                let only = a["registration_only"] == json!(true);
                let want = run && (reg.is_some() || d >= self.min);
                ensure!(!(ok && !want), "storage_deposit accepted: {}", fmt_ev(ev));
                if let Some((n, u)) = reg { if !ok { ensure!(!want || n + d < u, "storage_deposit refused: {}", fmt_ev(ev)); } } else { ensure!(ok == want, "storage_deposit of {} refused (minimum {}): {}", d, self.min, fmt_ev(ev)); }
                if ok {
                    let (to, back) = match (only, reg) { (true, Some((n, _))) => (n, d), (true, None) => (self.min, d - self.min), (false, Some((n, _))) => (n + d, 0), (false, None) => (d, 0) };
                    ensure!(near(post, &who) == Some(to) && to_caller(back) && others(&who), "expected balance {} and refund {}, found {:?} and {:?}: {}", to, back, near(post, &who), paid, fmt_ev(ev));
                }
                cat = format!("storage_deposit only={} known={} {}", only, reg.is_some(), if ok { "done" } else { "refused" });
            }
            "storage_withdraw" => {
                let reg = pre.storage.get(&ev.pred).copied();
                let av = reg.map_or(0, |(d, u)| d.saturating_sub(u));
                let x = match a.get("amount") { Some(v) if !v.is_null() => num(v), _ => 0 };
                let x = if x == 0 { av } else { x };
                let want = run && ev.deposit == 1 && av > 0 && x <= av;
                ensure!(ok == want, "storage_withdraw of {} with {} available {}: {}", x, av, if ok { "accepted" } else { "refused" }, fmt_ev(ev));
                if ok { ensure!(near(post, &ev.pred) == Some(reg.unwrap().0 - x) && to_caller(x) && others(&ev.pred), "withdrawal of {}: balance {:?} becomes {:?}, paid {:?}: {}", x, reg, near(post, &ev.pred), paid, fmt_ev(ev)); }
                cat = format!("storage_withdraw {}", if ok { "done" } else if x > av { "refused: too much" } else { "refused" });
            }
            "storage_unregister" => {
                let reg = pre.storage.get(&ev.pred).copied();
                if ok {
                    ensure!(run && ev.deposit == 1, "storage_unregister accepted: {}", fmt_ev(ev));
                    match reg {
                        Some((n, _)) => ensure!(near(post, &ev.pred).is_none() && to_caller(n) && others(&ev.pred), "unregistration with balance {}: paid {:?}: {}", n, paid, fmt_ev(ev)),
                        None => ensure!(paid.is_empty() && pre.storage == post.storage, "unregistration of an unknown account: {:?} {}", paid, fmt_ev(ev)),
                    }
                } else {
                    let empty = pre.dep.get(&ev.pred).map_or(true, |m| m.is_empty()) && pre.shadow.get(&ev.pred).map_or(true, |m| m.is_empty());
                    ensure!(!(run && ev.deposit == 1 && empty), "an empty account cannot leave: {}", fmt_ev(ev));
                }
                cat = format!("storage_unregister known={} {}", reg.is_some(), if ok { "done" } else { "refused" });
            }
            _ => return Ok(()),
        }
        env.rep.eval(&cat, Some(hash64(format!("{} {} {}", cat, lg(ev.deposit), pre.storage.get(&ev.pred).map_or(0, |x| lg(x.0) * 8 + lg(x.0.saturating_sub(x.1)))).as_bytes())));
        let _ = w;
        Ok(())
    }
}
fn c19(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = WorldSpec { simple: 1 + r.us(2), stable: r.us(2), rated: r.p(15), degen: r.p(15), overprecise: false };
    let mut w = gen::world(env.codes, &mut r, &sp);
    let names: Vec<String> = ["n1.near", "n2.near", "a-rather-long-account-name-for-storage.users.near"].iter().map(|x| x.to_string()).collect();
    for n in &names { w.ch.add_user(n, 100 * NEAR); w.accts.push(n.clone()); for t in w.toks.keys().cloned().collect::<Vec<_>>() { w.mint(&t, n, 1_000_000_000_000_000_000_000_000); } }
    if r.p(50) { // leave the exchange hardly any NEAR of its own
        let s = w.read(F_STORAGE);
        let u = w.ch.accounts[EX].usage as u128 * BYTE;
        let need = u + s.storage.values().map(|x| x.0).sum::<u128>();
        let keep = need + *r.pick(&[NEAR, 20 * NEAR, 101 * NEAR]);
        let b = w.ch.accounts[EX].balance;
        if b > keep { w.ch.near_issued -= b - keep; w.ch.accounts.get_mut(EX).unwrap().balance = keep; }
    }
    let min = num(&w.v("storage_balance_bounds", json!({}))["min"]);
    let mix = Mix::all().with(&[(gen::M_STORAGE, 10), (gen::M_REGTOK, 8), (gen::M_MFT, 10), (gen::M_SHADOW, 14), (gen::M_LIQ, 6), (gen::M_DONATE, 6), (gen::M_HOTZAP, 6), (gen::M_WITHDRAW, 10), (gen::M_FAULT, 8), (gen::M_GUARD, 1), (gen::M_AMP, 0)]);
    soup_m(env, &mut w, &mut r, &SoupCfg { n: 140, flags: F_MONEY | F_STORAGE | F_META, mix, conc: 0 }, &mut M19 { bal: 0, usage: 0, min, names, pot: 0, mk: 0, next: None })
}
