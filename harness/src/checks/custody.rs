//! C01 custody, C02 share supply, C03 isolation.
use super::*;
use crate::util::*;
use crate::vm::Action;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C01", f: c01, rule: "one evaluation per executed receipt and token: ledger of the token contract vs deposits+pools+lostfound+in-flight; non-trivial = a receipt that moved that token, keyed by method, outcome, token and change class", quick_secs: 20, min_evals: 20_000 },
        Check { id: "C02", f: c02, rule: "one evaluation per executed receipt: every pool's supply vs the sum of all share balances, and the direction of supply changes per method; non-trivial = a receipt that changed some share balance, keyed by method, pool kind and amounts", quick_secs: 18, min_evals: 10_000 },
        Check { id: "C03", f: c03, rule: "one evaluation per executed exchange receipt: every balance change of every account vs the accounts entitled by the call; non-trivial = a receipt that changed a balance, keyed by method, role and size class", quick_secs: 18, min_evals: 10_000 },
    ]
}
pub fn args(a: &str) -> Value { serde_json::from_str(a).unwrap_or(Value::Null) }
fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }

/// value of a pool reserve in units of 10^-24 token base units, from the comparable amounts where they exist
pub fn exact_reserve(p: &PoolS, i: usize) -> U512 {
    match p.kind {
        PK::Simple => U512::from(p.amounts[i]) * U512::from(PREC24),
        PK::Stable => U512::from(p.c[i]) * U512::from(10u64).pow(U512::from(24 - 18 + p.dec[i] as u32)),
        _ => U512::from(p.c[i]) * U512::from(10u64).pow(U512::from(p.dec[i] as u32)),
    }
}

/// Follows every token movement around the exchange from the event log.
#[derive(Default, Clone)]
pub struct Flight {
    pub cursor: usize,
    pub exp: BTreeMap<String, u128>,
    pub unmanaged: BTreeMap<String, u128>,
    pub dust_taken: BTreeMap<String, u128>,
    /// receipt -> (token, amount): ft_on_transfer receipts on their way to the exchange
    incoming: HashMap<usize, (String, u128)>,
    /// resolve receipt -> (token, amount to come back out of the exchange)
    refund: HashMap<usize, (String, u128)>,
    resolve_of: HashMap<usize, usize>,
    /// outgoing transfer receipt -> (token, amount, via)
    out: HashMap<usize, (String, u128, String)>,
    /// callback receipt -> outgoing receipt
    cb: HashMap<usize, usize>,
    /// resolve receipts of the exchange's own ft_transfer_call
    echo: HashMap<usize, String>,
    pub failed_callbacks: Vec<String>,
    pub echo_refunds: u64,
}
impl Flight {
    fn add(&mut self, t: &str, x: u128) { *self.exp.entry(t.into()).or_insert(0) += x; }
    fn sub(&mut self, t: &str, x: u128) -> Res { let e = self.exp.entry(t.into()).or_insert(0); ensure!(*e >= x, "token {}: {} left the exchange although only {} was owed outward", t, x, e); *e -= x; Ok(()) }
    pub fn open(&self) -> usize { self.incoming.len() + self.refund.len() + self.out.len() }
    pub fn update(&mut self, w: &World) -> Res {
        while self.cursor < w.ch.log.len() {
            let ev = w.ch.log[self.cursor].clone();
            self.cursor += 1;
            let istok = w.toks.contains_key(&ev.receiver);
            let a = args(&ev.args);
            if istok {
                let t = ev.receiver.clone();
                match ev.method.as_str() {
                    "ft_transfer" if ev.pred != EX && a["receiver_id"] == json!(EX) && ev.ok.is_ok() => { let x = num(&a["amount"]); self.add(&t, x); *self.unmanaged.entry(t).or_insert(0) += x; }
                    "ft_transfer_call" if ev.pred != EX && a["receiver_id"] == json!(EX) && ev.ok.is_ok() => {
                        let x = num(&a["amount"]); self.add(&t, x);
                        self.incoming.insert(ev.created[0], (t, x)); self.resolve_of.insert(ev.created[0], ev.created[1]);
                    }
                    "ft_resolve_transfer" => {
                        if let Some((t, x)) = self.refund.remove(&ev.rid) {
                            let used = ev.ok.as_ref().ok().and_then(|s| s.trim_matches('"').parse::<u128>().ok()).unwrap_or(0);
                            let amount = num(&a["amount"]);
                            let back = amount - used;
                            self.sub(&t, back)?;
                            if back < x { *self.unmanaged.entry(t).or_insert(0) += x - back; }
                        }
                        if let Some(t) = self.echo.remove(&ev.rid) {
                            let used = ev.ok.as_ref().ok().and_then(|s| s.trim_matches('"').parse::<u128>().ok()).unwrap_or(0);
                            let back = num(&a["amount"]) - used;
                            if back > 0 { self.echo_refunds += 1; self.add(&t, back); *self.unmanaged.entry(t).or_insert(0) += back; }
                        }
                    }
                    _ => {}
                }
                if ev.pred == EX {
                    if let Some((t, x, via)) = self.out.get(&ev.rid).cloned() {
                        if ev.ok.is_ok() {
                            if via == "retrieve_unmanaged_token" {
                                // first tokens nobody owns, then accumulated rounding dust
                                let u = self.unmanaged.entry(t.clone()).or_insert(0); let k = x.min(*u); *u -= k;
                                self.sub(&t, k)?; *self.dust_taken.entry(t.clone()).or_insert(0) += x - k;
                            } else { self.sub(&t, x)?; }
                            if ev.method == "ft_transfer_call" { self.echo.insert(ev.created[1], t); }
                            self.out.remove(&ev.rid);
                        } else if via == "retrieve_unmanaged_token" { self.out.remove(&ev.rid); }
                    } else if ev.ok.is_ok() && matches!(ev.method.as_str(), "ft_transfer" | "ft_transfer_call" | "near_withdraw") { return Err(format!("unexplained token movement {}", fmt_ev(&ev))); }
                }
            }
            if ev.receiver == EX {
                if let Some((t, x)) = self.incoming.remove(&ev.rid) {
                    let res = self.resolve_of.remove(&ev.rid).unwrap();
                    let unused = match &ev.ok { Ok(s) => s.trim_matches('"').parse::<u128>().unwrap_or(x).min(x), Err(_) => x };
                    // the kept part is now owed to somebody inside the exchange
                    self.sub(&t, x - unused)?;
                    if unused > 0 { self.refund.insert(res, (t, unused)); }
                }
                if let Some(o) = self.cb.remove(&ev.rid) {
                    if let Some((t, x, _)) = self.out.get(&o).cloned() {
                        // the transfer failed: this callback has to credit it back
                        if ev.ok.is_ok() { self.sub(&t, x)?; } else { self.failed_callbacks.push(fmt_ev(&ev)); }
                        self.out.remove(&o);
                    }
                }
                for c in &ev.created {
                    if let Some(r) = w.ch.pending.iter().find(|r| r.id == *c) {
                        if w.toks.contains_key(&r.receiver) {
                            if let Some(Action::Call { method, args: ra, .. }) = r.actions.first() {
                                if matches!(method.as_str(), "ft_transfer" | "ft_transfer_call" | "near_withdraw") {
                                    let x = num(&args(&String::from_utf8_lossy(ra))["amount"]);
                                    let t = r.receiver.clone();
                                    if ev.method != "retrieve_unmanaged_token" { self.add(&t, x); }
                                    self.out.insert(*c, (t, x, ev.method.clone()));
                                }
                            }
                        } else if r.receiver == EX { for d in &r.deps { if self.out.contains_key(d) { self.cb.insert(*c, *d); } } }
                    }
                }
            }
        }
        Ok(())
    }
}

fn dust_bound(w: &World, s: &Snap, t: &str, ops: u128) -> U512 {
    let mut unit = U512::zero();
    for p in &s.pools {
        if p.kind == PK::Simple { continue; }
        if let Some(i) = p.tokens.iter().position(|x| x == t) {
            let base = U512::from(PREC24);
            let cunit = if p.kind == PK::Stable { U512::from(10u64).pow(U512::from(6 + p.dec[i] as u32)) } else { U512::from(10u64).pow(U512::from(p.dec[i] as u32)) };
            let rate = p.rates.get(i).copied().unwrap_or(PREC24).max(1);
            let u = base + cunit * (U512::from(6u64) + U512::from(3 * (PREC24 / rate)));
            if u > unit { unit = u; }
        }
    }
    let _ = w;
    unit * U512::from(ops)
}

fn c01(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = spec_any(&mut r);
    let mut w = gen::world(env.codes, &mut r, &sp);
    let mut fl = Flight { cursor: 0, ..Default::default() };
    fl.cursor = w.ch.log.len();
    let mut dust: BTreeMap<String, U512> = BTreeMap::new();
    let toks: Vec<String> = w.toks.keys().cloned().collect();
    let s0 = { w.flags = F_ALL; w.snap() };
    // start: setup left dust only in over- or under-precise pools
    for t in &toks {
        let l = liab(&s0, t); let have = U512::from(w.ledger(t, EX)) * U512::from(PREC24);
        ensure!(have >= l, "after setup the exchange holds {} of {} but owes more", w.ledger(t, EX), t);
        dust.insert(t.clone(), have - l);
    }
    let mix = match r.below(4) { 0 => Mix::all(), 1 => Mix::all().with(&[(gen::M_WITHDRAW, 20), (gen::M_FAULT, 10), (gen::M_CLAIM, 8)]), 2 => Mix::all().with(&[(gen::M_INSTANT, 25), (gen::M_HOTZAP, 20), (gen::M_GUARD, 0), (gen::M_FAULT, 6)]), _ => Mix::all().with(&[(gen::M_LIQ, 10), (gen::M_SHADOW, 15), (gen::M_MFTCALL, 10), (gen::M_GUARD, 0)]) };
    let n = if env.tier == "thorough" { 160 } else { 90 };
    let res = soup(env, &mut w, &mut r, &SoupCfg { n, flags: F_MONEY, mix, conc: 0 }, &mut |w, st, env| {
        let _ = fl.update(w)?;
        for (t, x) in std::mem::take(&mut fl.dust_taken) { let d = dust.get_mut(&t).unwrap(); let y = U512::from(x) * U512::from(PREC24); ensure!(*d >= y, "token {}: more was retrieved as unmanaged than the exchange holds beyond its debts", t); *d = *d - y; }
        let ops = 8 + st.ev.args.matches("pool_id").count() as u128 * 3;
        for t in w.toks.keys() {
            let have = U512::from(w.ledger(t, EX)) * U512::from(PREC24);
            let owe = liab(&st.post, t) + U512::from(*fl.exp.get(t).unwrap_or(&0)) * U512::from(PREC24);
            ensure!(have >= owe, "token {}: the exchange holds {} but owes {} inside plus {} in flight (deficit {} e-24) after {}", t, w.ledger(t, EX), liab(&st.post, t) / U512::from(PREC24), fl.exp.get(t).unwrap_or(&0), owe - have, fmt_ev(&st.ev));
            let now = have - owe;
            let was = dust[t];
            ensure!(now >= was, "token {}: value created out of rounding dust ({} e-24 units) by {}", t, was - now, fmt_ev(&st.ev));
            let touched = now != was;
            if touched {
                let b = if st.ev.receiver == EX && st.ev.ok.is_ok() { dust_bound(w, &st.post, t, ops) } else { U512::zero() };
                ensure!(now - was <= b, "token {}: {} e-24 units vanished from the exchange's books (rounding allows {}) in {}", t, now - was, b, fmt_ev(&st.ev));
                dust.insert(t.clone(), now);
                env.rep.count("rounding dust observed");
            }
            let moved = st.pre.liabilities(t) != st.post.liabilities(t);
            env.rep.eval("custody equation", if moved || touched { Some(hash64(format!("{}{}{}{}", st.ev.method, st.ev.ok.is_ok(), t, lg(st.post.liabilities(t).max(st.pre.liabilities(t)) - st.post.liabilities(t).min(st.pre.liabilities(t)))).as_bytes())) } else { None });
        }
        if st.ev.receiver == EX && st.ev.ok.is_ok() { env.rep.count(&format!("op {}", st.ev.method)); env.rep.sample(&st.ev.method, || json!(fmt_ev(&st.ev))); }
        Ok(())
    });
    res?;
    // everything settled: nothing may be in flight any more
    let stuck: Vec<String> = fl.failed_callbacks.clone();
    if !stuck.is_empty() || fl.open() > 0 { *env.story = w.story(60); }
    ensure!(stuck.is_empty(), "a transfer failed and its callback could not credit the amount back: {}", stuck[0]);
    ensure!(fl.open() == 0, "transfers still unaccounted after all receipts ran");
    env.rep.count("episodes settled with nothing in flight");
    Ok(())
}
fn liab(s: &Snap, t: &str) -> U512 {
    let mut x = 0u128;
    for m in s.dep.values() { x += m.get(t).copied().unwrap_or(0); }
    for m in s.lost.values() { x += m.get(t).copied().unwrap_or(0); }
    let mut y = U512::from(x) * U512::from(PREC24);
    for p in &s.pools { for (i, tk) in p.tokens.iter().enumerate() { if tk == t { y = y + exact_reserve(p, i); } } }
    y
}

const MAY_MINT: [&str; 7] = ["add_liquidity", "add_stable_liquidity", "ft_on_transfer", "execute_actions", "swap", "swap_by_output", "execute_actions_in_va"];
const MAY_BURN: [&str; 3] = ["remove_liquidity", "on_burrow_liquidation", "remove_exchange_fee_liquidity"];

fn c02(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = spec_any(&mut r);
    let mut w = gen::world(env.codes, &mut r, &sp);
    let mix = match r.below(3) { 0 => Mix::all(), 1 => Mix::all().with(&[(gen::M_MFT, 25), (gen::M_MFTCALL, 20), (gen::M_SHADOW, 12), (gen::M_LIQ, 10), (gen::M_DONATE, 10), (gen::M_FAULT, 8), (gen::M_GUARD, 0)]), _ => Mix::all().with(&[(gen::M_ADD, 25), (gen::M_REMOVE, 15), (gen::M_REMTOK, 15), (gen::M_TREASURY, 8), (gen::M_FEES, 5), (gen::M_GUARD, 0)]) };
    let n = if env.tier == "thorough" { 200 } else { 100 };
    soup(env, &mut w, &mut r, &SoupCfg { n, flags: F_MONEY, mix, conc: 0 }, &mut |w, st, env| {
        for (i, p) in st.post.pools.iter().enumerate() {
            let mut sum = U256::zero();
            for x in st.post.shares[i].values() { sum = sum + U256::from(*x); }
            ensure!(sum == U256::from(p.supply), "pool {} reports supply {} but the balances of all accounts sum to {} after {}", i, p.supply, sum, fmt_ev(&st.ev));
        }
        let changed: Vec<usize> = (0..st.post.pools.len()).filter(|i| st.pre.shares.get(*i) != st.post.shares.get(*i)).collect();
        let m = st.ev.method.as_str();
        let exok = st.ev.receiver == EX && st.ev.ok.is_ok();
        for &i in &changed {
            ensure!(exok, "share balances of pool {} changed in a receipt that failed or ran elsewhere: {}", i, fmt_ev(&st.ev));
            let (a, b) = (st.pre.pools.get(i).map(|p| p.supply).unwrap_or(0), st.post.pools[i].supply);
            let key = hash64(format!("{}{:?}{}", m, st.post.pools[i].kind, if a > b { a - b } else { b - a }).as_bytes());
            if b > a { ensure!(MAY_MINT.contains(&m) || m == "remove_liquidity_by_tokens", "{} increased the supply of pool {}", m, i); }
            if b < a { ensure!(MAY_BURN.contains(&m) || m == "remove_liquidity_by_tokens", "{} decreased the supply of pool {}", m, i); }
            env.rep.eval(if b > a { "mint" } else if b < a { "burn" } else { "move" }, Some(key));
            env.rep.count(&format!("share change by {}", m));
            env.rep.sample(m, || json!(fmt_ev(&st.ev)));
        }
        if changed.is_empty() { env.rep.eval("no share change", None); }
        // the multi-token views of the same quantities agree
        if !changed.is_empty() {
            let i = changed[0];
            let t = format!(":{}", i);
            let sup = num(&w.v("mft_total_supply", json!({"token_id":t})));
            let sup2 = num(&w.v("get_pool_total_shares", json!({"pool_id":i})));
            ensure!(sup == st.post.pools[i].supply && sup2 == sup, "pool {} supply views disagree: {} {} {}", i, sup, sup2, st.post.pools[i].supply);
            for a in w.accts.iter() {
                let x = num(&w.v("mft_balance_of", json!({"token_id":t,"account_id":a})));
                ensure!(x == st.post.share(i, a), "pool {} share views of {} disagree: {} {}", i, a, x, st.post.share(i, a));
            }
        }
        Ok(())
    })
}

/// Who may gain and who may lose through a successful exchange receipt.
pub struct Entitled { pub lose: BTreeSet<String>, pub gain: BTreeSet<String>, pub gain_shares: BTreeSet<String> }
pub fn entitled(ev: &crate::chain::Ev, s: &Snap) -> Entitled {
    let a = args(&ev.args);
    let st = |k: &str| a[k].as_str().unwrap_or("").to_string();
    let one = |x: &str| -> BTreeSet<String> { vec![x.to_string()].into_iter().collect() };
    let mut lose = one(&ev.pred); let mut gain = one(&ev.pred); let mut gs = BTreeSet::new();
    let fee = |gs: &mut BTreeSet<String>, rf: &Value| { gs.insert(EX.to_string()); if let Some(x) = rf.as_str() { if s.refs.contains_key(x) { gs.insert(x.to_string()); } } };
    match ev.method.as_str() {
        "mft_transfer" | "mft_transfer_call" | "mft_transfer_all_call" => { gain.insert(st("receiver_id")); }
        "mft_resolve_transfer" => { lose = one(&st("receiver_id")); gain = one(&st("sender_id")); gain.insert(EX.into()); }
        "swap" | "swap_by_output" | "execute_actions" | "execute_actions_in_va" => fee(&mut gs, &a["referral_id"]),
        "add_stable_liquidity" | "remove_liquidity_by_tokens" => fee(&mut gs, &Value::Null),
        "ft_on_transfer" => {
            let m = args(a["msg"].as_str().unwrap_or(""));
            lose = BTreeSet::new(); gain = one(&st("sender_id")); fee(&mut gs, &m["referral_id"]);
        }
        "donation_token" => { gain.insert(OWNER.into()); }
        "donation_share" => { gain.insert(EX.into()); }
        "on_burrow_liquidation" => { lose = one(&st("liquidation_account_id")); gain = one(&st("liquidator_account_id")); }
        "withdraw_owner_token" => { lose = one(OWNER); gain = BTreeSet::new(); }
        "remove_exchange_fee_liquidity" => { lose = one(EX); gain = one(OWNER); }
        "exchange_callback_post_withdraw" | "exchange_callback_post_withdraw_near" => { lose = BTreeSet::new(); gain = one(&st("sender_id")); gain.insert(OWNER.into()); }
        "storage_deposit" => { lose = BTreeSet::new(); gain = BTreeSet::new(); }
        _ if ev.pred == EX => { lose = BTreeSet::new(); gain = BTreeSet::new(); }
        _ => {}
    }
    Entitled { lose, gain, gain_shares: gs }
}

fn c03(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let sp = spec_any(&mut r);
    let mut w = gen::world(env.codes, &mut r, &sp);
    let mix = match r.below(3) { 0 => Mix::all(), 1 => Mix::all().with(&[(gen::M_MFT, 15), (gen::M_DONATE, 12), (gen::M_LIQ, 12), (gen::M_SHADOW, 12), (gen::M_GUARD, 0)]), _ => Mix::all().with(&[(gen::M_WITHDRAW, 15), (gen::M_CLAIM, 6), (gen::M_FAULT, 8), (gen::M_INSTANT, 15), (gen::M_GUARD, 0)]) };
    let n = if env.tier == "thorough" { 200 } else { 100 };
    soup(env, &mut w, &mut r, &SoupCfg { n, flags: F_MONEY, mix, conc: 0 }, &mut |w, st, env| {
        let (a, b) = (&st.pre, &st.post);
        let exok = st.ev.receiver == EX && st.ev.ok.is_ok();
        let en = entitled(&st.ev, a);
        let mut any = None;
        let mut chk = |acct: &str, x: u128, y: u128, what: &str, shares: bool| -> Res {
            if x == y { return Ok(()); }
            any = Some(hash64(format!("{}{}{}{}", st.ev.method, what.len(), y > x, lg(if x > y { x - y } else { y - x })).as_bytes()));
            ensure!(exok, "{} of {} changed from {} to {} in a failed or foreign receipt: {}", what, acct, x, y, fmt_ev(&st.ev));
            if y < x { ensure!(en.lose.contains(acct), "{} of {} fell from {} to {} through a call it did not make: {}", what, acct, x, y, fmt_ev(&st.ev)); }
            else { ensure!(en.gain.contains(acct) || (shares && en.gain_shares.contains(acct)), "{} of {} rose from {} to {} although the call does not entitle it: {}", what, acct, x, y, fmt_ev(&st.ev)); }
            Ok(())
        };
        let mut accts: BTreeSet<&String> = w.accts.iter().collect();
        accts.extend(a.dep.keys()); accts.extend(b.dep.keys());
        for ac in accts {
            for t in w.toks.keys() {
                chk(ac, a.deposit(ac, t), b.deposit(ac, t), "deposit", false)?;
                chk(ac, a.lostf(ac, t), b.lostf(ac, t), "lostfound entry", false)?;
            }
            for p in 0..b.pools.len() { chk(ac, a.share(p, ac), b.share(p, ac), "pool share", true)?; }
        }
        // a call on behalf of one account never touches another account's pledge
        for ac in w.accts.iter() {
            if a.shadow.get(ac) != b.shadow.get(ac) {
                let x = args(&st.ev.args);
                let ok = exok && match st.ev.method.as_str() { "shadow_action" => st.ev.pred == *ac, "callback_on_shadow" => x["sender_id"] == json!(ac), "on_burrow_liquidation" => x["liquidation_account_id"] == json!(ac), "callback_on_burrow_liquidation" => x["liquidation_account_id"] == json!(ac) || x["sender_id"] == json!(ac), _ => false };
                ensure!(ok, "pledge record of {} changed by {}", ac, fmt_ev(&st.ev));
                any = Some(hash64(format!("shadow{}{}", st.ev.method, ac).as_bytes()));
            }
        }
        if any.is_some() { env.rep.count(&format!("balance change by {}", st.ev.method)); env.rep.sample(&st.ev.method, || json!(fmt_ev(&st.ev))); }
        env.rep.eval("isolation of one receipt", any);
        Ok(())
    })
}
