//! C40-C46: the farming contract.
use super::custody::args;
use super::*;
use crate::chain::{Receipt, NEAR};
use crate::farmw::*;
use crate::util::*;
use crate::vm::{Action, PRes};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C40", f: c40, rule: "one evaluation per executed receipt: per farm deposited = claimed + unclaimed + undistributed with deposited and claimed matching observed deposits and credits, per token ledger balance covers everything owed; non-trivial = a receipt that changed a farm, a credit or the ledger, keyed by method, farm states and magnitudes", quick_secs: 17, min_evals: 3000 },
        Check { id: "C41", f: c41, rule: "one evaluation per farm and per farmer and farm before a receipt of the farming contract: released rewards against the schedule, farmer's total against the exact share; non-trivial = something was released or claimed, keyed by farm phase, number of stakers and magnitudes", quick_secs: 17, min_evals: 3000 },
        Check { id: "C42", f: c42, rule: "one evaluation per executed receipt: totals against stakes, custody against totals, exact effect of deposits, withdrawals and their settlement; non-trivial = a stake or seed total moved or a movement was refused, keyed by method, outcome and magnitudes", quick_secs: 17, min_evals: 3000 },
        Check { id: "C43", f: c43, rule: "one evaluation per receipt and farm state transition: status order, acceptance of rewards, removal, identifiers; non-trivial = a farm was created, changed state, was topped up, removed or a removal or top-up was refused, keyed by method, states and magnitudes", quick_secs: 17, min_evals: 1000 },
        Check { id: "C44", f: c44, rule: "one evaluation per executed receipt of the farming contract: credits against the amounts shown just before, nothing left afterwards, exact payout and settlement; non-trivial = a credit moved or a withdrawal was refused, keyed by method, outcome and magnitudes", quick_secs: 17, min_evals: 3000 },
        Check { id: "C45", f: c45, rule: "one evaluation per executed receipt of the farming contract: NEAR in and out against recorded balances, exact effect of storage calls; non-trivial = NEAR or a storage record moved or a storage call was refused, keyed by method, options, outcome and magnitudes", quick_secs: 17, min_evals: 3000 },
        Check { id: "C46", f: c46, rule: "one evaluation per call tried by a caller who may not make it, with a wrong deposit, or while paused; non-trivial = the same call works for whom it is meant, keyed by method, caller, deposit and state", quick_secs: 17, min_evals: 3000 },
        Check { id: "C47", f: c47, rule: "one evaluation per view family compared after a history of farming calls: pages of any size against the whole, listings against single-item views, counters against listings, a shown unclaimed reward against what a claim at that instant credits in a copy of the world, unknown items shown as absent or zero; non-trivial = a comparison over at least one item, keyed by family and sizes", quick_secs: 17, min_evals: 3000 },
    ]
}
fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }
fn h(s: String) -> u64 { hash64(s.as_bytes()) }

trait FMon {
    fn after(&mut self, f: &mut FW, st: &FStep, env: &mut Env) -> Res;
    fn extra(&mut self, _f: &mut FW, _r: &mut Rng) -> Option<Op> { None }
}
fn fstep(env: &mut Env, f: &mut FW, i: usize, m: &mut dyn FMon) -> Res {
    let st = f.exec(i);
    let res = m.after(f, &st, env);
    if res.is_err() { *env.story = f.w.story(60); }
    res
}
fn fdrain(env: &mut Env, f: &mut FW, r: &mut Rng, random: bool, m: &mut dyn FMon) -> Res {
    loop {
        let rd = f.w.ch.ready();
        if rd.is_empty() { return Ok(()); }
        let i = if random { rd[r.us(rd.len())] } else { rd[0] };
        fstep(env, f, i, m)?;
    }
}
fn fsoup(env: &mut Env, f: &mut FW, r: &mut Rng, n: usize, mx: &FMix, m: &mut dyn FMon) -> Res {
    let conc = *r.pick(&[0u64, 20, 45]);
    for _ in 0..n {
        if f.w.ch.pending.is_empty() || r.p(if f.w.ch.pending.len() > 12 { 10 } else { 55 }) {
            let paused = !f.lazy().running();
            let o = if paused && r.p(25) { Some(gen::op_at(FOWN, FARM, "resume_contract", json!({}), 1)) } else { match m.extra(f, r) { Some(o) => Some(o), None => fop(f, r, mx) } };
            if let Some(o) = o { if let Some(id) = send(&mut f.w, &o) {
                if r.p(conc) { continue; }
                let i = f.w.pos(id).unwrap();
                fstep(env, f, i, m)?;
                if conc == 0 { fdrain(env, f, r, false, m)?; }
            } }
        } else {
            let rd = f.w.ch.ready();
            if rd.is_empty() { continue; }
            fstep(env, f, rd[r.us(rd.len())], m)?;
        }
    }
    fdrain(env, f, r, true, m)
}
/// run one operation with everything it causes, under the monitor
fn frun(env: &mut Env, f: &mut FW, r: &mut Rng, m: &mut dyn FMon, signer: &str, recv: &str, method: &str, a: Value, dep: u128) -> Result<Result<Value, String>, String> {
    let id = f.w.ch.send(signer, recv, method, a, dep);
    fdrain(env, f, r, false, m)?;
    Ok(f.w.ch.outcome(id))
}
fn sender(a: &Value) -> String { a["sender_id"].as_str().unwrap_or("").into() }
/// the farmer a call of the farming contract is about
fn actor(ev: &crate::chain::Ev) -> String { if ev.method == "ft_on_transfer" || ev.method == "mft_on_transfer" || ev.method.starts_with("callback_") { sender(&args(&ev.args)) } else { ev.pred.clone() } }
fn dep_failed(f: &FW, ev: &crate::chain::Ev, deps: &BTreeMap<usize, usize>) -> Option<bool> { deps.get(&ev.rid).and_then(|d| f.w.ch.results.get(d)).map(|x| matches!(x, PRes::Failed)) }
/// remembers which receipt each pending callback waits for
#[derive(Default, Clone)]
struct Deps(BTreeMap<usize, usize>);
impl Deps { fn scan(&mut self, f: &FW) { for rc in &f.w.ch.pending { if rc.receiver == FARM { if let Some(d) = rc.deps.first() { self.0.insert(rc.id, *d); } } } } }

// ------------------------------------------------------------------ C40
#[derive(Default)]
struct M40 { dep: BTreeMap<String, u128> }
impl FMon for M40 {
    fn after(&mut self, f: &mut FW, st: &FStep, env: &mut Env) -> Res {
        let (pre, post, ev) = (&st.pre, &st.post, &st.ev);
        let mut changed = false;
        if ev.receiver == FARM {
            let a = args(&ev.args);
            // what a top-up adds
            if ev.method == "ft_on_transfer" && ev.ok.is_ok() && a["msg"].as_str().map_or(false, |m| !m.is_empty()) { *self.dep.entry(a["msg"].as_str().unwrap().into()).or_insert(0) += num(&a["amount"]); }
            let mut claimed: BTreeMap<String, i128> = BTreeMap::new();
            for (id, x) in post.all() {
                if let Some(old) = pre.farm(id) { if *old != *x { changed = true; }
                    ensure!(x.claimed >= old.claimed && x.benef >= old.benef && x.total >= old.total, "{} counted backwards: {:?} -> {:?}: {}", id, old, x, fmt_ev(ev));
                    *claimed.entry(x.token.clone()).or_insert(0) += (x.claimed - x.benef) as i128 - (old.claimed - old.benef) as i128;
                } else { changed = true; ensure!(x.total == 0 && x.claimed == 0 && x.unclaimed == 0 && x.benef == 0, "new farm {} starts with {:?}", id, x); }
                ensure!(x.total == self.dep.get(id).copied().unwrap_or(0), "{} shows {} deposited, observed {}: {}", id, x.total, self.dep.get(id).copied().unwrap_or(0), fmt_ev(ev));
                ensure!(x.claimed.checked_add(x.unclaimed).map_or(false, |y| y <= x.total) && x.benef <= x.claimed, "{} has claimed {} and unclaimed {} of {} deposited (beneficiary {}): {}", id, x.claimed, x.unclaimed, x.total, x.benef, fmt_ev(ev));
                let due: u128 = post.users.keys().map(|u| post.uncl(u, id)).sum();
                ensure!(post.old.contains_key(id) || due <= x.unclaimed, "farmers are shown {} unclaimed of {}, which only has {} distributed: {}", due, id, x.unclaimed, fmt_ev(ev));
            }
            for id in pre.farms.keys().chain(pre.old.keys()) { ensure!(post.farm(id).is_some(), "farm {} disappeared: {}", id, fmt_ev(ev)); }
            // credits of farmers match what farms paid
            let paid = |u: &str, t: &str| post.reward(u, t) as i128 - pre.reward(u, t) as i128;
            let w = ev.method == "withdraw_reward" || ev.method == "callback_post_withdraw_reward";
            for (t, _) in FTOKS.iter() {
                let d: i128 = f.accts.iter().map(|u| paid(u, t)).sum();
                let c = claimed.get(*t).copied().unwrap_or(0);
                if d != 0 || c != 0 { changed = true; }
                if w { ensure!(c == 0, "{} of {} claimed in a reward withdrawal: {}", c, t, fmt_ev(ev)); }
                else { ensure!(c == d, "farms paid {} {} and farmers were credited {}: {}", c, t, d, fmt_ev(ev)); }
                let tot: u128 = post.all().filter(|x| x.1.token == *t).map(|x| x.1.total).sum();
                ensure!(post.rinfo.get(*t).copied().unwrap_or(0) == tot, "{} {} deposited as rewards, reported {:?}: {}", tot, t, post.rinfo.get(*t), fmt_ev(ev));
            }
        }
        // coverage: after every receipt anywhere
        let mut key = String::new();
        for (t, _) in FTOKS.iter() {
            let (have, owe) = (f.w.ledger(t, FARM), post.owed(t));
            ensure!(have >= owe, "{}: farming holds {} but owes {} (stakes, credits, farms): {}", t, have, owe, fmt_ev(ev));
            // nothing is lost either: the surplus is exactly what is on its way
            let fl = f.in_flight(t);
            ensure!(have - owe == fl, "{}: farming holds {}, owes {}, on its way {}: {}", t, have, owe, fl, fmt_ev(ev));
            if fl > 0 { key.push_str(&format!("{}{} ", t, lg(fl) / 8)); }
        }
        if ev.receiver != FARM && !key.is_empty() { changed = true; }
        let states: BTreeSet<&str> = post.farms.values().map(|x| x.status.as_str()).collect();
        let k = if changed { Some(h(format!("{} {} {:?} {} {}", ev.method, ev.ok.is_ok(), states, key, post.all().map(|x| lg(x.1.unclaimed) / 6).max().unwrap_or(0)))) } else { None };
        env.rep.eval(&format!("{}{}", ev.method, if ev.ok.is_ok() { "" } else { " (failed)" }), k);
        if changed { env.rep.sample(&ev.method, || json!({"call":fmt_ev(ev),"owed":FTOKS.iter().map(|t| json!([t.0, post.owed(t.0).to_string(), f.w.ledger(t.0, FARM).to_string()])).collect::<Vec<_>>()})); }
        Ok(())
    }
}
fn c40(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut f = fworld(env.codes, &mut r, true);
    let s = f.snap();
    let mut m = M40 { dep: s.farms.iter().map(|(k, x)| (k.clone(), x.total)).collect() };
    let mx = FMix { fault: *r.pick(&[0, 5, 10]), ..Default::default() };
    fsoup(env, &mut f, &mut r, 130, &mx, &mut m)?;
    finish(env, &mut f, &mut r, &mut m)
}
/// everybody claims, unstakes and withdraws; afterwards only beneficiary parts, dust and undistributed rewards may be left
fn finish(env: &mut Env, f: &mut FW, r: &mut Rng, m: &mut dyn FMon) -> Res {
    heal(f);
    if !f.snap().running() { let o = f.snap().owner(); frun(env, f, r, m, &o, FARM, "resume_contract", json!({}), 1)?.ok(); }
    for u in f.accts.clone() {
        let s = f.snap();
        let Some(x) = s.users.get(&u) else { continue };
        for (sd, amt) in &x.seeds { let z = frun(env, f, r, m, &u, FARM, "withdraw_seed", json!({"seed_id":sd,"amount":amt.to_string()}), 1)?; if let Err(e) = z { *env.story = f.w.story(60); return Err(format!("{} cannot withdraw the whole stake of {} {}: {}", u, amt, sd, e)); } }
        let s = f.snap();
        let Some(x) = s.users.get(&u) else { continue };
        for (t, amt) in &x.rewards { let z = frun(env, f, r, m, &u, FARM, "withdraw_reward", json!({"token_id":t}), 1)?; if let Err(e) = z { *env.story = f.w.story(60); return Err(format!("{} cannot withdraw {} {} of rewards: {}", u, amt, t, e)); } }
    }
    let s = f.snap();
    for (u, x) in &s.users { if x.near.is_some() && (!x.seeds.is_empty() || x.rewards.values().any(|v| *v > 0)) { *env.story = f.w.story(60); return Err(format!("{} still has {:?} after withdrawing everything", u, x)); } }
    env.rep.count("closing withdrawals completed");
    Ok(())
}

// ------------------------------------------------------------------ C41
const SC: u32 = 60; // binary digits after the point in exact shares
#[derive(Default, Clone)]
struct Acc { seen: u128, benef: u128, share: BTreeMap<String, U512>, slack: BTreeMap<String, U512>, got: BTreeMap<String, u128>, claims: BTreeMap<String, u128>, rel: u64 }
struct M41 { farms: BTreeMap<String, Acc> }
impl FMon for M41 {
    fn after(&mut self, f: &mut FW, st: &FStep, env: &mut Env) -> Res {
        let (pre, post, ev) = (&st.pre, &st.post, &st.ev);
        if ev.receiver != FARM { return Ok(()); }
        let t = ev.ts;
        // releases up to now belong to the stakes present until now
        for (id, x) in &pre.farms {
            let rel = released(x, t);
            ensure!(x.claimed + x.unclaimed == rel, "{}: schedule (start {}, {} per {}s, {} deposited, {}) has released {} at {}s, the farm shows {} claimed and {} unclaimed: {}", id, x.start, x.per, x.interval, x.total, x.status, rel, t / SEC, x.claimed, x.unclaimed, fmt_ev(ev));
            let acc = self.farms.entry(id.clone()).or_default();
            let d = rel - acc.seen;
            let total = pre.seeds[&x.seed].amount;
            if d > 0 {
                acc.seen = rel; acc.rel += 1;
                if total == 0 { acc.benef += d; } else {
                    for u in &f.accts { let y = pre.stake(u, &x.seed); if y > 0 {
                        let e = (U512::from(d) * U512::from(y) << SC) / U512::from(total) + U512::from(1u64);
                        *acc.share.entry(u.clone()).or_default() += e;
                        *acc.slack.entry(u.clone()).or_default() += (U512::from(y) << SC) / U512::exp10(24) + U512::from(2u64);
                    } }
                }
            }
            if total > 0 { ensure!(x.benef >= acc.benef, "{}: {} was released while nobody was staked, beneficiary has {}: {}", id, acc.benef, x.benef, fmt_ev(ev)); }
            let mut sum = 0u128;
            for u in &f.accts {
                let (Some(ex), un) = (acc.share.get(u).copied(), pre.uncl(u, id)) else {
                    ensure!(pre.uncl(u, id) == 0 && acc.got.get(u).copied().unwrap_or(0) == 0, "{} never had a stake while {} released rewards, but is shown {} of them: {}", u, id, pre.uncl(u, id), fmt_ev(ev)); continue };
                let got = acc.got.get(u).copied().unwrap_or(0);
                sum += got + un;
                let have = U512::from(got + un) << SC;
                let slack = acc.slack.get(u).copied().unwrap_or_default() + (U512::from(acc.claims.get(u).copied().unwrap_or(0) + 2) << SC);
                ensure!(have <= ex, "{}: {} has {} claimed and {} unclaimed, its exact share of the releases is {}: {}", id, u, got, un, ex >> SC, fmt_ev(ev));
                ensure!(have + slack >= ex, "{}: {} has only {} claimed and {} unclaimed of its share {} (rounding allowed {}): {}", id, u, got, un, ex >> SC, slack >> SC, fmt_ev(ev));
                let phase = if x.status == "Created" { 0 } else if rel == x.total { 3 } else if rel > 0 { 2 } else { 1 };
                env.rep.eval(&format!("{} share", if un > 0 { "accruing" } else if got > 0 { "claimed" } else { "idle" }), if d > 0 || un > 0 { Some(h(format!("{} {} {} {} {} {}", phase, lg(got) / 4, lg(un) / 4, (ex != U512::zero()) as u8, acc.rel.min(9), pre.users.values().filter(|z| z.seeds.contains_key(&x.seed)).count()))) } else { None });
            }
            ensure!(sum <= rel, "{}: farmers have {} of {} released: {}", id, sum, rel, fmt_ev(ev));
            if d > 0 { env.rep.count(if total == 0 { "releases with nobody staked" } else { "releases to stakers" }); env.rep.sample(if rel == x.total { "last release" } else if total == 0 { "unstaked release" } else { "release" }, || json!({"farm":id,"released":rel.to_string(),"of":x.total.to_string(),"stakes":pre.users.iter().filter(|z| z.1.seeds.contains_key(&x.seed)).map(|z| json!([z.0, z.1.seeds[&x.seed].to_string(), acc.got.get(z.0).copied().unwrap_or(0).to_string(), pre.uncl(z.0, id).to_string()])).collect::<Vec<_>>()})); }
            env.rep.eval("schedule", if d > 0 { Some(h(format!("{} {} {} {}", x.start == 0, lg(rel) / 3, x.status, lg(x.total) / 3))) } else { None });
        }
        // attribute what the call claimed
        let who = actor(ev);
        for (id, x) in post.all() {
            if let Some(o) = pre.farm(id) {
                let c = (x.claimed - x.benef) - (o.claimed - o.benef);
                if c > 0 { let acc = self.farms.entry(id.clone()).or_default(); *acc.got.entry(who.clone()).or_insert(0) += c; }
                // terms do not drift
                ensure!(x.per == o.per && x.interval == o.interval && x.seed == o.seed && x.token == o.token && (x.start == o.start || (o.start == 0 && o.status == "Created" && x.start == ev.ts / SEC)), "terms of {} changed from {:?} to {:?}: {}", id, o, x, fmt_ev(ev));
            } else {
                let want = args(&ev.args)["terms"].clone();
                ensure!(x.start == want["start_at"].as_u64().unwrap_or(u64::MAX) && x.per == num(&want["reward_per_session"]) && x.interval == want["session_interval"].as_u64().unwrap_or(u64::MAX), "farm {} created as {:?}: {}", id, x, fmt_ev(ev));
            }
        }
        if ev.ok.is_ok() && (ev.method.starts_with("claim") || ev.method.starts_with("withdraw_seed") || ev.method.contains("transfer") || ev.method.starts_with("callback")) {
            for acc in self.farms.values_mut() { *acc.claims.entry(who.clone()).or_insert(0) += 1; }
        }
        Ok(())
    }
    fn extra(&mut self, f: &mut FW, r: &mut Rng) -> Option<Op> {
        // a withdrawal on its way may take long, and fail
        let busy: Vec<(String, String)> = f.w.ch.pending.iter().filter(|p| p.receiver == FARM).filter_map(call_of).filter(|c| c.0.starts_with("callback_post_withdraw") && c.0.ends_with("seed")).filter_map(|c| Some((c.1["seed_id"].as_str()?.to_string(), sender(&c.1)))).collect();
        if !busy.is_empty() && r.p(30) {
            let (sd, u) = r.pick(&busy).clone();
            if sd.contains('@') { let _ = f.w.quiet(OWNER, "change_state", json!({"state":"Paused"}), 1); } else if FTOKS.iter().any(|t| t.0 == sd) { f.w.ch.mock(&sd).ft().deny.insert(u); }
            let iv = f.lazy().farms.values().filter(|x| x.seed == sd && x.status == "Running").map(|x| x.interval).max().unwrap_or(60);
            f.w.ch.ts += iv * (1 + r.below(4)) * SEC;
            return None;
        }
        if busy.is_empty() && r.p(8) { heal(f); }
        if r.p(12) { // part of a stake
            let s = f.lazy();
            let v: Vec<(&String, &String, u128)> = s.users.iter().flat_map(|(u, x)| x.seeds.iter().filter(|y| *y.1 > 1).map(move |y| (u, y.0, *y.1))).collect();
            if v.is_empty() { return None; }
            let (u, sd, have) = *r.pick(&v);
            return Some(gen::op_at(u, FARM, "withdraw_seed", json!({"seed_id":sd,"amount":(1 + r.below128(have - 1)).to_string()}), 1));
        }
        None
    }
}
fn c41(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut f = fworld(env.codes, &mut r, true);
    let mut m = M41 { farms: BTreeMap::new() };
    let mx = FMix { fault: *r.pick(&[0, 0, 5]), pause: r.below(2), hostile: 1, storage: 2, admin: 6 };
    fsoup(env, &mut f, &mut r, 130, &mx, &mut m)?;
    // the way claims are made does not matter: replay the same time with different claim patterns
    heal(&mut f);
    if !f.snap().running() { return Ok(()); }
    let s = f.snap();
    let Some((id, x)) = s.farms.iter().filter(|x| x.1.status == "Running" && x.1.per > 1000).max_by_key(|x| s.users.values().filter(|u| u.seeds.contains_key(&x.1.seed)).count()) else { return Ok(()) };
    let (id, x) = (id.clone(), x.clone());
    let us: Vec<String> = s.users.iter().filter(|u| u.1.near.is_some() && u.1.seeds.contains_key(&x.seed)).map(|u| u.0.clone()).collect();
    if us.len() < 2 { return Ok(()); }
    let steps = 1 + r.below(6);
    let mut ends: Vec<BTreeMap<String, u128>> = vec![];
    let t_end = f.w.ch.ts + (steps * x.interval + r.below(x.interval) + 200) * SEC;
    for variant in 0..3 {
        let mut g = f.clone();
        let before: BTreeMap<String, u128> = us.iter().map(|u| (u.clone(), g.snap().reward(u, &x.token))).collect();
        let mut claims = 0u32;
        if variant > 0 {
            for _ in 0..steps {
                g.w.ch.ts = (g.w.ch.ts + x.interval * SEC).min(t_end - 100 * SEC);
                for u in &us { if variant == 2 || r.p(50) { let by_seed = r.p(50); let z = if by_seed { g.w.tx(u, FARM, "claim_reward_by_seed", json!({"seed_id":x.seed}), 0) } else { g.w.tx(u, FARM, "claim_reward_by_farm", json!({"farm_id":id}), 0) }; if z.is_err() { return Ok(()); } claims += 1; } }
            }
        }
        if g.w.ch.ts >= t_end { return Ok(()); }
        g.w.ch.ts = t_end;
        let dt = g.w.ch.dt; g.w.ch.dt = 0;
        for u in &us { if g.w.tx(u, FARM, "claim_reward_by_farm", json!({"farm_id":id}), 0).is_err() { return Ok(()); } }
        g.w.ch.dt = dt;
        // claims by seed also collect other farms: count only this farm's payments
        let e: BTreeMap<String, u128> = us.iter().map(|u| {
            let ot: u128 = if s.farms.values().filter(|y| y.seed == x.seed && y.token == x.token).count() > 1 || s.seeds.contains_key(&x.token) { u128::MAX } else { g.snap().reward(u, &x.token) - before[u] };
            (u.clone(), ot) }).collect();
        if e.values().any(|v| *v == u128::MAX) { return Ok(()); }
        env.rep.count(&format!("claim pattern with {} claims", if claims == 0 { "no early" } else if claims < 6 { "few early" } else { "many early" }));
        ends.push(e);
    }
    for e in &ends[1..] { for u in &us {
        let (a, b) = (ends[0][u], e[u]);
        let slack = (steps as u128 + 2) * (2 + (1u128 + s.stake(u, &x.seed) / 1_000_000_000_000_000_000_000_000) * us.len() as u128);
        if a.max(b) - a.min(b) > slack { *env.story = f.w.story(60); return Err(format!("{}: {} ends with {} when claiming once and {} when claiming often (rounding allowed {})", id, u, a, b, slack)); }
        env.rep.eval("claim pattern", Some(h(format!("{} {} {}", lg(a) / 2, us.len(), steps))));
    } }
    Ok(())
}

// ------------------------------------------------------------------ C42
struct M42 { deps: Deps }
impl FMon for M42 {
    fn after(&mut self, f: &mut FW, st: &FStep, env: &mut Env) -> Res {
        self.deps.scan(f);
        let (pre, post, ev) = (&st.pre, &st.post, &st.ev);
        for (sd, x) in &post.seeds {
            let sum: u128 = f.accts.iter().map(|u| post.stake(u, sd)).sum();
            ensure!(sum == x.amount, "seed {}: total {} but stakes add up to {}: {}", sd, x.amount, sum, fmt_ev(ev));
            let held = if let Some(p) = sd.strip_prefix(&format!("{}@", EX)) { f.w.share_of(p.parse().unwrap(), FARM) } else if f.w.toks.contains_key(sd) { f.w.ledger(sd, FARM) } else { x.amount };
            ensure!(held >= x.amount, "seed {}: {} staked, {} held: {}", sd, x.amount, held, fmt_ev(ev));
        }
        if ev.receiver != FARM { return Ok(()); }
        let a = args(&ev.args);
        let ok = ev.ok.is_ok();
        let who = actor(ev);
        let mut want: BTreeMap<(String, String), i128> = BTreeMap::new();
        let mut cat = ev.method.clone();
        let mut key = String::new();
        match ev.method.as_str() {
            "ft_on_transfer" | "mft_on_transfer" => {
                let mft = ev.method == "mft_on_transfer";
                let msg = a["msg"].as_str().unwrap_or("x");
                let amt = num(&a["amount"]);
                let sd = if mft { a["token_id"].as_str().and_then(|t| t.strip_prefix(":")).map(|p| format!("{}@{}", ev.pred, p)).unwrap_or_default() } else { ev.pred.clone() };
                if msg.is_empty() {
                    let may = pre.running() && pre.seeds.get(&sd).map_or(false, |s| amt >= s.min) && pre.known(&who);
                    if ok { ensure!(may, "stake accepted (seed {:?}, farmer known {}): {}", pre.seeds.get(&sd), pre.known(&who), fmt_ev(ev));
                        ensure!(ev.ok.as_ref().unwrap().trim_matches('"') == "0", "stake accepted and returned: {}", fmt_ev(ev));
                        want.insert((who.clone(), sd.clone()), amt as i128);
                    } else if may {
                        let (d, us) = pre.users[&who].near.unwrap();
                        let n = pre.seeds[&sd].farms.len() as u128;
                        ensure!(d < us + FBYTE * (84 + n * (84 + 165)), "a stake of {} {} by {} with {} NEAR above usage is refused: {}", amt, sd, who, d - us, fmt_ev(ev));
                    }
                    cat = format!("stake {}", if ok { "accepted" } else if !pre.running() { "refused: paused" } else if !pre.seeds.contains_key(&sd) { "refused: unknown seed" } else if !pre.known(&who) { "refused: unknown farmer" } else if amt < pre.seeds[&sd].min { "refused: below minimum" } else { "refused: storage" });
                    key = format!("{} {} {}", mft, lg(amt) / 3, lg(pre.stake(&who, &sd)) / 3);
                } else if mft { ensure!(!ok, "multi-token deposit with a message accepted: {}", fmt_ev(ev)); }
            }
            "withdraw_seed" => {
                let sd = a["seed_id"].as_str().unwrap_or("").to_string();
                let amt = num(&a["amount"]);
                let have = pre.users.get(&who).and_then(|x| x.seeds.get(&sd)).copied();
                let may = pre.running() && ev.deposit == 1 && have.map_or(false, |x| amt <= x);
                ensure!(ok == may, "{} withdraws {} of its stake {:?} in {}: {}", who, amt, have, sd, fmt_ev(ev));
                if ok {
                    want.insert((who.clone(), sd.clone()), -(amt as i128));
                    // exactly one transfer of exactly this amount to the farmer
                    let outs: Vec<&Receipt> = f.w.ch.pending.iter().filter(|p| ev.created.contains(&p.id) && p.receiver != FARM).collect();
                    let good = outs.len() == 1 && { let (m, b) = call_of(outs[0]).unwrap_or_default(); let (rcv, tid) = match sd.split_once('@') { Some((c, p)) => (c.to_string(), json!(format!(":{}", p))), None => (sd.clone(), Value::Null) };
                        outs[0].receiver == rcv && m == if tid.is_null() { "ft_transfer" } else { "mft_transfer" } && b["receiver_id"] == json!(who) && num(&b["amount"]) == amt && (tid.is_null() || b["token_id"] == tid) };
                    ensure!(good, "withdrawal sends {:?}: {}", outs, fmt_ev(ev));
                }
                cat = format!("unstake {}", if ok { "started" } else if have.map_or(true, |x| amt > x) { "refused: too much" } else { "refused" });
                key = format!("{} {} {}", sd.contains('@'), lg(amt) / 3, (have == Some(amt)) as u8);
            }
            "callback_post_withdraw_ft_seed" | "callback_post_withdraw_mft_seed" if ev.pred == FARM => {
                let failed = dep_failed(f, ev, &self.deps.0).unwrap_or(false);
                let sd = a["seed_id"].as_str().unwrap_or("").to_string();
                let amt = num(&a["amount"]);
                ensure!(ok, "settlement of a withdrawal breaks ({} of {} for {}, transfer {}): {}", amt, sd, who, if failed { "failed" } else { "done" }, fmt_ev(ev));
                if failed { want.insert((who.clone(), sd.clone()), amt as i128); }
                cat = format!("unstake settled: {}", if failed { "restored" } else { "paid" });
                key = format!("{} {} {} {}", sd.contains('@'), lg(amt) / 3, lg(pre.stake(&who, &sd)) / 3, pre.known(&who));
            }
            _ => {}
        }
        for u in &f.accts { for sd in post.seeds.keys() {
            let d = post.stake(u, sd) as i128 - pre.stake(u, sd) as i128;
            let x = want.get(&(u.clone(), sd.clone())).copied().unwrap_or(0);
            ensure!(d == x, "stake of {} in {} changes by {}, expected {}: {}", u, sd, d, x, fmt_ev(ev));
        } }
        env.rep.eval(&cat, if key.is_empty() { None } else { Some(h(format!("{} {}", cat, key))) });
        if !key.is_empty() { env.rep.sample(&cat, || json!(fmt_ev(ev))); }
        Ok(())
    }
}
/// steps aimed at the windows between a withdrawal and its settlement
fn leave(f: &mut FW, r: &mut Rng) -> Option<Op> {
    if !r.p(12) { return None; }
    let s = f.lazy();
    // farmers with a withdrawal on its way
    let busy: Vec<String> = f.w.ch.pending.iter().filter(|p| p.receiver == FARM).filter_map(call_of).filter(|c| c.0.starts_with("callback_post")).map(|c| sender(&c.1)).collect();
    let u = if !busy.is_empty() && r.p(70) { r.pick(&busy).clone() } else { r.pick(&USERS).to_string() };
    let x = s.users.get(&u).cloned().unwrap_or_default();
    Some(match r.below(7) {
        0 if !x.rewards.is_empty() => { let k: Vec<&String> = x.rewards.keys().collect(); gen::op_at(&u, FARM, "withdraw_reward", json!({"token_id":r.pick(&k)}), 1) }
        1 if !x.seeds.is_empty() => { let k: Vec<(&String, &u128)> = x.seeds.iter().collect(); let (sd, am) = *r.pick(&k); gen::op_at(&u, FARM, "withdraw_seed", json!({"seed_id":sd,"amount":am.to_string()}), 1) }
        2 => { let k: Vec<&String> = s.seeds.keys().collect(); gen::op_at(&u, FARM, "claim_reward_by_seed", json!({"seed_id":r.pick(&k)}), 0) }
        3 | 4 => gen::op_at(&u, FARM, "storage_unregister", json!({}), 1),
        5 if !s.known(&u) => gen::op_at(&u, FARM, "storage_deposit", json!({}), NEAR / 5),
        _ => { let t = FTOKS[r.us(4)].0; let b = !f.w.ch.mock_ref(t).ft_ref().fail; f.w.ch.mock(t).ft().fail = b; return None; }
    })
}
impl M42 { }
struct WithLeave<M: FMon>(M);
impl<M: FMon> FMon for WithLeave<M> {
    fn after(&mut self, f: &mut FW, st: &FStep, env: &mut Env) -> Res { self.0.after(f, st, env) }
    fn extra(&mut self, f: &mut FW, r: &mut Rng) -> Option<Op> { leave(f, r) }
}
fn c42(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut f = fworld(env.codes, &mut r, false);
    let mut m = WithLeave(M42 { deps: Deps::default() });
    let mx = FMix { fault: *r.pick(&[2, 6, 12]), admin: 4, ..Default::default() };
    fsoup(env, &mut f, &mut r, 160, &mx, &mut m)?;
    finish(env, &mut f, &mut r, &mut m)
}

// ------------------------------------------------------------------ C43
#[derive(Default)]
struct M43 { ids: BTreeSet<String>, rank: BTreeMap<String, u8> }
fn rank(s: &FSnap, id: &str) -> u8 { if s.old.contains_key(id) { return 4; } match s.farms.get(id).map(|x| x.status.as_str()) { Some("Created") => 1, Some("Running") => 2, Some("Ended") => 3, Some("Cleared") => 4, _ => 0 } }
impl FMon for M43 {
    fn after(&mut self, _f: &mut FW, st: &FStep, env: &mut Env) -> Res {
        let (pre, post, ev) = (&st.pre, &st.post, &st.ev);
        if ev.receiver != FARM { return Ok(()); }
        let a = args(&ev.args);
        let ok = ev.ok.is_ok();
        let ids: BTreeSet<String> = pre.all().chain(post.all()).map(|x| x.0.clone()).collect();
        for id in &ids {
            let (was, now) = (rank(pre, id), rank(post, id));
            let max = self.rank.get(id).copied().unwrap_or(0);
            ensure!(was >= max && now >= was, "{} goes from stage {} to {} (reached {} before; 1 created, 2 running, 3 ended, 4 cleared): {}", id, was, now, max, fmt_ev(ev));
            self.rank.insert(id.clone(), now);
            ensure!(!(post.old.contains_key(id) && post.farms.contains_key(id)), "{} is listed both as live and as removed: {}", id, fmt_ev(ev));
            if let Some(x) = post.farms.get(id) {
                ensure!(post.seeds.get(&x.seed).map_or(false, |s| s.farms.contains(id)), "{} is not listed under its seed {}: {}", id, x.seed, fmt_ev(ev));
                // ended means everything is out
                let all = x.claimed + x.unclaimed == x.total;
                ensure!(match now { 1 => x.total == 0, 2 => x.total > 0 && !all, 3 => all, _ => false }, "{} is {} with {} deposited, {} claimed, {} unclaimed: {}", id, x.status, x.total, x.claimed, x.unclaimed, fmt_ev(ev));
            }
            if let Some(x) = post.old.get(id) { ensure!(x.status == "Cleared" && x.unclaimed == 0 && x.claimed == x.total, "removed farm {} keeps {:?}: {}", id, x, fmt_ev(ev));
                ensure!(!post.seeds.values().any(|s| s.farms.contains(id)), "removed farm {} still listed under a seed: {}", id, fmt_ev(ev)); }
            if was == now { continue; }
            let by = match (was, now) { (0, 1) => ev.method == "create_simple_farm", (1, 2) | (1, 3) => ev.method == "ft_on_transfer" && a["msg"] == json!(id) && (now == 2 || released(post.farm(id).unwrap(), ev.ts) == post.farm(id).unwrap().total), (3, 4) => ev.method == "force_clean_farm" && a["farm_id"] == json!(id) && ev.pred == pre.owner(), _ => false };
            ensure!(by && ok, "{} goes from stage {} to {} by {}", id, was, now, fmt_ev(ev));
            env.rep.eval(&format!("stage {} -> {}", was, now), Some(h(format!("{} {} {} {}", was, now, post.farm(id).map_or(0, |x| lg(x.total)), post.all().count()))));
        }
        for (k, s) in &post.seeds { let o = pre.seeds.get(k); ensure!(s.next >= o.map_or(0, |x| x.next), "index of {} goes back: {}", k, fmt_ev(ev)); for id in &s.farms { ensure!(post.farms.contains_key(id), "seed {} lists {} which does not exist: {}", k, id, fmt_ev(ev)); } }
        match ev.method.as_str() {
            "create_simple_farm" if ok => {
                let id = serde_json::from_str::<String>(ev.ok.as_ref().unwrap()).unwrap_or_default();
                ensure!(self.ids.insert(id.clone()) && pre.farm(&id).is_none() && rank(post, &id) == 1, "farm identifier {} is not new: {}", id, fmt_ev(ev));
                ensure!(post.farms[&id].seed == a["terms"]["seed_id"].as_str().unwrap_or("") && post.farms[&id].token == a["terms"]["reward_token"].as_str().unwrap_or(""), "{} created as {:?}: {}", id, post.farms[&id], fmt_ev(ev));
                env.rep.eval("created", Some(h(format!("{} {}", id, post.farms.len()))));
            }
            "ft_on_transfer" if a["msg"].as_str().map_or(false, |m| !m.is_empty()) => {
                let id = a["msg"].as_str().unwrap();
                let amt = num(&a["amount"]);
                let stage = rank(pre, id);
                let right = pre.farms.get(id).map_or(false, |x| x.token == ev.pred);
                let may = pre.running() && right && (stage == 1 || stage == 2);
                ensure!(ok == may, "reward of {} {} for {} (stage {}, its token {}) {}: {}", amt, ev.pred, id, stage, right, if ok { "accepted" } else { "refused" }, fmt_ev(ev));
                if ok { let (x, y) = (&pre.farms[id], &post.farms[id]); ensure!(y.total == x.total + amt && y.claimed == x.claimed && y.benef == x.benef, "top-up of {} by {}: {:?} -> {:?}", id, amt, x, y); }
                env.rep.eval(&format!("reward at stage {} {}", stage, if ok { "accepted" } else { "refused" }), Some(h(format!("{} {} {}", stage, right, lg(amt) / 2))));
                env.rep.sample(&format!("reward {} {}", stage, ok), || json!(fmt_ev(ev)));
            }
            "force_clean_farm" => {
                let id = a["farm_id"].as_str().unwrap_or("");
                let stage = rank(pre, id);
                let gone = rank(post, id) == 4 && stage != 4;
                let may = ev.pred == pre.owner() && stage == 3;
                ensure!(gone == may, "removal of {} at stage {} by {}: removed {}: {}", id, stage, ev.pred, gone, fmt_ev(ev));
                if ok { ensure!(ev.ok.as_ref().unwrap() == if gone { "true" } else { "false" }, "removal of {} reported as {:?}", id, ev.ok); }
                if gone { let (x, y) = (&pre.farms[id], &post.old[id]); ensure!(y.total == x.total && y.benef == x.benef + x.unclaimed, "removal of {}: unclaimed {} must go to the beneficiary, {} -> {}", id, x.unclaimed, x.benef, y.benef); }
                env.rep.eval(&format!("removal at stage {} {}", stage, if gone { "done" } else { "refused" }), Some(h(format!("{} {} {}", stage, ev.pred == pre.owner(), pre.farms.get(id).map_or(0, |x| lg(x.unclaimed) / 3)))));
                env.rep.sample(&format!("removal {} {}", stage, gone), || json!(fmt_ev(ev)));
            }
            _ => env.rep.eval("other call", None),
        }
        Ok(())
    }
    fn extra(&mut self, f: &mut FW, r: &mut Rng) -> Option<Op> {
        if !r.p(15) { return None; }
        let s = f.lazy();
        // short-lived farms, topped up or removed around their end
        let id: String = { let v: Vec<&String> = s.farms.keys().chain(s.old.keys()).collect(); if v.is_empty() { return None; } (*r.pick(&v)).clone() };
        let x = s.farm(&id).unwrap().clone();
        Some(match r.below(4) {
            0 if x.status == "Running" => { let left = x.total.saturating_sub(released(&x, f.w.ch.ts)); let k = (left / x.per.max(1)).min(100_000) as u64; f.w.ch.ts += (k + r.below(3)).saturating_sub(1) * x.interval * SEC; return None; }
            1 => gen::op_at(FOWN, if r.p(10) && crate::farmw::FTOKS.iter().any(|t| t.0 == x.seed) { &x.seed } else { &x.token }, "ft_transfer_call", json!({"receiver_id":FARM,"amount":(1 + r.below128(x.per.max(1) * 2)).to_string(),"msg":id}), 1),
            2 => gen::op_at(FOWN, FARM, "force_clean_farm", json!({"farm_id":id}), 0),
            _ => { let o = create(r, f); o }
        })
    }
}
fn c43(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut f = fworld(env.codes, &mut r, false);
    let s = f.snap();
    let mut m = M43 { ids: s.farms.keys().cloned().collect(), rank: BTreeMap::new() };
    let mx = FMix { admin: 25, fault: 2, storage: 2, ..Default::default() };
    fsoup(env, &mut f, &mut r, 150, &mx, &mut m)
}

// ------------------------------------------------------------------ C44
struct M44 { deps: Deps }
impl FMon for M44 {
    fn after(&mut self, f: &mut FW, st: &FStep, env: &mut Env) -> Res {
        self.deps.scan(f);
        let (pre, post, ev) = (&st.pre, &st.post, &st.ev);
        if ev.receiver != FARM { return Ok(()); }
        let a = args(&ev.args);
        let ok = ev.ok.is_ok();
        let who = actor(ev);
        // farms whose rewards this call settles for the farmer
        let seed = match ev.method.as_str() {
            "withdraw_seed" | "claim_reward_by_seed" | "callback_post_withdraw_ft_seed" | "callback_post_withdraw_mft_seed" => a["seed_id"].as_str().map(String::from),
            "ft_on_transfer" if a["msg"] == json!("") => Some(ev.pred.clone()),
            "mft_on_transfer" => a["token_id"].as_str().and_then(|t| t.strip_prefix(":")).map(|p| format!("{}@{}", ev.pred, p)),
            _ => None,
        };
        let mut settled: Vec<String> = vec![];
        if ok {
            if ev.method == "claim_reward_by_farm" { settled.extend(a["farm_id"].as_str().map(String::from)); }
            let paid_cb = ev.method.starts_with("callback_") && dep_failed(f, ev, &self.deps.0) == Some(false);
            if let (Some(sd), false) = (&seed, paid_cb) { settled.extend(pre.farms.iter().filter(|x| x.1.seed == *sd).map(|x| x.0.clone())); }
        }
        let mut want: BTreeMap<(String, String), i128> = BTreeMap::new();
        let mut cat = ev.method.clone();
        let mut key = String::new();
        for id in &settled { if let Some(x) = pre.farms.get(id) {
            let due = pre.uncl(&who, id);
            *want.entry((who.clone(), x.token.clone())).or_insert(0) += due as i128;
            ensure!(post.uncl(&who, id) == 0, "{} still shows {} unclaimed for {} right after {}", id, post.uncl(&who, id), who, fmt_ev(ev));
            if due > 0 { key.push_str(&format!("{} ", lg(due) / 3)); }
        } }
        match ev.method.as_str() {
            "claim_reward_by_farm" | "claim_reward_by_seed" => {
                if !ok && pre.running() && pre.known(&who) && ev.deposit == 0 {
                    let (d, us) = pre.users[&who].near.unwrap();
                    let n = settled_scope(pre, &a);
                    let wellformed = a["farm_id"].as_str().map_or(true, |x| x.contains('#'));
                    ensure!(d < us + FBYTE * (n * (84 + 165)) || !wellformed, "{} may not claim: {}", who, fmt_ev(ev));
                }
                cat = format!("claim {}", if !ok { "refused" } else if key.is_empty() { "of nothing" } else { "paid" });
            }
            "withdraw_reward" => {
                let t = a["token_id"].as_str().unwrap_or("").to_string();
                let have = pre.users.get(&who).and_then(|x| x.rewards.get(&t)).copied();
                let x = match a.get("amount") { Some(v) if !v.is_null() => num(v), _ => 0 };
                let x = if x == 0 { have.unwrap_or(0) } else { x };
                let may = pre.running() && ev.deposit == 1 && have.map_or(false, |y| x <= y);
                ensure!(ok == may, "{} withdraws {} of {:?} {}: {}", who, x, have, t, fmt_ev(ev));
                if ok {
                    *want.entry((who.clone(), t.clone())).or_insert(0) -= x as i128;
                    let outs: Vec<&Receipt> = f.w.ch.pending.iter().filter(|p| ev.created.contains(&p.id) && p.receiver != FARM).collect();
                    let good = outs.len() == 1 && { let (m, b) = call_of(outs[0]).unwrap_or_default(); outs[0].receiver == t && m == "ft_transfer" && b["receiver_id"] == json!(who) && num(&b["amount"]) == x };
                    ensure!(good, "withdrawal sends {:?}: {}", outs, fmt_ev(ev));
                }
                cat = format!("withdrawal {}", if ok { "started" } else { "refused" });
                key = format!("{} {}", lg(x) / 3, have.map_or(0, |y| 1 + lg(y) / 3));
            }
            "callback_post_withdraw_reward" if ev.pred == FARM => {
                let failed = dep_failed(f, ev, &self.deps.0).unwrap_or(false);
                let (t, x) = (a["token_id"].as_str().unwrap_or("").to_string(), num(&a["amount"]));
                ensure!(ok, "settlement of a reward withdrawal breaks ({} {} for {}, transfer {}): {}", x, t, who, if failed { "failed" } else { "done" }, fmt_ev(ev));
                if failed { *want.entry((who.clone(), t.clone())).or_insert(0) += x as i128; }
                cat = format!("withdrawal {}", if failed { "restored" } else { "paid" });
                key = format!("{} {} {}", lg(x) / 3, pre.known(&who), lg(pre.reward(&who, &t)) / 3);
            }
            _ => {}
        }
        let mut toks: BTreeSet<String> = post.farms.values().chain(post.old.values()).map(|x| x.token.clone()).collect();
        for u in post.users.values().chain(pre.users.values()) { toks.extend(u.rewards.keys().cloned()); }
        for u in &f.accts { for t in &toks {
            let d = post.reward(u, t) as i128 - pre.reward(u, t) as i128;
            let x = want.get(&(u.clone(), t.clone())).copied().unwrap_or(0);
            ensure!(d == x, "rewards of {} in {} change by {}, expected {}: {}", u, t, d, x, fmt_ev(ev));
        } 
            // nobody else's unclaimed rewards move
            if *u != who { for id in pre.farms.keys() { if post.farms.contains_key(id) { let topped = ok && ev.method == "ft_on_transfer" && a["msg"] == json!(id) && pre.farms[id].status == "Created";
                ensure!(post.uncl(u, id) == pre.uncl(u, id) || topped, "unclaimed rewards of {} in {} change from {} to {} by {}", u, id, pre.uncl(u, id), post.uncl(u, id), fmt_ev(ev)); } } }
        }
        if let Some(u) = post.users.get(&who) { for (t, x) in &u.rewards { if pre.reward(&who, t) != *x { let v = num(&f.fc("get_reward", json!({"account_id":who,"token_id":t}))); ensure!(v == *x, "get_reward of {} says {}, list_rewards {}", who, v, x); } } }
        env.rep.eval(&cat, if key.is_empty() { None } else { Some(h(format!("{} {}", cat, key))) });
        if !key.is_empty() { env.rep.sample(&cat, || json!(fmt_ev(ev))); }
        // claiming again at once gives nothing
        if ok && ev.method.starts_with("claim_") && (ev.rid % 3 == 0) {
            let mut g = f.clone();
            g.w.ch.dt = 0;
            let b = g.snap();
            if call(&mut g, &who, &ev.method, &a, 0).is_ok() {
                let c = g.snap();
                for t in &toks { { ensure!(c.reward(&who, t) == b.reward(&who, t), "claiming again at once gives {} more {}: {}", c.reward(&who, t) as i128 - b.reward(&who, t) as i128, t, fmt_ev(ev)); } }
                env.rep.eval("claimed again at once", Some(h(format!("{} {}", ev.method, key))));
            }
        }
        Ok(())
    }
}
fn settled_scope(s: &FSnap, a: &Value) -> u128 { match a["seed_id"].as_str() { Some(sd) => s.farms.values().filter(|x| x.seed == sd).count() as u128, None => 1 } }
fn c44(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut f = fworld(env.codes, &mut r, true);
    let mut m = WithLeave(M44 { deps: Deps::default() });
    let mx = FMix { fault: *r.pick(&[2, 6, 12]), admin: 4, ..Default::default() };
    fsoup(env, &mut f, &mut r, 120, &mx, &mut m)
}

// ------------------------------------------------------------------ C45
struct M45 { min: u128, pool: i128 }
impl FMon for M45 {
    fn after(&mut self, f: &mut FW, st: &FStep, env: &mut Env) -> Res {
        let (pre, post, ev) = (&st.pre, &st.post, &st.ev);
        let rec: u128 = post.users.values().filter_map(|u| u.near).map(|x| x.0).sum();
        ensure!(f.w.ch.accounts[FARM].balance >= rec, "farming holds {} yoctoNEAR, farmers are recorded with {}: {}", f.w.ch.accounts[FARM].balance, rec, fmt_ev(ev));
        if ev.receiver != FARM { return Ok(()); }
        let a = args(&ev.args);
        let ok = ev.ok.is_ok();
        let who = ev.pred.clone();
        let near = |s: &FSnap, u: &str| s.users.get(u).and_then(|x| x.near);
        // NEAR sent out by this call
        let mut paid: BTreeMap<String, u128> = BTreeMap::new();
        let mut tips = 0u128;
        for p in f.w.ch.pending.iter().filter(|p| ev.created.contains(&p.id)) { for act in &p.actions { match act { Action::Transfer(d) => *paid.entry(p.receiver.clone()).or_insert(0) += *d, Action::Call { deposit, .. } => tips += *deposit, _ => {} } } }
        let d_bal = st.bal.1 as i128 - st.bal.0 as i128;
        let d_rec: i128 = f.accts.iter().map(|u| near(post, u).map_or(0, |x| x.0) as i128 - near(pre, u).map_or(0, |x| x.0) as i128).sum();
        let out: u128 = paid.values().sum();
        if ok { ensure!(d_bal == ev.deposit as i128 - out as i128 - tips as i128, "balance moves by {} with {} attached, {} paid and {} passed on: {}", d_bal, ev.deposit, out, tips, fmt_ev(ev)); } else { ensure!(d_bal == 0 && d_rec == 0, "a failed call moves NEAR: {}", fmt_ev(ev)); }
        let kept = d_bal - d_rec;
        // what may stay with the contract: the price of a new farm's records, or a required yocto
        match ev.method.as_str() {
            "create_simple_farm" => {}
            "transfer" => {}
            "storage_withdraw" | "storage_unregister" | "pause_contract" | "resume_contract" => ensure!(kept == if ok { 1 } else { 0 }, "{} yoctoNEAR unaccounted: {}", kept, fmt_ev(ev)),
            "withdraw_seed" | "withdraw_reward" => ensure!(kept == 0 && tips <= 1, "{} yoctoNEAR unaccounted, {} passed on: {}", kept, tips, fmt_ev(ev)),
            _ => ensure!(kept == 0, "{} yoctoNEAR unaccounted: {}", kept, fmt_ev(ev)),
        }
        self.pool += kept;
        // storage records move only by storage calls
        for u in &f.accts {
            let (x, y) = (near(pre, u), near(post, u));
            let same = x.map(|z| z.0) == y.map(|z| z.0);
            let may = match ev.method.as_str() { "storage_deposit" => a["account_id"].as_str().unwrap_or(&who) == u, "storage_withdraw" | "storage_unregister" => *u == who, m if m.starts_with("callback_post_withdraw") && ev.pred == FARM => x.is_none() && y.map_or(false, |z| z.0 == 0) && sender(&a) == *u, _ => false };
            ensure!(same || may, "storage balance of {} changes from {:?} to {:?}: {}", u, x, y, fmt_ev(ev));
            if let Some((d, us)) = y { let v = f.fc("storage_balance_of", json!({"account_id":u})); ensure!(num(&v["total"]) == d && num(&v["available"]) == d.saturating_sub(us), "storage_balance_of {} is {}, record {:?}", u, v, y); }
        }
        for u in paid.keys() { ensure!(*u == ev.pred, "{:?} yoctoNEAR paid out: {}", paid, fmt_ev(ev)); }
        let mine = near(pre, &who);
        let mut cat = ev.method.clone();
        let mut key = String::new();
        match ev.method.as_str() {
            "storage_deposit" => {
                let tgt = a["account_id"].as_str().unwrap_or(&who).to_string();
                let reg = near(pre, &tgt);
                let only = a["registration_only"] == json!(true);
                let d = ev.deposit;
                let fresh = reg.map_or(true, |x| x.0 == 0);
                let may = pre.running() && if fresh { d >= self.min } else { !only && reg.map_or(false, |x| x.0 + d >= x.1) };
                ensure!(ok == may, "storage_deposit of {} for {} ({:?}, minimum {}) {}: {}", d, tgt, reg, self.min, if ok { "accepted" } else { "refused" }, fmt_ev(ev));
                if ok {
                    let (to, back) = if fresh && only { (self.min, d - self.min) } else { (reg.map_or(0, |x| x.0) + d, 0) };
                    ensure!(near(post, &tgt).map(|x| x.0) == Some(to) && out == back, "deposit of {}: record {:?} -> {:?}, {} returned: {}", d, reg, near(post, &tgt), out, fmt_ev(ev));
                }
                cat = format!("deposit only={} known={} {}", only, !fresh, if ok { "done" } else { "refused" });
                key = format!("{} {}", lg(d), reg.map_or(0, |x| lg(x.0)));
            }
            "storage_withdraw" => {
                let av = mine.map(|(d, us)| d.checked_sub(us));
                let x = match a.get("amount") { Some(v) if !v.is_null() => Some(num(v)), _ => av.flatten() };
                let may = pre.running() && ev.deposit == 1 && match (mine, av.flatten(), x) { (Some((d, _)), Some(av), Some(x)) => d > 0 && x <= av, _ => false };
                ensure!(ok == may, "withdrawal of {:?} with record {:?} {}: {}", x, mine, if ok { "accepted" } else { "refused" }, fmt_ev(ev));
                if ok { let x = x.unwrap(); ensure!(out == x && near(post, &who).map(|z| z.0) == mine.map(|z| z.0 - x), "withdrawal of {}: record {:?} -> {:?}, {} paid: {}", x, mine, near(post, &who), out, fmt_ev(ev)); }
                cat = format!("withdrawal {}", if ok { "done" } else { "refused" });
                key = format!("{} {}", x.map_or(0, lg), av.flatten().map_or(0, lg));
            }
            "storage_unregister" => {
                let u = pre.users.get(&who).cloned().unwrap_or_default();
                let empty = u.seeds.is_empty() && u.rewards.values().all(|x| *x == 0);
                let may = pre.running() && ev.deposit == 1 && empty;
                ensure!(ok == may, "unregistration with {:?} {}: {}", u, if ok { "accepted" } else { "refused" }, fmt_ev(ev));
                if ok { ensure!(near(post, &who).is_none() && out == mine.map_or(0, |x| x.0) && ev.ok.as_ref().unwrap() == if mine.is_some() { "true" } else { "false" }, "unregistration: record {:?} -> {:?}, {} paid: {}", mine, near(post, &who), out, fmt_ev(ev)); }
                cat = format!("unregistration known={} {}", mine.is_some(), if ok { "done" } else { "refused" });
                key = format!("{} {} {}", mine.map_or(0, |x| lg(x.0)), u.seeds.len(), u.rewards.len());
            }
            "create_simple_farm" if ok => {
                // the price of the records, the rest back
                let cost = ev.deposit - out;
                ensure!(cost <= FBYTE * st.grown.max(0) as u128, "creating a farm costs {} although its records take {} bytes: {}", cost, st.grown, fmt_ev(ev));
                key = format!("{} {}", lg(cost), lg(ev.deposit));
            }
            _ => { if d_bal != 0 { key = format!("{} {}", d_bal.signum(), lg(ev.deposit)); } }
        }
        // staking and claiming need paid storage
        if ok && !cat.starts_with("callback") {
            let u = match ev.method.as_str() { "claim_reward_by_farm" | "claim_reward_by_seed" => Some(who.clone()), "ft_on_transfer" | "mft_on_transfer" if a["msg"] == json!("") && num(&serde_json::from_str(ev.ok.as_ref().unwrap()).unwrap_or(Value::Null)) == 0 => Some(sender(&a)), _ => None };
            if let Some(u) = u { if pre.users.get(&u) != post.users.get(&u) {
                let z = near(post, &u);
                ensure!(z.map_or(false, |(d, us)| d >= us), "{} ends up with storage record {:?} (balance, usage): {}", u, z, fmt_ev(ev));
                env.rep.eval("stake or claim within paid storage", Some(h(format!("{} {:?}", ev.method, z.map(|(d, us)| lg(d - us))))));
            } }
        }
        let n = post.users.values().filter(|u| u.near.is_some()).count() as u64;
        ensure!(num(&post.meta["farmer_count"]) as u64 == n, "{} farmers known, {} counted: {}", n, post.meta["farmer_count"], fmt_ev(ev));
        env.rep.eval(&cat, if key.is_empty() { None } else { Some(h(format!("{} {}", cat, key))) });
        if !key.is_empty() { env.rep.sample(&cat, || json!(fmt_ev(ev))); }
        Ok(())
    }
    fn extra(&mut self, f: &mut FW, r: &mut Rng) -> Option<Op> {
        if r.p(50) { leave(f, r) } else if r.p(40) { // a farmer at the edge of what its storage pays for
            let s = f.lazy(); let u = r.pick(&USERS).to_string(); let (d, us) = s.users.get(&u).and_then(|x| x.near)?; if d <= us { return None; }
            let av = d - us; Some(gen::op_at(&u, FARM, "storage_withdraw", json!({"amount":(av - r.below128(av.min(FBYTE * 200) + 1)).to_string()}), 1))
        } else { None }
    }
}
fn c45(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut f = fworld(env.codes, &mut r, false);
    let min = num(&f.w.ch.view(FARM, "storage_balance_bounds", json!({})).unwrap()["min"]);
    let mut m = M45 { min, pool: 0 };
    let mx = FMix { storage: 35, fault: 5, ..Default::default() };
    fsoup(env, &mut f, &mut r, 150, &mx, &mut m)
}

// ------------------------------------------------------------------ C46
fn forged(f: &mut FW, pred: &str, m: &str, a: &Value, res: &[PRes]) -> Result<String, String> {
    let w = &mut f.w;
    let mut deps = vec![];
    for x in res { let id = w.ch.next_id; w.ch.next_id += 1; w.ch.results.insert(id, x.clone()); deps.push(id); }
    let id = w.ch.next_id; w.ch.next_id += 1;
    w.ch.pending.push_back(Receipt { id, parent: None, pred: pred.into(), signer: pred.into(), receiver: FARM.into(), actions: vec![Action::Call { method: m.into(), args: a.to_string().into_bytes(), deposit: 0, gas: 300_000_000_000_000 }], deps });
    let i = w.pos(id).unwrap();
    let k = w.exec_fast(i);
    w.ch.log[k].ok.clone()
}
fn call(f: &mut FW, who: &str, m: &str, a: &Value, dep: u128) -> Result<String, String> {
    let id = f.w.ch.send(who, FARM, m, a.clone(), dep);
    let i = f.w.pos(id).unwrap();
    let k = f.w.exec_fast(i);
    f.w.ch.log[k].ok.clone()
}
/// stakes, credits and storage balances
fn holdings(s: &FSnap) -> BTreeMap<String, (BTreeMap<String, u128>, BTreeMap<String, u128>, Option<(u128, u128)>)> { s.users.iter().map(|(k, u)| (k.clone(), (u.seeds.clone(), u.rewards.clone(), u.near))).collect() }
fn admin_view(s: &FSnap) -> String { format!("{} {} {:?} {:?}", s.owner(), s.meta["state"], s.farms.keys().chain(s.old.keys()).collect::<Vec<_>>(), s.seeds.iter().map(|x| (x.0, x.1.min, x.1.next)).collect::<Vec<_>>()) }
struct M46 { pending_refund: u64 }
impl FMon for M46 {
    fn after(&mut self, f: &mut FW, st: &FStep, env: &mut Env) -> Res {
        let (pre, post, ev) = (&st.pre, &st.post, &st.ev);
        if ev.receiver != FARM { return Ok(()); }
        let a = args(&ev.args);
        let (o, ok) = (pre.owner(), ev.ok.is_ok());
        // settings move only by the owner's matching call
        if pre.owner() != post.owner() { ensure!(ev.method == "set_owner" && ev.pred == o && post.owner() == a["owner_id"].as_str().unwrap_or(""), "owner changes from {} to {}: {}", o, post.owner(), fmt_ev(ev)); }
        if pre.meta["state"] != post.meta["state"] { ensure!(ev.pred == o && ev.deposit == 1 && ev.method == if pre.running() { "pause_contract" } else { "resume_contract" }, "state changes: {}", fmt_ev(ev)); }
        for (k, s) in &post.seeds { let p = pre.seeds.get(k); if p.map(|x| x.min) != Some(s.min) { ensure!(ev.pred == o && match p { Some(_) => ev.method == "modify_seed_min_deposit" && a["seed_id"] == json!(k) && num(&a["min_deposit"]) == s.min, None => ev.method == "create_simple_farm" && a["terms"]["seed_id"] == json!(k) }, "minimum of {} changes to {}: {}", k, s.min, fmt_ev(ev)); } }
        if pre.farms.keys().ne(post.farms.keys()) { ensure!(ev.pred == o && (ev.method == "create_simple_farm" || ev.method == "force_clean_farm"), "farms change: {}", fmt_ev(ev)); }
        if ["create_simple_farm", "force_clean_farm", "modify_seed_min_deposit", "set_owner", "pause_contract", "resume_contract"].contains(&ev.method.as_str()) {
            ensure!(!ok || ev.pred == o, "{} accepted from {} (owner {}): {}", ev.method, ev.pred, o, fmt_ev(ev));
            if ev.method == "pause_contract" && ok { ensure!(!post.running(), "paused without effect: {}", fmt_ev(ev)); }
            if ev.method == "resume_contract" && ok { ensure!(post.running(), "resumed without effect: {}", fmt_ev(ev)); }
            env.rep.eval(&format!("{} by {}", ev.method, if ev.pred == o { "the owner" } else { "another" }), Some(h(format!("{} {} {} {}", ev.method, ev.pred, ok, pre.running()))));
        }
        if ev.method.starts_with("callback_") || ev.method == "migrate" { ensure!(!ok || ev.pred == FARM, "{} accepted from {}", ev.method, ev.pred); }
        if ["withdraw_seed", "withdraw_reward", "storage_withdraw", "storage_unregister"].contains(&ev.method.as_str()) { ensure!(!ok || ev.deposit == 1, "{} with {} attached succeeds: {}", ev.method, ev.deposit, fmt_ev(ev)); }
        if !pre.running() {
            let settle = ev.method.starts_with("callback_") && ev.pred == FARM;
            if !settle { ensure!(holdings(pre) == holdings(post), "stakes, rewards or storage balances change while paused: {}", fmt_ev(ev)); }
            if ev.method == "ft_on_transfer" || ev.method == "mft_on_transfer" { ensure!(!ok, "tokens accepted while paused: {}", fmt_ev(ev)); self.pending_refund += 1; }
            env.rep.eval(if settle { "settlement while paused" } else { "call while paused" }, Some(h(format!("p {} {} {}", ev.method, ok, ev.pred))));
            env.rep.sample(&format!("paused {}", ev.method), || json!(fmt_ev(ev)));
        }
        let _ = f;
        Ok(())
    }
}
fn c46(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut f = fworld(env.codes, &mut r, false);
    let mut m = M46 { pending_refund: 0 };
    let mx = FMix { pause: 6, admin: 10, ..Default::default() };
    fsoup(env, &mut f, &mut r, 70, &mx, &mut m)?;
    heal(&mut f);
    let s = f.snap();
    let mut owner = s.owner();
    if !s.running() { frun(env, &mut f, &mut r, &mut m, &owner, FARM, "resume_contract", json!({}), 1)?.ok(); }
    if r.p(30) { let n = r.pick(&USERS).to_string(); let z = frun(env, &mut f, &mut r, &mut m, &owner, FARM, "set_owner", json!({"owner_id":n}), 0)?; ensure!(z.is_ok(), "the owner cannot hand over: {:?}", z); owner = n; }
    // somebody with a stake and a credit
    f.w.ch.ts += 5000 * SEC;
    for u in USERS.iter() { for sd in f.snap().seeds.keys().cloned().collect::<Vec<_>>() { if f.snap().stake(u, &sd) > 0 { let _ = f.w.tx(u, FARM, "claim_reward_by_seed", json!({"seed_id":sd}), 0); } } }
    let s = f.snap();
    let farm = s.farms.keys().next().cloned().unwrap_or("seed.t#0".into());
    let seed = s.seeds.keys().next().cloned().unwrap_or("seed.t".into());
    let cr = create(&mut r, &f);
    let over = s.farms.iter().find(|x| x.1.status == "Ended").map(|x| x.0.clone()).unwrap_or(farm.clone());
    let rows: Vec<(&str, Value, u128)> = vec![
        ("create_simple_farm", cr.a.clone(), NEAR / 10), ("force_clean_farm", json!({"farm_id":over}), 0), ("modify_seed_min_deposit", json!({"seed_id":seed,"min_deposit":"77"}), 0),
        ("set_owner", json!({"owner_id":"stray.near"}), 0), ("pause_contract", json!({}), 1), ("resume_contract", json!({}), 1),
    ];
    let own: Vec<(&str, Value, Vec<PRes>)> = { let mut v: Vec<(&str, Value, Vec<PRes>)> = vec![("migrate", json!({}), vec![])];
        for res in [PRes::Failed, PRes::Ok(vec![])].iter() {
            v.push(("callback_post_withdraw_ft_seed", json!({"seed_id":seed,"sender_id":USERS[0],"amount":"1000"}), vec![res.clone()]));
            v.push(("callback_post_withdraw_mft_seed", json!({"seed_id":seed,"sender_id":USERS[0],"amount":"1000"}), vec![res.clone()]));
            v.push(("callback_post_withdraw_reward", json!({"token_id":"rwa.t","sender_id":USERS[0],"amount":"1000"}), vec![res.clone()]));
        } v };
    let callers: Vec<&str> = vec![FOWN, OWNER, USERS[0], USERS[1], USERS[2], USERS[3], "stray.near", EX, FARM, "seed.t"];
    for (mt, a, dep) in &rows {
        let works = call(&mut f.clone(), &owner, mt, a, *dep).is_ok();
        for c in &callers {
            if *c == owner && !(*dep == 1) { if works { env.rep.eval("owner may", Some(h(format!("{} {}", mt, c)))); } continue; }
            for d in [*dep, 0, 1, 2].iter().take(if *dep == 1 { 4 } else { 1 }) {
                if *c == owner && *d == 1 { continue; }
                if f.w.ch.bal(c) < *d { continue; }
                let mut g = f.clone();
                let z = call(&mut g, c, mt, a, *d);
                if z.is_ok() || admin_view(&g.snap()) != admin_view(&s) { *env.story = g.w.story(20); return Err(format!("{} {} by {} (owner {}) with {} yoctoNEAR succeeds or changes settings: {:?}", mt, a, c, owner, d, z)); }
                env.rep.eval("refused", if works { Some(h(format!("{} {} {}", mt, c, d))) } else { None });
            }
        }
    }
    for (mt, a, res) in &own {
        let works = forged(&mut f.clone(), FARM, mt, a, res).is_ok();
        for c in callers.iter().filter(|c| **c != FARM).chain([owner.as_str()].iter()) {
            let mut g = f.clone();
            let z = forged(&mut g, c, mt, a, res);
            if z.is_ok() || holdings(&g.snap()) != holdings(&s) { *env.story = g.w.story(20); return Err(format!("{} {} from {} is accepted: {:?}", mt, a, c, z)); }
            env.rep.eval("forged refused", if works { Some(h(format!("{} {} {}", mt, c, matches!(res.first(), Some(PRes::Failed))))) } else { None });
        }
    }
    // `upgrade` deploys code: only for the owner
    for c in callers.iter() { if *c == owner { continue; } let mut g = f.clone(); let id = g.w.ch.send_raw(c, FARM, "upgrade", b"\0asm".to_vec(), 0); let i = g.w.pos(id).unwrap(); let k = g.w.exec_fast(i);
        if g.w.ch.log[k].ok.is_ok() || !g.w.ch.log[k].created.is_empty() { *env.story = g.w.story(20); return Err(format!("upgrade by {} (owner {}) is accepted", c, owner)); }
        env.rep.eval("refused", Some(h(format!("upgrade {}", c)))); }
    { let mut g = f.clone(); let id = g.w.ch.send_raw(&owner, FARM, "upgrade", b"\0asm".to_vec(), 0); let i = g.w.pos(id).unwrap(); let k = g.w.exec_fast(i); let e = g.w.ch.log[k].clone();
        if e.ok.is_err() || e.created.is_empty() { return Err(format!("the owner cannot upgrade: {:?}", e.ok)); } env.rep.eval("owner may", Some(h("upgrade".into()))); }
    // the wrong deposit on withdrawals, and everything while paused
    let mut users: Vec<(String, &str, Value, u128)> = vec![];
    for u in USERS.iter() { if let Some(x) = s.users.get(*u) {
        for (sd, y) in x.seeds.iter().take(2) { users.push((u.to_string(), "withdraw_seed", json!({"seed_id":sd,"amount":(y / 2).max(1).to_string()}), 1)); users.push((u.to_string(), "claim_reward_by_seed", json!({"seed_id":sd}), 0)); }
        for t in x.rewards.keys().take(2) { users.push((u.to_string(), "withdraw_reward", json!({"token_id":t}), 1)); }
        for id in s.farms.keys().take(3) { users.push((u.to_string(), "claim_reward_by_farm", json!({"farm_id":id}), 0)); }
        for id in s.old.keys().take(2) { users.push((u.to_string(), "remove_user_rps_by_farm", json!({"farm_id":id}), 0)); }
        users.push((u.to_string(), "storage_withdraw", json!({"amount":"1"}), 1));
        if x.seeds.is_empty() && x.rewards.is_empty() { users.push((u.to_string(), "storage_unregister", json!({}), 1)); }
        users.push((u.to_string(), "storage_deposit", json!({}), NEAR));
        users.push((u.to_string(), "storage_deposit", json!({"account_id":"stray.near"}), NEAR));
    } }
    let mut p = f.clone();
    if call(&mut p, &owner, "pause_contract", &json!({}), 1).is_err() { return Err("the owner cannot pause".into()); }
    for (u, mt, a, dep) in &users {
        let works = call(&mut f.clone(), u, mt, a, *dep).is_ok();
        if *dep == 1 { for d in [0u128, 2, NEAR] { let mut g = f.clone(); let z = call(&mut g, u, mt, a, d); if z.is_ok() { *env.story = g.w.story(20); return Err(format!("{} {} by {} with {} yoctoNEAR succeeds", mt, a, u, d)); } env.rep.eval("wrong deposit", if works { Some(h(format!("{} {}", mt, d))) } else { None }); } }
        let mut g = p.clone();
        let b = g.snap();
        let z = call(&mut g, u, mt, a, *dep);
        g.w.drain();
        if z.is_ok() || holdings(&b) != holdings(&g.snap()) { *env.story = g.w.story(20); return Err(format!("{} {} by {} while paused: {:?}", mt, a, u, z)); }
        env.rep.eval("paused", if works { Some(h(format!("{} {} {}", mt, u, a))) } else { None });
        if works { env.rep.count(&format!("paused {}", mt)); }
    }
    // incoming tokens while paused come back
    for _ in 0..6 {
        let u = r.pick(&USERS).to_string();
        let sd = r.pick(&seed_ids()).clone();
        let amt = 2_000_000_000_000_000_000u128 * (1 + r.below128(5));
        let (recv, mt, a) = match sd.strip_prefix(&format!("{}@", EX)) { Some(q) => (EX.to_string(), "mft_transfer_call", json!({"token_id":format!(":{}", q),"receiver_id":FARM,"amount":amt.to_string(),"msg":""})), None => (sd.clone(), "ft_transfer_call", json!({"receiver_id":FARM,"amount":amt.to_string(),"msg": if r.p(50) { "".to_string() } else { farm.clone() }})) };
        let bal = |g: &FW, x: &str| match sd.strip_prefix(&format!("{}@", EX)) { Some(q) => g.w.share_of(q.parse().unwrap(), x), None => g.w.ledger(&sd, x) };
        let works = { let mut g = f.clone(); let b = bal(&g, &u); let _ = g.w.tx(&u, &recv, mt, a.clone(), 1); bal(&g, &u) != b };
        let mut g = p.clone();
        let (b, fb, hs) = (bal(&g, &u), bal(&g, FARM), g.snap());
        let _ = g.w.tx(&u, &recv, mt, a.clone(), 1);
        if bal(&g, &u) != b || bal(&g, FARM) != fb || holdings(&hs) != holdings(&g.snap()) { *env.story = g.w.story(20); return Err(format!("tokens sent while paused are not returned: {} {} {}: sender {} -> {}", recv, mt, a, b, bal(&g, &u))); }
        env.rep.eval("incoming while paused", if works { Some(h(format!("in {} {} {}", recv, u, lg(amt)))) } else { None });
    }
    Ok(())
}

// ---------------------------------------------------------------- C47
struct Quiet;
impl FMon for Quiet { fn after(&mut self, _f: &mut FW, _st: &FStep, _env: &mut Env) -> Res { Ok(()) } }
fn fviews(env: &mut Env, f: &mut FW, r: &mut Rng) -> Res {
    use super::views::{paged_list, paged_map};
    let t = f.w.ch.ts + r.below(3) * f.w.ch.dt;
    let get = |m: &str, a: Value| -> Result<Value, String> { f.w.ch.view_at(FARM, m, a.clone(), t).map_err(|e| format!("view {} {} fails: {}", m, a, e.chars().take(200).collect::<String>())) };
    let pg = |m: &str, i: u64, l: u64| get(m, json!({"from_index":i,"limit":l}));
    let lst = |v: Value| v.as_array().cloned().unwrap_or_default();
    let map = |v: Value| v.as_object().cloned().unwrap_or_default();
    let key = |fam: &str, n: usize| if n > 0 { Some(h(format!("{} {}", fam, n))) } else { None };
    let meta = get("get_metadata", json!({}))?;
    let cnt = |k: &str| num(&meta[k]) as usize;
    // farms, active and removed
    let farms = lst(pg("list_farms", 0, 1000)?);
    let old = lst(pg("list_outdated_farms", 0, 1000)?);
    ensure!(cnt("farm_count") == farms.len() && num(&get("get_number_of_farms", json!({}))?) as usize == farms.len(), "{} farms listed, counted {} and {}", farms.len(), cnt("farm_count"), get("get_number_of_farms", json!({}))?);
    ensure!(num(&get("get_number_of_outdated_farms", json!({}))?) as usize == old.len(), "removed farms miscounted");
    paged_list("list_farms", r, &farms, &mut |i, l| pg("list_farms", i, l))?;
    paged_list("list_outdated_farms", r, &old, &mut |i, l| pg("list_outdated_farms", i, l))?;
    let mut ids: BTreeSet<String> = BTreeSet::new();
    for (v, here, there) in farms.iter().map(|v| (v, "get_farm", "get_outdated_farm")).chain(old.iter().map(|v| (v, "get_outdated_farm", "get_farm"))) {
        let id = v["farm_id"].as_str().unwrap_or("").to_string();
        ensure!(ids.insert(id.clone()), "farm {} listed twice", id);
        ensure!(get(here, json!({"farm_id":id}))? == *v, "{} {} gives {}, the listing {}", here, id, get(here, json!({"farm_id":id}))?, v);
        ensure!(get(there, json!({"farm_id":id}))?.is_null(), "farm {} is shown both as active and as removed", id);
        ensure!(num(&v["claimed_reward"]) + num(&v["unclaimed_reward"]) <= num(&v["total_reward"]), "farm {} shows more handed out than deposited: {}", id, v);
        ensure!(num(&v["last_round"]) <= num(&v["cur_round"]), "farm {} shows rounds {} after {}", id, v["last_round"], v["cur_round"]);
    }
    env.rep.eval("farm listings", key("farms", farms.len() * 16 + old.len()));
    // seeds
    let seeds = map(pg("list_seeds", 0, 1000)?);
    // the farms of a seed are a set
    let sorted = |mut v: Value| -> Value { if let Some(o) = v.as_object_mut() { for x in o.values_mut() { let mut l = strs(&x["farms"]); l.sort(); x["farms"] = json!(l); } } v };
    let infos = map(sorted(pg("list_seeds_info", 0, 1000)?));
    ensure!(cnt("seed_count") == seeds.len() && seeds.keys().eq(infos.keys()), "seeds counted {}, listed {:?} and {:?}", cnt("seed_count"), seeds.keys().collect::<Vec<_>>(), infos.keys().collect::<Vec<_>>());
    paged_map("list_seeds", r, seeds.len() as u64, &seeds, &mut |i, l| pg("list_seeds", i, l))?;
    paged_map("list_seeds_info", r, infos.len() as u64, &infos, &mut |i, l| Ok(sorted(pg("list_seeds_info", i, l)?)))?;
    for (k, v) in &infos {
        ensure!(num(&v["amount"]) == num(&seeds[k]) && get("get_seed_info", json!({"seed_id":k}))?["amount"] == v["amount"], "seed {}: amounts {} {}", k, v["amount"], seeds[k]);
        let one = get("get_seed_info", json!({"seed_id":k}))?;
        let (mut a, mut b) = (v.clone(), one);
        let fs = |x: &mut Value| -> BTreeSet<String> { let s = strs(&x["farms"]).into_iter().collect(); x["farms"] = Value::Null; s };
        let (fa, fb) = (fs(&mut a), fs(&mut b));
        ensure!(a == b && fa == fb, "seed {}: {} and {}", k, a, b);
        let mine: BTreeSet<String> = farms.iter().filter(|x| x["seed_id"] == json!(k)).map(|x| x["farm_id"].as_str().unwrap_or("").to_string()).collect();
        ensure!(fa == mine, "seed {} lists farms {:?}, its active farms are {:?}", k, fa, mine);
        let by = lst(get("list_farms_by_seed", json!({"seed_id":k}))?);
        let by: BTreeMap<String, Value> = by.into_iter().map(|x| (x["farm_id"].as_str().unwrap_or("").to_string(), x)).collect();
        let want: BTreeMap<String, Value> = farms.iter().filter(|x| x["seed_id"] == json!(k)).map(|x| (x["farm_id"].as_str().unwrap_or("").to_string(), x.clone())).collect();
        ensure!(by == want, "list_farms_by_seed {} gives {:?}, expected {:?}", k, by.keys(), want.keys());
    }
    env.rep.eval("seed listings", key("seeds", infos.len() * 16 + farms.len()));
    let rinfo = map(pg("list_rewards_info", 0, 1000)?);
    ensure!(cnt("reward_count") == rinfo.len(), "{} reward tokens listed, {} counted", rinfo.len(), cnt("reward_count"));
    paged_map("list_rewards_info", r, rinfo.len() as u64, &rinfo, &mut |i, l| pg("list_rewards_info", i, l))?;
    env.rep.eval("reward tokens", key("rinfo", rinfo.len()));
    // accounts
    let mut regs = 0;
    let mut staked: BTreeMap<String, u128> = BTreeMap::new();
    let mut toks: BTreeSet<String> = FTOKS.iter().map(|x| x.0.to_string()).collect();
    toks.extend(rinfo.keys().cloned()); toks.insert("nobody.t".into());
    for a in f.accts.iter().cloned().chain(vec!["ghost.near".to_string()]) {
        let q = json!({"account_id":a});
        let (sb, ss) = (get("storage_balance_of", q.clone())?, get("get_user_storage_state", q.clone())?);
        ensure!(sb.is_null() == ss.is_null(), "{}: storage {} against {}", a, sb, ss);
        if !sb.is_null() { regs += 1; ensure!(num(&sb["total"]) == num(&ss["deposit"]) && num(&sb["available"]) == num(&ss["deposit"]).saturating_sub(num(&ss["usage"])), "{}: storage {} against {}", a, sb, ss); }
        let rw = map(get("list_rewards", q.clone())?);
        let us = map(get("list_user_seeds", q.clone())?);
        ensure!(!sb.is_null() || (rw.is_empty() && us.is_empty()), "{} is not registered but shows {:?} {:?}", a, rw, us);
        for k in &toks { let g = get("get_reward", json!({"account_id":a,"token_id":k}))?; ensure!(num(&g) == rw.get(k).map_or(0, num), "{}: reward of {} shown as {} and {:?}", a, k, g, rw.get(k)); }
        for k in rw.keys() { ensure!(toks.contains(k), "{} has a reward in {} that no farm pays", a, k); }
        for (k, x) in &us { ensure!(infos.contains_key(k), "{} has a stake in unknown seed {}", a, k); *staked.entry(k.clone()).or_insert(0) += num(x); }
        env.rep.eval("account views", key("acct", us.len() * 64 + rw.len() * 4 + sb.is_null() as usize));
    }
    for (k, v) in &seeds { let x = staked.get(k).copied().unwrap_or(0); ensure!(x == num(v), "seed {} shows {} staked, its stakers show {}", k, v, x); }
    ensure!(cnt("farmer_count") == regs, "{} farmers counted, {} accounts registered", cnt("farmer_count"), regs);
    // unknown items
    for id in ["seed.t#9999", "nobody.t#0"].iter() {
        ensure!(get("get_farm", json!({"farm_id":id}))?.is_null() && get("get_outdated_farm", json!({"farm_id":id}))?.is_null(), "unknown farm {} is shown", id);
        ensure!(num(&get("get_unclaimed_reward", json!({"account_id":USERS[0],"farm_id":id}))?) == 0, "an unclaimed reward of unknown farm {}", id);
    }
    ensure!(get("get_seed_info", json!({"seed_id":"nobody.t"}))?.is_null(), "unknown seed shown");
    for v in farms.iter().take(2) { ensure!(num(&get("get_unclaimed_reward", json!({"account_id":"ghost.near","farm_id":v["farm_id"]}))?) == 0, "a stranger has an unclaimed reward"); }
    for v in old.iter().take(3) { ensure!(num(&get("get_unclaimed_reward", json!({"account_id":USERS[0],"farm_id":v["farm_id"]}))?) == 0, "an unclaimed reward of removed farm {}", v["farm_id"]); }
    env.rep.eval("unknown items", None);
    // what is shown as unclaimed is what a claim credits
    if meta["state"] == json!("Running") {
        let now = f.w.ch.ts + f.w.ch.dt;
        for _ in 0..4 {
            let a = r.pick(&f.accts).clone();
            if farms.is_empty() { break; }
            let fm = r.pick(&farms).clone();
            let (id, sd, tk) = (fm["farm_id"].as_str().unwrap_or("").to_string(), fm["seed_id"].as_str().unwrap_or("").to_string(), fm["reward_token"].as_str().unwrap_or("").to_string());
            let by_seed = r.p(40);
            let mut want: BTreeMap<String, u128> = BTreeMap::new();
            for x in &farms { if if by_seed { x["seed_id"] == json!(sd) } else { x["farm_id"] == json!(id) } {
                let y = f.w.ch.view_at(FARM, "get_unclaimed_reward", json!({"account_id":a,"farm_id":x["farm_id"]}), now)?;
                *want.entry(x["reward_token"].as_str().unwrap_or("").to_string()).or_insert(0) += num(&y);
            } }
            let tot: u128 = want.values().sum();
            let mut g = f.clone();
            g.w.ch.pending.clear();
            if tot > 0 { let _ = call(&mut g, &a, "storage_deposit", &json!({}), 10 * NEAR); g.w.ch.pending.clear(); g.w.ch.ts = f.w.ch.ts; }
            let read = |g: &FW| -> Result<BTreeMap<String, u128>, String> { Ok(g.w.ch.view_at(FARM, "list_rewards", json!({"account_id":a}), now)?.as_object().cloned().unwrap_or_default().iter().map(|(k, v)| (k.clone(), num(v))).collect()) };
            let pre = read(&g)?;
            let (m, q) = if by_seed { ("claim_reward_by_seed", json!({"seed_id":sd})) } else { ("claim_reward_by_farm", json!({"farm_id":id})) };
            let ok = call(&mut g, &a, m, &q, 0);
            let post = read(&g)?;
            let all: BTreeSet<String> = pre.keys().chain(post.keys()).chain(want.keys()).cloned().collect();
            if ok.is_err() { ensure!(tot == 0, "{} is shown {:?} of {} unclaimed, but {} fails: {:?}", a, want, tk, m, ok); }
            else { for k in &all { let (x, y, z) = (pre.get(k).copied().unwrap_or(0), post.get(k).copied().unwrap_or(0), want.get(k).copied().unwrap_or(0)); ensure!(y == x + z, "{} {} by {}: the reward in {} goes from {} to {}, shown unclaimed {}", m, q, a, k, x, y, z); } }
            env.rep.eval("unclaimed against claim", if tot > 0 { Some(h(format!("u {} {}", m, lg(tot)))) } else { None });
            env.rep.sample(&format!("{} {}", m, tot > 0), || json!(format!("{} {} by {}: shown {:?}", m, q, a, want)));
        }
    }
    Ok(())
}
fn c47(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut f = fworld(env.codes, &mut r, false);
    let mx = FMix { admin: 16, storage: 9, ..Default::default() };
    for _ in 0..3 {
        let n = 10 + r.us(50);
        fsoup(env, &mut f, &mut r, n, &mx, &mut WithLeave(Quiet))?;
        if r.p(20) { let t = f.w.ch.ts; f.w.ch.ts = t + r.below(100_000) * SEC; }
        let res = fviews(env, &mut f, &mut r);
        if res.is_err() { *env.story = f.w.story(60); }
        res?;
    }
    Ok(())
}
