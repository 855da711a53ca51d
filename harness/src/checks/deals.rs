//! C10 limits, C11 batches, C12 quotes, C13 swaps by output, C29 volumes: differential runs on copies of the world.
use super::*;
use crate::chain::NEAR;
use crate::lab;
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C10", f: c10, rule: "one evaluation per (operation, limit): the operation is run in a copy without limits to learn its exact outcome, then with the limit at that value (must succeed with the same result), just beyond it (must fail without effect), and after another trade moved the pool (must meet the limit or fail); non-trivial = the unlimited operation succeeds, keyed by entry point, pool kinds, hop and magnitudes", quick_secs: 18, min_evals: 3_000 },
        Check { id: "C11", f: c11, rule: "one evaluation per batch: all balances, pools, shares and volumes compared with the same actions executed one by one with explicit amounts in a copy of the world, through the internal account, a virtual account and a token transfer; failing batches must leave everything unchanged; non-trivial = more than one action or a failing batch, keyed by entry point, length, pool kinds and outcome", quick_secs: 18, min_evals: 2_000 },
        Check { id: "C12", f: c12, rule: "one evaluation per quote compared with the operation executed right after it (same block time), for every quote view, pool kind and explicit rates or prices (executed in a copy where the provider reports them); non-trivial = the quote answers, keyed by view, pool kind and magnitudes", quick_secs: 20, min_evals: 3_000 },
        Check { id: "C13", f: c13, rule: "one evaluation per executed swap by output (single hop or chain): exact output credited, charge sufficient and within two units of the least sufficient input when swapped forward in a copy, chains charging each hop what the next needs; non-trivial = the swap succeeded, keyed by hops, fee and magnitudes", quick_secs: 15, min_evals: 2_000 },
        Check { id: "C29", f: c29, rule: "one evaluation per executed receipt: change of every pool's volume counters against the hops executed in it (amounts learnt by executing them one by one in a copy); non-trivial = a receipt that traded, keyed by entry point, pool kinds and hops, or a failed or non-trading call that could have changed them", quick_secs: 18, min_evals: 5_000 },
    ]
}
pub fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }

pub fn start(env: &Env, r: &mut Rng, flags: u32) -> World {
    let sp = WorldSpec { simple: 3 + r.us(4), stable: 1 + r.us(2), rated: r.p(40), degen: r.p(40), overprecise: false };
    let mut w = gen::world(env.codes, r, &sp);
    w.flags = flags; w.cached = None;
    w.ch.dt = 0;
    w
}
/// One receipt on the exchange for this operation; a token transfer runs its first half quietly.
pub fn apply(w: &mut World, o: &Op) -> Option<Step> {
    let id = send(w, o)?;
    let i = w.pos(id).unwrap();
    let st = w.exec(i);
    if o.recv == EX { return Some(st); }
    let c = st.ev.created.first().cloned()?;
    let i = w.pos(c)?;
    Some(w.exec(i))
}
pub fn same_money(a: &Snap, b: &Snap) -> bool { a.dep == b.dep && a.shares == b.shares && a.pools == b.pools && a.lost == b.lost && a.shadow == b.shadow && a.vols == b.vols }
pub fn diff(a: &Snap, b: &Snap) -> String {
    let mut s = String::new();
    if a.dep != b.dep { for (k, v) in &a.dep { if b.dep.get(k) != Some(v) { s += &format!("deposits of {}: {:?} vs {:?}; ", k, v, b.dep.get(k)); } } }
    if a.shares != b.shares { for i in 0..a.shares.len() { if a.shares[i] != b.shares[i] { s += &format!("shares of pool {}: {:?} vs {:?}; ", i, a.shares[i], b.shares[i]); } } }
    if a.pools != b.pools { for i in 0..a.pools.len().min(b.pools.len()) { if a.pools[i] != b.pools[i] { s += &format!("pool {}: {:?} vs {:?}; ", i, a.pools[i], b.pools[i]); } } }
    if a.vols != b.vols { s += "volumes; "; }
    if a.lost != b.lost { s += "lostfound; "; }
    s.chars().take(900).collect()
}
#[derive(Clone, Debug)]
pub struct Hop { pub pool: u64, pub tin: String, pub xin: u128, pub tout: String, pub xout: u128 }
/// seq_output: no statement possible
pub const POOR: usize = usize::MAX;
pub const TOP: u128 = 1 << 122;
fn ret_num(s: &Result<String, String>) -> u128 { s.as_ref().ok().and_then(|x| serde_json::from_str::<Value>(x).ok()).map(|v| num(&v)).unwrap_or(0) }
/// Execute forward actions one by one with explicit amounts. Err(k): action k failed.
pub fn seq_forward(w: &mut World, u: &str, acts: &[Value], first: Option<u128>, rf: &Value) -> Result<Vec<Hop>, usize> {
    let mut prev = first;
    let mut hops = vec![];
    for (k, a) in acts.iter().enumerate() {
        let x = match a.get("amount_in") { Some(v) if !v.is_null() => num(v), _ => prev.ok_or(k)? };
        let mut b = a.clone(); b["amount_in"] = json!(x.to_string());
        let rr = w.quiet(u, "swap", json!({"actions":[b],"referral_id":rf,"skip_degen_price_sync":true}), 1);
        if rr.is_err() { return Err(k); }
        let out = ret_num(&rr);
        hops.push(Hop { pool: a["pool_id"].as_u64().unwrap(), tin: a["token_in"].as_str().unwrap().into(), xin: x, tout: a["token_out"].as_str().unwrap().into(), xout: out });
        prev = Some(out);
    }
    Ok(hops)
}
pub fn seq_output(w: &mut World, u: &str, acts: &[Value], rf: &Value) -> Result<Vec<Hop>, usize> {
    let mut prev: Option<(u128, String)> = None;
    let mut hops = vec![];
    for (k, a) in acts.iter().enumerate() {
        let explicit = a.get("amount_out").map_or(false, |v| !v.is_null());
        let x = if explicit { num(&a["amount_out"]) } else { let (y, t) = prev.clone().ok_or(k)?; if a["token_out"] != json!(t) { return Err(k); } y };
        let mut b = a.clone(); b["amount_out"] = json!(x.to_string());
        let rr = w.quiet(u, "swap_by_output", json!({"actions":[b],"referral_id":rf,"skip_degen_price_sync":true}), 1);
        if rr.is_err() {
            // refused only because even the topped-up account cannot pay the intermediate charge
            let q = w.vr("get_return_by_output", json!({"pool_id":a["pool_id"],"token_in":a["token_in"],"amount_out":x.to_string(),"token_out":a["token_out"]})).ok().map(|v| num(&v));
            if q.map_or(false, |q| q > w.deposit_of(u, a["token_in"].as_str().unwrap())) { return Err(POOR); }
            return Err(k);
        }
        let inn = ret_num(&rr);
        hops.push(Hop { pool: a["pool_id"].as_u64().unwrap(), tin: a["token_in"].as_str().unwrap().into(), xin: inn, tout: a["token_out"].as_str().unwrap().into(), xout: x });
        prev = Some((inn, a["token_in"].as_str().unwrap().into()));
    }
    Ok(hops)
}
fn relax(acts: &mut Vec<Value>) { for a in acts.iter_mut() { if a.get("min_amount_out").is_some() { a["min_amount_out"] = json!("0"); } if a.get("max_amount_in").is_some() { a.as_object_mut().unwrap().remove("max_amount_in"); } } }
/// random referral, only ones that are plain strings or null
fn rf(r: &mut Rng) -> Value { gen::referral(r) }
/// sometimes another trade happens first
fn disturb(w: &mut World, r: &mut Rng) {
    let s = w.snap();
    if let Some((mut a, _)) = gen::swap_actions(r, &s, USERS[1], None, 1, None) { relax(&mut a); let _ = w.quiet(USERS[1], "swap", json!({"actions":a,"skip_degen_price_sync":true}), 1); w.drain(); }
}
fn evolve(w: &mut World, r: &mut Rng) {
    let s = w.snap();
    let mix = Mix::only(&[(gen::M_SWAP, 10), (gen::M_ADD, 6), (gen::M_REMOVE, 3), (gen::M_REMTOK, 3), (gen::M_DEPOSIT, 3), (gen::M_INSTANT, 3), (gen::M_FEES, 1), (gen::M_SHADOW, 1)]);
    if let Some(o) = gen::next_op(w, r, &s, &mix) { if let Some(id) = send(w, &o) { let i = w.pos(id).unwrap(); w.exec_fast(i); w.drain(); } }
    if r.p(10) { gen::shuffle_prices(w, r); }
    if r.p(10) { w.ch.ts += r.below(2000) * SEC; w.refresh_prices(); }
}
pub fn kinds(s: &Snap, acts: &[Value], k: &str) -> String { acts.iter().map(|a| format!("{:?}", s.pools[a[k].as_u64().unwrap() as usize].kind).chars().nth(1).unwrap()).collect() }

// ------------------------------------------------------------------ C11 / C29
pub struct Batch { pub op: Op, pub acts: Vec<Value>, pub via: u64, pub u: String, pub use_tokens: BTreeMap<String, u128>, pub rf: Value, pub output: bool }
/// a random batch through one of the four entry points
pub fn batch(w: &mut World, r: &mut Rng, s: &Snap, maxlen: usize) -> Option<Batch> {
    let u = *r.pick(&USERS);
    let n = 1 + r.us(maxlen);
    let output = r.p(30);
    let rfv = rf(r);
    let via = r.below(if output { 3 } else { 4 });
    let dep = if r.p(80) { 1 } else { 0 };
    let mut use_tokens: BTreeMap<String, u128> = BTreeMap::new();
    if output {
        let mut acts = gen::swapout_actions(r, s, None, n)?;
        relax(&mut acts);
        let a = json!({"actions":acts,"referral_id":rfv,"skip_degen_price_sync":true});
        for x in &acts { for k in ["token_in", "token_out"].iter() { let t = x[*k].as_str().unwrap().to_string(); let y = w.unit(&t) * (1 + r.logu(1 << 40)); w.quiet_fund(u, &t, y); } }
        let op = match via {
            0 => gen::op(u, "swap_by_output", a, dep),
            1 => gen::op(u, "execute_actions", a, dep),
            _ => {
                let tin = acts.last().unwrap()["token_in"].as_str().unwrap().to_string();
                let bal = w.deposit_of(u, &tin);
                let x = match r.below(4) { 0 => bal, 1 => bal / 2, _ => r.amount(bal.max(1)).min(bal) };
                use_tokens.insert(tin, x);
                let ut: Map<String, Value> = use_tokens.iter().map(|(k, v)| (k.clone(), json!(v.to_string()))).collect();
                gen::op(u, "execute_actions_in_va", json!({"use_tokens":ut,"actions":acts,"referral_id":rfv,"skip_degen_price_sync":true}), dep)
            }
        };
        return Some(Batch { op, acts, via: if via == 2 { 2 } else { 0 }, u: u.into(), use_tokens, rf: rfv, output });
    }
    let instant = via == 3;
    let start = if instant { let s0 = r.pick(&s.pools).clone(); Some(r.pick(&s0.tokens).clone()) } else { None };
    let amount = start.as_ref().map(|t| { let b = w.ledger(t, u); r.amount((b / 3).max(1)).min(b).max(1) });
    let (mut acts, first) = gen::swap_actions(r, s, u, start.as_deref(), n, amount)?;
    relax(&mut acts);
    if !instant && acts[0].get("amount_in").is_none() { return None; }
    let a = json!({"actions":acts,"referral_id":rfv,"skip_degen_price_sync":true});
    let op = match via {
        0 => gen::op(u, "swap", a, dep),
        1 => gen::op(u, "execute_actions", a, dep),
        2 => {
            let bal = s.deposit(u, &first);
            let want = num(&acts[0]["amount_in"]);
            use_tokens.insert(first, match r.below(5) { 0 => bal, 1 => want.saturating_sub(1).min(bal), _ => want.min(bal) });
            if r.p(40) { let t = r.pick(&s.pools[0].tokens).clone(); let b = s.deposit(u, &t); use_tokens.entry(t).or_insert(r.amount(b.max(1)).min(b)); }
            let ut: Map<String, Value> = use_tokens.iter().map(|(k, v)| (k.clone(), json!(v.to_string()))).collect();
            gen::op(u, "execute_actions_in_va", json!({"use_tokens":ut,"actions":acts,"referral_id":rfv,"skip_degen_price_sync":true}), dep)
        }
        _ => { use_tokens.insert(first.clone(), amount.unwrap()); w.mint(&first, u, amount.unwrap()); gen::op_at(u, &first, "ft_transfer_call", json!({"receiver_id":EX,"amount":amount.unwrap().to_string(),"msg":a.to_string()}), 1) }
    };
    Some(Batch { op, acts, via, u: u.into(), use_tokens, rf: rfv, output })
}
/// Does the virtual account have enough at every step? Returns what it holds at the end.
pub fn virtual_run(b: &Batch, hops: &[Hop]) -> Option<BTreeMap<String, u128>> {
    let mut h: BTreeMap<String, u128> = b.use_tokens.clone();
    if !b.output {
        for x in hops { let e = h.entry(x.tin.clone()).or_insert(0); if *e < x.xin { return None; } *e -= x.xin; *h.entry(x.tout.clone()).or_insert(0) += x.xout; }
    } else {
        // each chain credits its requested output and pays its last hop's input
        for (k, x) in hops.iter().enumerate() {
            let explicit = b.acts[k].get("amount_out").map_or(false, |v| !v.is_null());
            if explicit { *h.entry(x.tout.clone()).or_insert(0) += x.xout; }
            let last = k + 1 == hops.len() || b.acts[k + 1].get("amount_out").map_or(false, |v| !v.is_null());
            if last { let e = h.entry(x.tin.clone()).or_insert(0); if *e < x.xin { return None; } *e -= x.xin; }
        }
    }
    Some(h)
}
fn c11(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut w = start(env, &mut r, F_MONEY | F_VOLS);
    let res = c11_run(env, &mut w, &mut r);
    if res.is_err() { *env.story = w.story(30); }
    res
}
fn c11_run(env: &mut Env, w: &mut World, r: &mut Rng) -> Res {
    for _ in 0..16 {
        if r.p(30) { evolve(w, r); continue; }
        w.drain();
        let s = w.snap();
        let b = match batch(w, r, &s, 4) { Some(b) => b, None => continue };
        let mut f = w.clone();
        let fs0 = f.snap();
        // one by one: through the account itself, topped up where the batch works with tokens from elsewhere
        let top: u128 = TOP;
        if b.via >= 2 { for a in &b.acts { for k in ["token_in", "token_out"].iter() { let t = a[*k].as_str().unwrap(); if f.deposit_of(&b.u, t) < top { f.quiet_fund(&b.u, t, top); } } } }
        else if b.output { for a in &b.acts { let t = a["token_in"].as_str().unwrap(); if f.deposit_of(&b.u, t) < top { f.quiet_fund(&b.u, t, top); } } }
        let fs1 = f.read(F_DEP);
        let first = if b.via == 3 { Some(*b.use_tokens.values().next().unwrap()) } else { None };
        let hops = if b.output { seq_output(&mut f, &b.u, &b.acts, &b.rf) } else { seq_forward(&mut f, &b.u, &b.acts, first, &b.rf) };
        let st = match apply(w, &b.op) { Some(x) => x, None => continue };
        let ks = kinds(&s, &b.acts, "pool_id");
        let key = |what: &str| hash64(format!("{} {} {} {} {}", what, b.via, b.output, ks, b.acts.iter().map(|a| a.get("amount_in").is_some() || a.get("amount_out").is_some()).map(|x| if x { 'e' } else { 'c' }).collect::<String>()).as_bytes());
        let label = ["internal", "internal", "virtual account", "token transfer"][b.via as usize];
        if st.ev.ok.is_err() {
            ensure!(same_money(&st.pre, &st.post), "failed batch left traces: {}", diff(&st.pre, &st.post));
            if b.via == 3 { let t = b.use_tokens.keys().next().unwrap().clone(); let x = b.use_tokens[&t]; let before = w.ledger(&t, &b.u); w.drain(); ensure!(w.ledger(&t, &b.u) == before + x, "failed batch started by a transfer returned {} of {}", w.ledger(&t, &b.u) - before, x); }
            // it must also be impossible one by one
            if let Ok(h) = &hops {
                let enough = if b.via >= 2 { virtual_run(&b, h).is_some() } else if b.output {
                    let mut v = Batch { op: b.op.clone(), acts: b.acts.clone(), via: 2, u: b.u.clone(), use_tokens: fs0.dep.get(&b.u).cloned().unwrap_or_default(), rf: Value::Null, output: true }; v.via = 2; virtual_run(&v, h).is_some() } else { true };
                let allowed = b.acts.iter().all(|a| ["token_in", "token_out"].iter().all(|k| a[*k] != json!("odd.t")));
                // the whole output of a transfer-started batch could overflow nothing; a batch refused although every step works is a broken batch
                ensure!(!(enough && allowed), "batch {} refused ({:?}) although every step works alone: {:?}", fmt_ev(&st.ev), st.ev.ok, h);
            }
            env.rep.eval(&format!("failing batch via {}", label), Some(key("fail")));
            w.drain();
            continue;
        }
        let h = match &hops { Ok(h) => h.clone(), Err(POOR) => { w.drain(); continue; } Err(k) => { return Err(format!("batch succeeded although its step {} fails when executed alone: {}", k, fmt_ev(&st.ev))); } };
        let fs2 = f.read(F_MONEY | F_VOLS);
        ensure!(fs2.pools == st.post.pools, "batch and single steps end in different pools: {}", diff(&fs2, &st.post));
        ensure!(fs2.shares == st.post.shares && fs2.vols == st.post.vols, "batch and single steps differ: {}", diff(&Snap { dep: st.post.dep.clone(), ..fs2.clone() }, &st.post));
        // the account: same change as one by one
        if b.via < 2 {
            for t in w.toks.keys() {
                let (a, c) = (st.post.deposit(&b.u, t) as i128 - st.pre.deposit(&b.u, t) as i128, fs2.deposit(&b.u, t) as i128 - fs1.deposit(&b.u, t) as i128);
                ensure!(a == c, "batch changed {} of {} by {}, the single steps by {}: {}", b.u, t, a, c, fmt_ev(&st.ev));
            }
        } else {
            let v = match virtual_run(&b, &h) { Some(v) => v, None => return Err(format!("batch spent more than it was given: {} hops {:?}", fmt_ev(&st.ev), h)) };
            if b.via == 2 {
                for t in w.toks.keys() {
                    let want = st.pre.deposit(&b.u, t) as i128 - *b.use_tokens.get(t).unwrap_or(&0) as i128 + *v.get(t).unwrap_or(&0) as i128;
                    ensure!(st.post.deposit(&b.u, t) as i128 == want, "batch in a virtual account left {} of {}, expected {}: {}", st.post.deposit(&b.u, t), t, want, fmt_ev(&st.ev));
                }
            } else {
                ensure!(st.pre.dep.get(&b.u) == st.post.dep.get(&b.u), "transfer-started batch touched the internal account");
                // everything the batch ends with goes to the sender
                let mut before: BTreeMap<String, u128> = BTreeMap::new();
                let near0 = w.ch.bal(&b.u);
                for t in w.toks.keys() { before.insert(t.clone(), w.ledger(t, &b.u)); }
                let pend = w.ch.pending.len();
                let _ = pend;
                w.drain();
                for (t, x) in &v {
                    let got = w.ledger(t, &b.u) - before[t];
                    let s2 = w.snap();
                    let credited = s2.deposit(&b.u, t) - st.post.deposit(&b.u, t) + (s2.lostf(&b.u, t) - st.post.lostf(&b.u, t));
                    ensure!(got + credited == *x || (t == WNEAR && w.ch.bal(&b.u) - near0 >= *x), "batch ended with {} of {}, sender received {} and {} was credited back: {}", x, t, got, credited, fmt_ev(&st.ev));
                }
            }
        }
        w.drain();
        env.rep.eval(&format!("batch via {}{}", label, if b.output { " by output" } else { "" }), if b.acts.len() > 1 { Some(key("ok")) } else { None });
        env.rep.sample(&format!("batch via {} by output {}", label, b.output), || json!({"call":fmt_ev(&st.ev),"hops":format!("{:?}", h)}));
    }
    Ok(())
}
fn c29(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut w = start(env, &mut r, F_MONEY | F_VOLS);
    let res = c29_run(env, &mut w, &mut r);
    if res.is_err() { *env.story = w.story(30); }
    res
}
fn expect_vols(pre: &Snap, hops: &[Hop]) -> Vec<Vec<(U512, U512)>> {
    let mut v = pre.vols.clone();
    for h in hops {
        let p = h.pool as usize; let ps = &pre.pools[p];
        let i = ps.tokens.iter().position(|t| *t == h.tin).unwrap(); let j = ps.tokens.iter().position(|t| *t == h.tout).unwrap();
        let o = if ps.kind == PK::Simple { i } else { j };
        v[p][i].0 = v[p][i].0 + U512::from(h.xin);
        v[p][o].1 = v[p][o].1 + U512::from(h.xout);
    }
    v
}
fn c29_run(env: &mut Env, w: &mut World, r: &mut Rng) -> Res {
    for _ in 0..14 {
        w.drain();
        let s = w.snap();
        if r.p(50) {
            let b = match batch(w, r, &s, 3) { Some(b) => b, None => continue };
            let mut f = w.clone();
            for a in &b.acts { for k in ["token_in", "token_out"].iter() { let t = a[*k].as_str().unwrap(); if f.deposit_of(&b.u, t) < TOP { f.quiet_fund(&b.u, t, TOP); } } }
            let first = if b.via == 3 { Some(*b.use_tokens.values().next().unwrap()) } else { None };
            let hops = if b.output { seq_output(&mut f, &b.u, &b.acts, &b.rf) } else { seq_forward(&mut f, &b.u, &b.acts, first, &b.rf) };
            let st = match apply(w, &b.op) { Some(x) => x, None => continue };
            if st.ev.ok.is_ok() {
                let h = match hops { Ok(h) => h, Err(POOR) => { w.drain(); continue; } Err(k) => return Err(format!("batch succeeded although step {} fails alone: {}", k, fmt_ev(&st.ev))) };
                let want = expect_vols(&st.pre, &h);
                for p in 0..want.len() { ensure!(st.post.vols[p] == want[p], "volume counters of pool {} went from {:?} to {:?}, expected {:?} after {} (hops {:?})", p, st.pre.vols[p], st.post.vols[p], want[p], fmt_ev(&st.ev), h); }
                let legacy: Vec<(U512, U512)> = w.v("get_pool_volumes", json!({"pool_id":h[0].pool})).as_array().unwrap().iter().map(|x| (U512::from_dec_str(x["input"].as_str().unwrap()).unwrap(), U512::from_dec_str(x["output"].as_str().unwrap()).unwrap())).collect();
                ensure!(legacy == st.post.vols[h[0].pool as usize], "volume views disagree for pool {}", h[0].pool);
                env.rep.eval("trade", Some(hash64(format!("{} {} {} {}", b.via, b.output, kinds(&s, &b.acts, "pool_id"), h.iter().map(|x| lg(x.xin) / 8).sum::<u64>()).as_bytes())));
                env.rep.sample(&format!("trade via {}", b.via), || json!(format!("{:?}", h)));
            } else { ensure!(st.pre.vols == st.post.vols, "failed trade changed volume counters"); env.rep.eval("failed trade", Some(hash64(format!("f{} {}", b.via, kinds(&s, &b.acts, "pool_id")).as_bytes()))); }
            w.drain();
            let s2 = w.snap();
            ensure!(s2.vols == st.post.vols, "volume counters moved while the trade's payouts settled");
        } else {
            // anything else, including hot zaps (whose swaps are known from the quote) and views
            let mix = Mix::all().with(&[(gen::M_SWAP, 0), (gen::M_SWAPOUT, 0), (gen::M_VA, 0), (gen::M_INSTANT, 0), (gen::M_HOTZAP, 10), (gen::M_GUARD, 0), (gen::M_AMP, 0)]);
            let o = match gen::next_op(w, r, &s, &mix) { Some(o) => o, None => { w.snap(); continue; } };
            let msg = super::custody::args(o.a["msg"].as_str().unwrap_or(""));
            let zap = msg.get("hot_zap_actions").is_some();
            let mut hops = vec![];
            if zap {
                let acts = msg["hot_zap_actions"].as_array().unwrap().clone();
                let mut f = w.clone();
                for a in &acts { for k in ["token_in", "token_out"].iter() { let t = a[*k].as_str().unwrap(); f.quiet_fund(&o.signer, t, TOP); } }
                hops = seq_forward(&mut f, &o.signer, &acts, Some(num(&o.a["amount"])), &msg["referral_id"]).unwrap_or_default();
            }
            let st = match apply(w, &o) { Some(x) => x, None => continue };
            let n = st.pre.vols.len();
            if zap && st.ev.ok.is_ok() && st.ev.receiver == EX {
                let want = expect_vols(&st.pre, &hops);
                ensure!(st.post.vols == want, "hot zap moved the volume counters to {:?}, expected {:?}: {}", st.post.vols, want, fmt_ev(&st.ev));
                env.rep.eval("hot zap", Some(hash64(format!("z{}", hops.len()).as_bytes())));
            } else {
                ensure!(st.post.vols.len() >= n && st.post.vols[..n] == st.pre.vols[..], "volume counters changed by {}", fmt_ev(&st.ev));
                for v in &st.post.vols[n..] { ensure!(v.iter().all(|x| x.0.is_zero() && x.1.is_zero()), "a new pool starts with volume {:?}", v); }
                env.rep.eval("no trade", Some(hash64(format!("n{}{}", st.ev.method, st.ev.ok.is_ok()).as_bytes())));
            }
            w.drain();
            let s2 = w.snap();
            ensure!(s2.vols == st.post.vols, "volume counters changed while {} settled", o.m);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
fn c13(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut w = World::base(env.codes, (r.range(0, 4000) as u32, 0));
    w.keep_oplog = false;
    let n = 3 + r.us(2);
    let names: Vec<String> = (0..n).map(|i| format!("c{}.t", i)).collect();
    for t in &names { w.add_token(t, 18, true); }
    let u = USERS[1];
    for i in 0..n { for j in i + 1..n { if r.p(80) {
        let p = w.add_simple(&[&names[i], &names[j]], lab::fee(&mut r));
        let b = 10 + r.below(90);
        let am = [1 + r.logu(1 << b), 1 + r.logu(1 << b)];
        w.seed(USERS[0], p, &am);
    } } }
    for t in &names { w.quiet_fund(u, t, 1 << 110); }
    w.keep_oplog = true; w.ch.dt = 0;
    w.flags = F_DEP | F_POOLS | F_SHARES; w.cached = None;
    let res = c13_run(env, &mut w, &mut r, u);
    if res.is_err() { *env.story = w.story(30); }
    res
}
fn c13_run(env: &mut Env, w: &mut World, r: &mut Rng, u: &str) -> Res {
    if w.pool_count() == 0 { return Ok(()); }
    for _ in 0..24 {
        let s = w.snap();
        let len = 1 + r.us(3);
        let mut acts = match gen::swapout_actions(r, &s, None, len) { Some(a) => a, None => continue };
        relax(&mut acts);
        for a in acts.iter_mut().skip(1) { if r.p(80) { a.as_object_mut().unwrap().remove("amount_out"); } }
        let before: BTreeMap<String, u128> = s.dep.get(u).cloned().unwrap_or_default();
        let f0 = w.clone();
        let st = w.ex_step(u, "swap_by_output", json!({"actions":acts,"skip_degen_price_sync":true}), 1);
        if st.ev.ok.is_err() {
            ensure!(same_money(&st.pre, &st.post), "failed swap by output left traces");
            // a single hop that asks for less than the reserve at an affordable price works
            env.rep.eval("refused", None); continue;
        }
        // replay hop by hop in a copy, swapping forward at each hop
        let mut f = f0;
        let mut prev: Option<u128> = None;
        let mut want: BTreeMap<String, i128> = BTreeMap::new();
        let mut poor = false;
        for (k, a) in acts.iter().enumerate() {
            let explicit = a.get("amount_out").map_or(false, |v| !v.is_null());
            ensure!(explicit || k > 0 && acts[k - 1]["token_in"] == a["token_out"], "a hop that produces {} was taken as the supply of one that needs {}", a["token_out"], if k > 0 { &acts[k - 1]["token_in"] } else { &Value::Null });
            let out = if explicit { num(&a["amount_out"]) } else { prev.unwrap() };
            let (p, tin, tout) = (a["pool_id"].as_u64().unwrap(), a["token_in"].as_str().unwrap().to_string(), a["token_out"].as_str().unwrap().to_string());
            let pre = f.pool(p);
            let i = pre.tokens.iter().position(|t| *t == tin).unwrap();
            let mut b = a.clone(); b["amount_out"] = json!(out.to_string());
            let d0 = f.read(F_DEP);
            let rr = f.quiet(u, "swap_by_output", json!({"actions":[b],"skip_degen_price_sync":true}), 1);
            if rr.is_err() { let q = f.vr("get_return_by_output", json!({"pool_id":p,"token_in":tin,"amount_out":out.to_string(),"token_out":tout})).ok().map(|v| num(&v)); if q.map_or(false, |q| q > f.deposit_of(u, &tin)) { poor = true; break; } }
            ensure!(rr.is_ok(), "chain succeeded but its hop {} alone fails: {:?}", k, rr);
            let x = ret_num(&rr);
            let d1 = f.read(F_DEP);
            ensure!(d1.deposit(u, &tout) == d0.deposit(u, &tout) + out && d0.deposit(u, &tin) == d1.deposit(u, &tin) + x, "swap by output of {}: credited {}, reported charge {}, charged {}", out, d1.deposit(u, &tout) as i128 - d0.deposit(u, &tout) as i128, x, d0.deposit(u, &tin) as i128 - d1.deposit(u, &tin) as i128);
            let post = f.pool(p);
            ensure!(post.amounts[i] == pre.amounts[i] + x && post.amounts[1 - i] + out == pre.amounts[1 - i], "reserves {:?} -> {:?} for in {} out {}", pre.amounts, post.amounts, x, out);
            let c = crate::math::cp_out(pre.amounts[i], pre.amounts[1 - i], pre.fee, x);
            ensure!(c >= U512::from(out), "charged {} for {} although swapping it forward yields only {} (reserves {:?} fee {})", x, out, c, pre.amounts, pre.fee);
            if x >= 2 && out > 0 { let c2 = crate::math::cp_out(pre.amounts[i], pre.amounts[1 - i], pre.fee, x - 2); ensure!(c2 < U512::from(out), "charged {} for {} although {} would be enough (reserves {:?} fee {})", x, out, x - 2, pre.amounts, pre.fee); }
            if explicit { *want.entry(tout.clone()).or_insert(0) += out as i128; }
            let last = k + 1 == acts.len() || acts[k + 1].get("amount_out").map_or(false, |v| !v.is_null());
            if last { *want.entry(tin.clone()).or_insert(0) -= x as i128; }
            prev = Some(x);
            env.rep.eval("hop", Some(hash64(format!("{} {} {} {} {}", pre.fee, lg(pre.amounts[i]), lg(pre.amounts[1 - i]), lg(out), k).as_bytes())));
            env.rep.sample("hop", || json!({"reserves":js(&pre.amounts),"fee":pre.fee,"out":out.to_string(),"charged":x.to_string()}));
        }
        if poor { w.drain(); continue; }
        for (t, b0) in &before {
            let d = st.post.deposit(u, t) as i128 - *b0 as i128;
            ensure!(d == *want.get(t).unwrap_or(&0), "chain {:?} changed {} by {} instead of {}", acts, t, d, want.get(t).unwrap_or(&0));
        }
        let s2 = f.read(F_POOLS | F_SHARES);
        ensure!(s2.pools == st.post.pools && s2.shares == st.post.shares, "chain and single hops end in different pools: {}", diff(&s2, &Snap { dep: s2.dep.clone(), vols: s2.vols.clone(), ..(*st.post).clone() }));
        env.rep.eval("chain", if acts.len() > 1 { Some(hash64(format!("c{} {:?}", acts.len(), acts.iter().map(|a| a["pool_id"].as_u64()).collect::<Vec<_>>()).as_bytes())) } else { None });
        // forward execution agrees: the charged input swapped back through the original state yields at least the output
        w.drain();
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
/// An operation with limits: how to write it with given limits, and what the limits are measured against.
struct Limited { name: String, build: Box<dyn Fn(&[u128]) -> Op>, exact: Vec<u128>, max: bool }
const FREE_MAX: u128 = u128::MAX;
fn c10(env: &mut Env, mut r: Rng, ep: u64) -> Res {
    let mut w = if ep % 2 == 0 { start(env, &mut r, F_MONEY | F_VOLS) } else {
        let k = *r.pick(&[PK::Simple, PK::Stable, PK::Rated, PK::Degen]);
        let mut l = lab::lab(env.codes, &mut r, k); l.w.flags = F_MONEY | F_VOLS; l.w.cached = None; l.w.ch.dt = 0; l.w
    };
    let res = c10_run(env, &mut w, &mut r);
    if res.is_err() { *env.story = w.story(30); }
    res
}
pub fn with_msg(o: &Op, f: impl Fn(&mut Value)) -> Op {
    let mut o = o.clone();
    if o.recv != EX { let mut m: Value = serde_json::from_str(o.a["msg"].as_str().unwrap()).unwrap(); f(&mut m); o.a["msg"] = json!(m.to_string()); } else { f(&mut o.a); }
    o
}
fn find_limited(w: &mut World, r: &mut Rng, s: &Snap) -> Option<Limited> {
    match r.below(10) {
        0..=3 => {
            let b = batch(w, r, s, 3)?;
            let mut f = w.clone();
            for a in &b.acts { for k in ["token_in", "token_out"].iter() { let t = a[*k].as_str().unwrap(); if f.deposit_of(&b.u, t) < TOP { f.quiet_fund(&b.u, t, TOP); } } }
            let first = if b.via == 3 { Some(*b.use_tokens.values().next().unwrap()) } else { None };
            let hops = if b.output { seq_output(&mut f, &b.u, &b.acts, &b.rf) } else { seq_forward(&mut f, &b.u, &b.acts, first, &b.rf) }.ok()?;
            let exact: Vec<u128> = hops.iter().map(|h| if b.output { h.xin } else { h.xout }).collect();
            let (op, output) = (b.op.clone(), b.output);
            let name = format!("{} via {}", if output { "swap by output" } else { "swap" }, ["internal", "internal", "virtual account", "transfer"][b.via as usize]);
            Some(Limited { name, exact, max: output, build: Box::new(move |l| with_msg(&op, |m| for (k, x) in l.iter().enumerate() {
                if output { if *x == FREE_MAX { m["actions"][k].as_object_mut().unwrap().remove("max_amount_in"); } else { m["actions"][k]["max_amount_in"] = json!(x.to_string()); } } else { m["actions"][k]["min_amount_out"] = json!(x.to_string()); } })) })
        }
        4 => { // add
            let u = *r.pick(&USERS); let p = r.us(s.pools.len()); let ps = &s.pools[p];
            for t in &ps.tokens { let x = w.unit(t) * (1 + r.logu(1 << 30)); w.quiet_fund(u, t, x); }
            let s = w.snap();
            let am = gen::add_amounts(r, &s, u, ps);
            let mut f = w.clone();
            if ps.kind == PK::Simple {
                let st = f.ex_step(u, "add_liquidity", json!({"pool_id":p,"amounts":js(&am)}), NEAR / 10);
                if st.ev.ok.is_err() { return None; }
                let exact: Vec<u128> = (0..ps.tokens.len()).map(|i| st.post.pools[p].amounts[i] - st.pre.pools[p].amounts[i]).collect();
                let u = u.to_string();
                Some(Limited { name: "add simple".into(), exact, max: false, build: Box::new(move |l| gen::op(&u, "add_liquidity", json!({"pool_id":p,"amounts":js(&am),"min_amounts":js(l)}), NEAR / 10)) })
            } else {
                let st = f.ex_step(u, "add_stable_liquidity", json!({"pool_id":p,"amounts":js(&am),"min_shares":"0"}), NEAR / 10);
                if st.ev.ok.is_err() { return None; }
                let exact = vec![st.post.share(p, u) - st.pre.share(p, u)];
                let u = u.to_string();
                Some(Limited { name: format!("add {:?}", ps.kind), exact, max: false, build: Box::new(move |l| gen::op(&u, "add_stable_liquidity", json!({"pool_id":p,"amounts":js(&am),"min_shares":l[0].to_string()}), NEAR / 10)) })
            }
        }
        5 | 6 => { // remove, also by the treasury and the lending contract
            let mix = Mix::only(&[(gen::M_REMOVE, 6), (gen::M_TREASURY, 3), (gen::M_LIQ, 4)]);
            let mut o = gen::next_op(w, r, s, &mix)?;
            let field = match o.m.as_str() { "remove_liquidity" | "remove_exchange_fee_liquidity" => "min_amounts", "on_burrow_liquidation" => "min_token_amounts", _ => return None };
            let p = if o.m == "on_burrow_liquidation" { o.a["shadow_id"].as_str().unwrap().rsplit('-').next().unwrap().parse::<usize>().unwrap() } else { o.a["pool_id"].as_u64().unwrap() as usize };
            o.a[field] = js(&vec![0u128; s.pools[p].tokens.len()]);
            let mut f = w.clone();
            let st = apply(&mut f, &o)?;
            if st.ev.ok.is_err() { return None; }
            // what the recipient got, in the account or the lostfound
            let rec = match o.m.as_str() { "remove_liquidity" => o.signer.clone(), "remove_exchange_fee_liquidity" => OWNER.to_string(), _ => o.a["liquidator_account_id"].as_str().unwrap().to_string() };
            let got = |s: &Snap, t: &str| s.deposit(&rec, t) + s.lostf(&rec, t);
            let exact: Vec<u128> = s.pools[p].tokens.iter().map(|t| got(&st.post, t) - got(&st.pre, t)).collect();
            Some(Limited { name: o.m.clone(), exact, max: false, build: Box::new(move |l| { let mut o = o.clone(); o.a[field] = js(l); o }) })
        }
        7 => { // remove by tokens
            let mut o = gen::next_op(w, r, s, &Mix::only(&[(gen::M_REMTOK, 1)]))?;
            o.a["max_burn_shares"] = json!(u128::MAX.to_string());
            let p = o.a["pool_id"].as_u64().unwrap() as usize;
            let mut f = w.clone();
            let st = apply(&mut f, &o)?;
            if st.ev.ok.is_err() { return None; }
            let exact = vec![st.pre.share(p, &o.signer) - st.post.share(p, &o.signer)];
            Some(Limited { name: format!("remove by tokens {:?}", s.pools[p].kind), exact, max: true, build: Box::new(move |l| { let mut o = o.clone(); o.a["max_burn_shares"] = json!(l[0].to_string()); o }) })
        }
        _ => { // hot zap
            let u = *r.pick(&USERS);
            let mut o = gen::hotzap(w, r, s, u)?;
            o = with_msg(&o, |m| { for i in m["add_liquidity_infos"].as_array_mut().unwrap() {
                let k = i["pool_id"].as_u64().unwrap() as usize;
                if s.pools[k].kind == PK::Simple { i["min_amounts"] = js(&[0, 0]); } else { i["min_shares"] = json!("0"); } }
                for a in m["hot_zap_actions"].as_array_mut().unwrap() { a["min_amount_out"] = json!("0"); } m["skip_degen_price_sync"] = json!(true); });
            let m: Value = serde_json::from_str(o.a["msg"].as_str().unwrap()).unwrap();
            let infos = m["add_liquidity_infos"].as_array().unwrap().clone();
            let mut ids: Vec<u64> = infos.iter().map(|i| i["pool_id"].as_u64().unwrap()).collect(); ids.sort(); ids.dedup();
            if ids.len() != infos.len() { return None; }
            let acts = m["hot_zap_actions"].as_array().unwrap().clone();
            let mut f = w.clone();
            for a in &acts { for k in ["token_in", "token_out"].iter() { f.quiet_fund(u, a[*k].as_str().unwrap(), TOP); } }
            let hops = seq_forward(&mut f, u, &acts, Some(num(&o.a["amount"])), &m["referral_id"]).ok()?;
            let mut f = w.clone();
            let st = apply(&mut f, &o)?;
            if st.ev.ok.is_err() || st.ev.receiver != EX { return None; }
            // fee shares of the referrer are not what the zapper minted
            if m["referral_id"] == json!(u) { return None; }
            let mut exact: Vec<u128> = hops.iter().map(|h| h.xout).collect();
            for i in &infos {
                let p = i["pool_id"].as_u64().unwrap() as usize; let ps = &s.pools[p];
                if ps.kind == PK::Simple { for (k, t) in ps.tokens.iter().enumerate() {
                    let mut d = st.post.pools[p].amounts[k] as i128 - st.pre.pools[p].amounts[k] as i128;
                    for h in &hops { if h.pool as usize == p { if h.tin == *t { d -= h.xin as i128; } if h.tout == *t { d += h.xout as i128; } } }
                    exact.push(d as u128);
                } } else { exact.push(st.post.share(p, u) - st.pre.share(p, u)); }
            }
            let kinds: Vec<PK> = infos.iter().map(|i| s.pools[i["pool_id"].as_u64().unwrap() as usize].kind).collect();
            let n = acts.len();
            Some(Limited { name: format!("hot zap into {:?}", kinds), exact, max: false, build: Box::new(move |l| with_msg(&o, |m| {
                for k in 0..n { m["hot_zap_actions"][k]["min_amount_out"] = json!(l[k].to_string()); }
                let mut q = n;
                for (k, pk) in kinds.iter().enumerate() { if *pk == PK::Simple { m["add_liquidity_infos"][k]["min_amounts"] = js(&l[q..q + 2]); q += 2; } else { m["add_liquidity_infos"][k]["min_shares"] = json!(l[q].to_string()); q += 1; } }
            })) })
        }
    }
}
fn c10_run(env: &mut Env, w: &mut World, r: &mut Rng) -> Res {
    for _ in 0..18 {
        if r.p(35) { evolve(w, r); continue; }
        let s = w.snap();
        let l = match find_limited(w, r, &s) { Some(l) => l, None => { w.drain(); continue; } };
        w.drain();
        let free: Vec<u128> = l.exact.iter().map(|_| if l.max { FREE_MAX } else { 0 }).collect();
        let mut f = w.clone();
        let st0 = match apply(&mut f, &(l.build)(&free)) { Some(x) => x, None => continue };
        if st0.ev.ok.is_err() { env.rep.eval("unlimited operation refused", None); continue; }
        let ks = hash64(l.name.as_bytes());
        for trial in 0..4 {
            let mut lim = free.clone();
            let k = r.us(lim.len());
            match trial {
                0 => lim = l.exact.clone(),
                1 => { lim[k] = if l.max { if l.exact[k] == 0 { continue; } l.exact[k] - 1 } else { l.exact[k].saturating_add(1) }; }
                2 => { lim = l.exact.clone(); lim[k] = if l.max { if l.exact[k] == 0 { continue; } l.exact[k] - 1 } else { l.exact[k].saturating_add(1) }; }
                _ => for (i, x) in lim.iter_mut().enumerate() { *x = match r.below(4) { 0 => l.exact[i], 1 => r.logu(l.exact[i].max(1)), 2 => l.exact[i].saturating_add(r.logu(l.exact[i] / 1000 + 2)), _ => *x }; }
            }
            let meets = lim.iter().zip(&l.exact).all(|(x, e)| if l.max { e <= x } else { e >= x });
            let mut g = w.clone();
            let o = (l.build)(&lim);
            let before = if o.recv != EX { w.ledger(&o.recv, &o.signer) } else { 0 };
            let st = match apply(&mut g, &o) { Some(x) => x, None => continue };
            if meets {
                ensure!(st.ev.ok.is_ok(), "{}: limits {:?} are met by {:?} but the operation failed: {}", l.name, lim, l.exact, fmt_ev(&st.ev));
                ensure!(same_money(&st.post, &st0.post), "{}: result depends on the limits: {}", l.name, diff(&st.post, &st0.post));
            } else {
                ensure!(st.ev.ok.is_err(), "{}: limits {:?} are not met by {:?} but the operation succeeded: {}", l.name, lim, l.exact, fmt_ev(&st.ev));
                ensure!(same_money(&st.pre, &st.post), "{}: refused operation left traces: {}", l.name, diff(&st.pre, &st.post));
                if o.recv != EX { g.drain(); ensure!(g.ledger(&o.recv, &o.signer) == before, "{}: refused operation kept {} of the transferred tokens", l.name, before - g.ledger(&o.recv, &o.signer)); }
            }
            env.rep.eval(&format!("{} {}", l.name, if meets { "within limits" } else { "beyond limits" }), Some(hash64(format!("{} {} {} {} {}", ks, k, meets, trial, lg(l.exact[k]) / 4).as_bytes())));
            env.rep.sample(&format!("{} {}", l.name, meets), || json!({"limits":js(&lim),"outcome":js(&l.exact),"call":fmt_ev(&st.ev)}));
        }
        // another trade first: the same limits still bind
        if r.p(50) {
            let mut g = w.clone();
            disturb(&mut g, r);
            let st = match apply(&mut g, &(l.build)(&l.exact)) { Some(x) => x, None => continue };
            if st.ev.ok.is_err() { ensure!(same_money(&st.pre, &st.post), "{}: refused operation left traces", l.name); }
            env.rep.eval(&format!("{} after another trade", l.name), None);
        }
        if r.p(40) { let _ = apply(w, &(l.build)(&free)); w.drain(); }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
fn c12(env: &mut Env, mut r: Rng, ep: u64) -> Res {
    if ep % 2 == 0 {
        let mut w = start(env, &mut r, F_MONEY | F_VOLS);
        let res = c12_run(env, &mut w, &mut r);
        if res.is_err() { *env.story = w.story(30); }
        res
    } else {
        let k = *r.pick(&[PK::Simple, PK::Stable, PK::Rated, PK::Degen, PK::Rated, PK::Degen]);
        let gentle = r.p(50);
        let mut l = lab::lab_with(env.codes, &mut r, k, gentle);
        l.w.flags = F_MONEY | F_VOLS; l.w.cached = None; l.w.ch.dt = 0;
        let res = c12_lab(env, &mut l, &mut r);
        if res.is_err() { *env.story = l.w.story(30); }
        res
    }
}
fn mapn(v: &Value) -> BTreeMap<String, u128> { v.as_object().unwrap().iter().map(|(k, x)| (k.clone(), num(x))).collect() }
/// pool-level quotes against execution in a copy
fn quote_pool(env: &mut Env, w: &mut World, r: &mut Rng, p: usize) -> Res {
    // (a limit on the pool's size is no pricing reason)
    let _ = w.quiet(OWNER, "remove_pool_limit", json!({"pool_id":p}), 1);
    let s = w.snap();
    let ps = s.pools[p].clone();
    let n = ps.tokens.len();
    let u = *r.pick(&USERS);
    for t in &ps.tokens { if w.deposit_of(u, t) < 1 << 60 { let x = 1 << (60 + r.below(50)); w.quiet_fund(u, t, x); } }
    let s = w.snap();
    let (i, j) = { let i = r.us(n); (i, (i + 1 + r.us(n - 1)) % n) };
    let (ti, tj) = (ps.tokens[i].clone(), ps.tokens[j].clone());
    let kd = format!("{:?}", ps.kind);
    // (view, its answer, the operation's outcome in the same units)
    let which = r.below(6);
    let mut f = w.clone();
    let (view, q, done, mag): (&str, Option<Vec<u128>>, Result<Vec<u128>, String>, u64) = match which {
        0 | 1 => {
            let x = match r.below(4) { 0 => r.logu(1000), 1 => r.amount(ps.amounts[i].max(1)), _ => r.amount((ps.amounts[i] / 3).max(1)) }.min(s.deposit(u, &ti)).max(1);
            let q = w.vr("get_return", json!({"pool_id":p,"token_in":ti,"amount_in":x.to_string(),"token_out":tj})).ok().map(|v| vec![num(&v)]);
            if ps.kind == PK::Rated || ps.kind == PK::Degen {
                let m = if ps.kind == PK::Rated { "get_rated_return" } else { "get_degen_return" };
                let q2 = w.vr(m, json!({"pool_id":p,"token_in":ti,"amount_in":x.to_string(),"token_out":tj})).ok().map(|v| vec![num(&v)]);
                if q.is_some() { ensure!(q == q2, "get_return says {:?}, {} says {:?} at the current prices", q, m, q2); }
                env.rep.eval(m, Some(hash64(format!("{} {}", m, lg(x)).as_bytes())));
            }
            let st = f.ex_step(u, "swap", json!({"actions":[{"pool_id":p,"token_in":ti,"amount_in":x.to_string(),"token_out":tj,"min_amount_out":"0"}],"referral_id":rf(r),"skip_degen_price_sync":true}), 1);
            let d = st.ev.ok.clone().map(|_| vec![st.post.deposit(u, &tj) - st.pre.deposit(u, &tj)]);
            ("get_return", q, d, lg(x))
        }
        2 if ps.kind == PK::Simple => {
            let x = r.amount(ps.amounts[j].saturating_add(2)).max(1);
            let q = w.vr("get_return_by_output", json!({"pool_id":p,"token_in":ti,"amount_out":x.to_string(),"token_out":tj})).ok().map(|v| vec![num(&v)]);
            if let Some(q) = &q { let have = f.deposit_of(u, &ti); if have < q[0] { if q[0] - have > 1 << 125 { return Ok(()); } f.quiet_fund(u, &ti, q[0] - have); } }
            let st = f.ex_step(u, "swap_by_output", json!({"actions":[{"pool_id":p,"token_in":ti,"amount_out":x.to_string(),"token_out":tj}],"referral_id":rf(r),"skip_degen_price_sync":true}), 1);
            let d = st.ev.ok.clone().map(|_| vec![st.pre.deposit(u, &ti) - st.post.deposit(u, &ti)]);
            ("get_return_by_output", q, d, lg(x))
        }
        3 => {
            let am = gen::add_amounts(r, &s, u, &ps);
            if ps.kind == PK::Simple {
                let q = w.vr("predict_add_simple_liquidity", json!({"pool_id":p,"amounts":js(&am)})).ok().map(|v| { let mut x = nums(&v["need_amounts"]); x.push(num(&v["mint_shares"])); x });
                let st = f.ex_step(u, "add_liquidity", json!({"pool_id":p,"amounts":js(&am)}), NEAR / 10);
                if st.ev.ok.is_err() && q.is_some() && (0..n).any(|k| q.as_ref().unwrap()[k] > s.deposit(u, &ps.tokens[k])) { return Ok(()); }
                let d = st.ev.ok.clone().map(|_| { let mut x: Vec<u128> = ps.tokens.iter().map(|t| st.pre.deposit(u, t) - st.post.deposit(u, t)).collect(); x.push(st.post.share(p, u) - st.pre.share(p, u)); x });
                ("predict_add_simple_liquidity", q, d, lg(am[0]))
            } else {
                let q = w.vr("predict_add_stable_liquidity", json!({"pool_id":p,"amounts":js(&am)})).ok().map(|v| vec![num(&v)]);
                if (0..n).any(|k| am[k] > s.deposit(u, &ps.tokens[k])) { return Ok(()); }
                if ps.kind != PK::Stable {
                    let m = if ps.kind == PK::Rated { "predict_add_rated_liquidity" } else { "predict_add_degen_liquidity" };
                    let q2 = w.vr(m, json!({"pool_id":p,"amounts":js(&am)})).ok().map(|v| vec![num(&v)]);
                    if q.is_some() { ensure!(q == q2, "predict_add_stable_liquidity says {:?}, {} says {:?} at the current prices", q, m, q2); }
                }
                let st = f.ex_step(u, "add_stable_liquidity", json!({"pool_id":p,"amounts":js(&am),"min_shares":"0"}), NEAR / 10);
                let d = st.ev.ok.clone().map(|_| vec![st.post.share(p, u) - st.pre.share(p, u)]);
                ("predict_add_stable_liquidity", q, d, lg(am[0]))
            }
        }
        4 => {
            let h: Vec<(String, u128)> = USERS.iter().map(|a| (a.to_string(), s.free(a, p))).filter(|x| x.1 > 0).collect();
            if h.is_empty() { return Ok(()); }
            let (a, b) = r.pick(&h).clone();
            let x = r.amount(b).min(b);
            let q = w.vr("predict_remove_liquidity", json!({"pool_id":p,"shares":x.to_string()})).ok().map(|v| nums(&v));
            let st = f.ex_step(&a, "remove_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":js(&vec![0; n])}), 1);
            let d = st.ev.ok.clone().map(|_| ps.tokens.iter().map(|t| st.post.deposit(&a, t) - st.pre.deposit(&a, t)).collect());
            ("predict_remove_liquidity", q, d, lg(x))
        }
        _ if ps.kind != PK::Simple => {
            let h: Vec<(String, u128)> = USERS.iter().map(|a| (a.to_string(), s.free(a, p))).filter(|x| x.1 > 0).collect();
            if h.is_empty() { return Ok(()); }
            let (a, b) = r.pick(&h).clone();
            let am: Vec<u128> = ps.amounts.iter().map(|y| if r.p(35) { 0 } else { r.amount(crate::math::muldiv(*y, b, ps.supply).max(1)) }).collect();
            let q = w.vr("predict_remove_liquidity_by_tokens", json!({"pool_id":p,"amounts":js(&am)})).ok().map(|v| vec![num(&v)]);
            if ps.kind != PK::Stable {
                let m = if ps.kind == PK::Rated { "predict_remove_rated_liquidity_by_tokens" } else { "predict_remove_degen_liquidity_by_tokens" };
                let q2 = w.vr(m, json!({"pool_id":p,"amounts":js(&am)})).ok().map(|v| vec![num(&v)]);
                if q.is_some() { ensure!(q == q2, "predict_remove_liquidity_by_tokens says {:?}, {} says {:?} at the current prices", q, m, q2); }
            }
            let st = f.ex_step(&a, "remove_liquidity_by_tokens", json!({"pool_id":p,"amounts":js(&am),"max_burn_shares":u128::MAX.to_string()}), 1);
            if st.ev.ok.is_err() && q.as_ref().map_or(false, |q| q[0] > b) { env.rep.eval("beyond the holding", None); return Ok(()); }
            let d = st.ev.ok.clone().map(|_| vec![st.pre.share(p, &a) - st.post.share(p, &a)]);
            ("predict_remove_liquidity_by_tokens", q, d, lg(am[0].max(am[1])))
        }
        _ => return Ok(()),
    };
    compare(env, view, &kd, q, done, mag)
}
fn compare(env: &mut Env, view: &str, kd: &str, q: Option<Vec<u128>>, done: Result<Vec<u128>, String>, mag: u64) -> Res {
    match (&q, &done) {
        (Some(a), Ok(b)) => ensure!(a == b, "{} ({}) says {:?}, execution gave {:?}", view, kd, a, b),
        (None, Ok(b)) => return Err(format!("{} ({}) refuses but execution gave {:?}", view, kd, b)),
        (Some(a), Err(e)) => return Err(format!("{} ({}) says {:?} but execution fails: {}", view, kd, a, e)),
        _ => {}
    }
    env.rep.eval(&format!("{} {}{}", view, kd, if q.is_some() { "" } else { " both refuse" }), if q.is_some() { Some(hash64(format!("{} {} {} {}", view, kd, mag, lg(q.as_ref().unwrap()[0])).as_bytes())) } else { None });
    env.rep.sample(&format!("{} {}", view, kd), || json!({"quote":q.map(|x| js(&x)),"executed":format!("{:?}", done)}));
    Ok(())
}
fn c12_run(env: &mut Env, w: &mut World, r: &mut Rng) -> Res {
    for _ in 0..16 {
        if r.p(25) { evolve(w, r); continue; }
        let s = w.snap();
        if r.p(15) {
            // a size limit near what the pool holds
            let d: Vec<usize> = (0..s.pools.len()).filter(|p| s.pools[*p].kind == PK::Degen).collect();
            if !d.is_empty() {
                let p = *r.pick(&d);
                let tvl = num(&w.v("get_degen_pool_tvl", json!({"pool_id":p})));
                let a = json!({"pool_id":p,"degen_pool_limit_info":{"tvl_limit":(tvl / 1000 * r.range(1000, 1100) as u128 + r.logu(1 << 70)).max(1).to_string()}});
                if w.quiet(OWNER, "add_degen_pool_limit", a.clone(), 1).is_err() { let _ = if r.p(60) { w.quiet(OWNER, "update_degen_pool_limit", a, 1) } else { w.quiet(OWNER, "remove_pool_limit", json!({"pool_id":p}), 1) }; }
            }
        }
        match r.below(3) {
            0 => { let p = r.us(s.pools.len()); quote_pool(env, w, r, p)?; }
            1 => {
                // batches: predicted leftovers against a virtual account
                let mut quotes = vec![];
                for _ in 0..1 + r.us(4) {
                    let u = *r.pick(&USERS);
                    let n = 1 + r.us(3);
                    let output = r.p(30);
                    let mut acts = if output { match gen::swapout_actions(r, &s, None, n) { Some(a) => a, None => continue } } else { match gen::swap_actions(r, &s, u, None, n, None) { Some(a) => a.0, None => continue } };
                    if r.p(80) { relax(&mut acts); }
                    if !output && acts[0].get("amount_in").is_none() { continue; }
                    if acts.iter().any(|a| a["token_in"] == a["token_out"]) { continue; }
                    let mut td = Map::new();
                    let t0 = if output { acts.last().unwrap()["token_in"].as_str().unwrap().to_string() } else { acts[0]["token_in"].as_str().unwrap().to_string() };
                    let x0 = if output { w.unit(&t0) * (1 + r.logu(1 << 30)) } else { let x = num(&acts[0]["amount_in"]); match r.below(6) { 0 => x.saturating_sub(1), 1 => x + r.logu(x.max(1)), _ => x } };
                    let x0 = x0.min(1 << 120);
                    if w.deposit_of(u, &t0) < x0 { w.quiet_fund(u, &t0, x0); }
                    td.insert(t0, json!(x0.to_string()));
                    if r.p(30) { let t = r.pick(&s.pools[0].tokens).clone(); let b = w.deposit_of(u, &t); if !td.contains_key(&t) && b > 0 { td.insert(t, json!(r.amount(b).min(b).to_string())); } }
                    quotes.push((u, td, acts));
                }
                if quotes.is_empty() { continue; }
                let mut answers = vec![];
                for (u, td, acts) in &quotes {
                    let q = w.vr("predict_swap_actions", json!({"token_deposit":td,"actions":acts})).ok().map(|v| mapn(&v));
                    let mut f = w.clone();
                    let st = f.ex_step(u, "execute_actions_in_va", json!({"use_tokens":td,"actions":acts,"skip_degen_price_sync":true}), 1);
                    let mag = lg(num(td.values().next().unwrap()));
                    let toks: Vec<String> = w.toks.keys().cloned().collect();
                    let give = |t: &String| td.get(t).map(num).unwrap_or(0);
                    let qv = q.as_ref().map(|q| toks.iter().map(|t| q.get(t).copied().unwrap_or(0)).collect());
                    let dv = st.ev.ok.clone().map(|_| toks.iter().map(|t| st.post.deposit(u, t) + give(t) - st.pre.deposit(u, t)).collect());
                    let ks = kinds(&s, acts, "pool_id");
                    compare(env, "predict_swap_actions", &ks, qv, dv, mag)?;
                    answers.push(q);
                }
                let bq = w.vr("batch_predict_swap_actions", json!({"batch_token_deposit":quotes.iter().map(|q| q.1.clone()).collect::<Vec<_>>(),"batch_actions":quotes.iter().map(|q| q.2.clone()).collect::<Vec<_>>()}));
                if answers.iter().all(|a| a.is_some()) {
                    let got: Vec<BTreeMap<String, u128>> = match &bq { Ok(v) => v.as_array().unwrap().iter().map(mapn).collect(), Err(e) => return Err(format!("batch_predict_swap_actions fails where each prediction alone answers: {}", e)) };
                    let want: Vec<BTreeMap<String, u128>> = answers.into_iter().map(|a| a.unwrap()).collect();
                    ensure!(got == want, "batch_predict_swap_actions says {:?}, single predictions say {:?}", got, want);
                    env.rep.eval("batch_predict_swap_actions", Some(hash64(format!("{:?}", quotes.iter().map(|q| kinds(&s, &q.2, "pool_id")).collect::<Vec<_>>()).as_bytes())));
                } else { ensure!(bq.is_err(), "batch_predict_swap_actions answers although one of its batches has no prediction"); }
            }
            _ => {
                let u = *r.pick(&USERS);
                let o = match gen::hotzap(w, r, &s, u) { Some(o) => o, None => continue };
                let o = with_msg(&o, |m| { m["skip_degen_price_sync"] = json!(true); for i in m["add_liquidity_infos"].as_array_mut().unwrap() { let k = i["pool_id"].as_u64().unwrap() as usize; let o = i.as_object_mut().unwrap(); o.remove("min_amounts"); o.remove("min_shares"); if s.pools[k].kind == PK::Simple { i["min_amounts"] = js(&[0, 0]); } else { i["min_shares"] = json!("0"); } }
                    for a in m["hot_zap_actions"].as_array_mut().unwrap() { a["min_amount_out"] = json!("0"); } });
                let m: Value = serde_json::from_str(o.a["msg"].as_str().unwrap()).unwrap();
                let rid = if m["referral_id"].is_null() { Value::Null } else { m["referral_id"].clone() };
                let _ = w.quiet(u, "storage_deposit", json!({}), NEAR / 5);
                let q = w.vr("predict_hot_zap", json!({"referral_id":rid,"account_id":if r.p(60) { json!(u) } else { Value::Null },"token_in":o.recv,"amount_in":o.a["amount"],"hot_zap_actions":m["hot_zap_actions"],"add_liquidity_infos":m["add_liquidity_infos"]})).ok().filter(|v| !v.is_null());
                let mut f = w.clone();
                let st = match apply(&mut f, &o) { Some(x) => x, None => continue };
                if st.ev.receiver != EX { continue; }
                let toks: Vec<String> = w.toks.keys().cloned().collect();
                let infos = m["add_liquidity_infos"].as_array().unwrap();
                let np = st.pre.pools.len();
                let qv = q.as_ref().map(|q| { let left = mapn(&q[1]); let mut v: Vec<u128> = toks.iter().map(|t| left.get(t).copied().unwrap_or(0)).collect(); let mut sh = vec![0u128; np]; for (k, i) in infos.iter().enumerate() { sh[i["pool_id"].as_u64().unwrap() as usize] += num(&q[0][k]["mint_shares"]); } v.extend(sh); v });
                let dv = st.ev.ok.clone().map(|_| { let mut v: Vec<u128> = toks.iter().map(|t| st.post.deposit(u, t) - st.pre.deposit(u, t)).collect(); v.extend((0..np).map(|p| st.post.share(p, u) - st.pre.share(p, u))); v });
                if rid == json!(u) { continue; }
                compare(env, "predict_hot_zap", &infos.iter().map(|i| format!("{:?}", s.pools[i["pool_id"].as_u64().unwrap() as usize].kind)).collect::<String>(), qv, dv.clone(), lg(num(&o.a["amount"])))?;
                if let (Some(q), Ok(_)) = (&q, &dv) {
                    // amounts the zap put into pools it did not also trade in
                    for (k, i) in infos.iter().enumerate() {
                        let p = i["pool_id"].as_u64().unwrap() as usize;
                        if infos.iter().filter(|x| x["pool_id"] == i["pool_id"]).count() > 1 || m["hot_zap_actions"].as_array().unwrap().iter().any(|a| a["pool_id"] == i["pool_id"]) { continue; }
                        let need = nums(&q[0][k]["need_amounts"]);
                        for (x, t) in s.pools[p].tokens.iter().enumerate() { let d = st.post.pools[p].amounts[x] - st.pre.pools[p].amounts[x]; ensure!(d == need[x], "hot zap put {} of {} into pool {}, predicted {}", d, t, p, need[x]); }
                        env.rep.eval("predict_hot_zap amounts", None);
                    }
                }
            }
        }
        w.drain();
    }
    Ok(())
}
fn c12_lab(env: &mut Env, l: &mut lab::Lab, r: &mut Rng) -> Res {
    let n = l.n();
    for _ in 0..14 {
        if r.p(25) { l.evolve(r); continue; }
        let p = l.p as usize;
        if l.kind != PK::Rated && l.kind != PK::Degen || r.p(50) { quote_pool(env, &mut l.w, r, p)?; l.settle(); continue; }
        // explicit prices against a copy of the world where the provider reports them
        let ps = l.pool();
        let u = *r.pick(&USERS[..3].iter().cloned().collect::<Vec<_>>());
        let mut f = l.w.clone();
        let mut want: Vec<u128> = ps.rates.iter().map(|x| (crate::math::muldiv(*x, 500 + r.below(1500) as u128, 1000) / 10u128.pow(12)).max(1) * 10u128.pow(12)).collect();
        for (k, t) in l.t.iter().enumerate() {
            if l.kind == PK::Degen { let d = f.dec(t); f.set_price(t, want[k] / 10u128.pow(12), d + 12); }
            else if f.v("list_rated_tokens", json!({})).get(t).is_some() { f.set_rate(t, "get_st_near_price", want[k]); }
            else { want[k] = PREC24; }
        }
        f.refresh_prices();
        let now = f.pool(l.p).rates;
        if now != want { continue; }
        let (field, sfx) = if l.kind == PK::Rated { ("rates", "rated") } else { ("degens", "degen") };
        let kd = format!("{:?}", l.kind);
        let s = f.snap();
        let q = |w: &World, m: &str, mut a: Value| -> Option<Vec<u128>> { a["pool_id"] = json!(l.p); a[field] = js(&want); w.vr(m, a).ok().map(|v| vec![num(&v)]) };
        match r.below(3) {
            0 => {
                let i = r.us(n); let j = (i + 1 + r.us(n - 1)) % n;
                let x = l.amount_in(r, u, i, &ps);
                if s.deposit(u, &l.t[i]) < x { continue; }
                let m = format!("get_{}_return", sfx);
                // refused for pricing reasons at those prices
                if f.vr("get_return", json!({"pool_id":l.p,"token_in":l.t[i],"amount_in":x.to_string(),"token_out":l.t[j]})).is_err() { env.rep.eval("refused at those prices", None); continue; }
                let a = q(&l.w, &m, json!({"token_in":l.t[i],"amount_in":x.to_string(),"token_out":l.t[j]}));
                let st = f.ex_step(u, "swap", json!({"actions":[{"pool_id":l.p,"token_in":l.t[i],"amount_in":x.to_string(),"token_out":l.t[j],"min_amount_out":"0"}],"skip_degen_price_sync":true}), 1);
                let d = st.ev.ok.clone().map(|_| vec![st.post.deposit(u, &l.t[j]) - st.pre.deposit(u, &l.t[j])]);
                compare(env, &m, &format!("explicit {}", kd), a, d, lg(x))?;
            }
            1 => {
                let am = gen::add_amounts(r, &s, u, &ps);
                if (0..n).any(|k| am[k] > s.deposit(u, &l.t[k])) { continue; }
                let m = format!("predict_add_{}_liquidity", sfx);
                // refused for pricing reasons at those prices
                if f.vr("predict_add_stable_liquidity", json!({"pool_id":l.p,"amounts":js(&am)})).is_err() { env.rep.eval("refused at those prices", None); continue; }
                let a = q(&l.w, &m, json!({"amounts":js(&am)}));
                let st = f.ex_step(u, "add_stable_liquidity", json!({"pool_id":l.p,"amounts":js(&am),"min_shares":"0"}), NEAR / 10);
                let d = st.ev.ok.clone().map(|_| vec![st.post.share(p, u) - st.pre.share(p, u)]);
                compare(env, &m, &format!("explicit {}", kd), a, d, lg(am[0]))?;
            }
            _ => {
                let b = s.free(u, p);
                if b == 0 { continue; }
                let am: Vec<u128> = ps.amounts.iter().map(|y| if r.p(35) { 0 } else { r.amount(crate::math::muldiv(*y, b, ps.supply).max(1)) }).collect();
                let m = format!("predict_remove_{}_liquidity_by_tokens", sfx);
                // refused for pricing reasons at those prices
                if f.vr("predict_remove_liquidity_by_tokens", json!({"pool_id":l.p,"amounts":js(&am)})).is_err() { env.rep.eval("refused at those prices", None); continue; }
                let a = q(&l.w, &m, json!({"amounts":js(&am)}));
                let st = f.ex_step(u, "remove_liquidity_by_tokens", json!({"pool_id":l.p,"amounts":js(&am),"max_burn_shares":u128::MAX.to_string()}), 1);
                if st.ev.ok.is_err() && a.as_ref().map_or(false, |a| a[0] > b) { continue; }
                let d = st.ev.ok.clone().map(|_| vec![st.pre.share(p, u) - st.post.share(p, u)]);
                compare(env, &m, &format!("explicit {}", kd), a, d, lg(am[0].max(am[1])))?;
            }
        }
    }
    Ok(())
}
