//! C38: what strangers do in pools, seeds and accounts of their own changes neither the outcome nor the cost of anybody else's operation.
//! Two copies of one world run the same operations; one of them is first filled by strangers, who also act between the receipts of an operation.
use super::{send, spec_any, Check};
use crate::driver::Env;
use crate::ensure;
use crate::farmw::{fop, fworld, FMix, FSnap, FARM, FOWN, FW};
use crate::gen::{self, next_op, Mix, Op};
use crate::chain::NEAR;
use crate::mocks::{Ft, Mock};
use crate::report::Res;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C38", f: c38, rule: "one evaluation per receipt executed in both worlds: same success, result, logs and outgoing calls, and storage work that does not grow with what strangers left behind; per operation also everything reported about the accounts, pools, seeds and farms both worlds share; non-trivial = the receipt ran on a contract under test, keyed by method, success, position of the strangers' interference and size", quick_secs: 24, min_evals: 1500 }]
}
fn c38(env: &mut Env, mut r: Rng, ep: u64) -> Res { if ep % 3 == 2 { farming(env, &mut r) } else { exchange(env, &mut r) } }

fn zt(i: usize) -> String { format!("zt{}.t", i) }
/// some names are chosen to lie next to those of others
fn zu(i: usize) -> String { match i { 1 => "ua.nea".into(), 2 => "ua.nearr".into(), 3 => "ub.near0".into(), 4 => "1ub.near".into(), 5 => "exchange.nea".into(), _ => format!("zz{}.near", i) } }
const TOKS: usize = 24;
const MAX: u128 = 1 << 120;

/// one call with everything it sets off, whatever comes of it; nothing else runs and time stands still
fn run(w: &mut World, who: &str, to: &str, m: &str, a: Value, dep: u128) -> bool {
    if !w.ch.accounts.contains_key(who) || w.ch.bal(who) < dep { return false; }
    let (dt, keep) = (w.ch.dt, w.keep_oplog);
    w.ch.dt = 0;
    w.keep_oplog = false;
    let id = w.ch.send(who, to, m, a, dep);
    let mut ids = vec![id];
    let mut n = 0;
    while let Some(i) = ids.pop() { if let Some(p) = w.pos(i) { let k = w.exec_fast(p); ids.extend(w.ch.log[k].created.iter().rev()); n += 1; assert!(n < 500, "receipt storm"); } }
    w.ch.dt = dt; w.keep_oplog = keep; w.cached = None;
    w.ch.outcome(id).is_ok()
}
/// strangers and their tokens, known to both worlds but idle in the first
fn cast(w: &mut World, users: usize) {
    for i in 0..users { w.ch.add_user(&zu(i), 100_000 * NEAR); }
    for i in 0..TOKS {
        let mut f = Ft::default();
        for a in [EX, OWNER, FARM, FOWN].iter() { f.bal.insert(a.to_string(), 0); }
        for k in 0..users { f.bal.insert(zu(k), MAX); }
        w.ch.add_mock(&zt(i), Mock::Ft(f), NEAR);
    }
}
struct Fill { users: usize, pool0: u64, pools: u64, done: u64 }
/// strangers fill the exchange
fn fill(w: &mut World, r: &mut Rng, users: usize) -> Fill {
    let mut done = 0u64;
    let mut go = |w: &mut World, who: &str, to: &str, m: &str, a: Value, dep: u128| -> bool { let ok = run(w, who, to, m, a, dep); done += ok as u64; ok };
    let toks: Vec<String> = w.toks.keys().cloned().collect();
    let zts: Vec<String> = (0..TOKS).map(zt).collect();
    let guards = r.p(80);
    if guards {
        go(w, GUARD, EX, "extend_whitelisted_tokens", json!({"tokens":zts}), 1);
        // the common tokens are not always the first of the list
        if r.p(60) { for t in &toks { if r.p(50) && go(w, GUARD, EX, "remove_whitelisted_tokens", json!({"tokens":[t]}), 1) { assert!(go(w, GUARD, EX, "extend_whitelisted_tokens", json!({"tokens":[t]}), 1)); } } }
    }
    let pool0 = w.pool_count();
    for i in 0..users {
        let u = zu(i);
        go(w, &u, EX, "storage_deposit", json!({}), NEAR);
        if !guards { go(w, &u, EX, "register_tokens", json!({"token_ids":zts}), 1); }
        for k in [i % TOKS, (i + 1 + i / TOKS) % TOKS].iter() { go(w, &u, &zt(*k), "ft_transfer_call", json!({"receiver_id":EX,"amount":(1u128 << 100).to_string(),"msg":""}), 1); }
        let t = r.pick(&toks).clone();
        if r.p(60) { w.mint(&t, &u, 1_000_000); go(w, &u, &t, "ft_transfer_call", json!({"receiver_id":EX,"amount":"1000000","msg":""}), 1); }
    }
    let mut pools = 0;
    // now and then more pools than fit a byte
    let wide = r.p(6);
    let most = if wide { 258 } else { users.min(TOKS) };
    for i in 0..most {
        let u = zu(i % users);
        if !go(w, &u, EX, "add_simple_pool", json!({"tokens":[zt(i % TOKS), zt((i + 1) % TOKS)],"fee":30}), NEAR / 5) { continue; }
        let p = pool0 + pools; pools += 1;
        if wide && i > 4 && p < 256 { continue; }
        go(w, &u, EX, "add_liquidity", json!({"pool_id":p,"amounts":[(1u128 << 90).to_string(), (1u128 << 91).to_string()]}), NEAR / 5);
        if r.p(50) { go(w, &u, EX, "swap", json!({"actions":[{"pool_id":p,"token_in":zt(i % TOKS),"amount_in":"123456789","token_out":zt((i + 1) % TOKS),"min_amount_out":"0"}],"referral_id":REF1}), 1); }
        if r.p(50) { go(w, GUARD, EX, "register_pool_twap_record", json!({"pool_id":p}), 1); }
        if r.p(50) { go(w, &u, EX, "shadow_action", json!({"action":if r.p(50) { "ToFarming" } else { "ToBurrowland" },"pool_id":p,"amount":"1000","msg":""}), NEAR / 10); }
        for k in 0..3 { let v = zu((i % users + 1 + k) % users); if go(w, &v, EX, "mft_register", json!({"token_id":format!(":{}", p),"account_id":v}), NEAR / 10) { go(w, &u, EX, "mft_transfer", json!({"token_id":format!(":{}", p),"receiver_id":v,"amount":"1000000"}), 1); } }
    }
    // shares of the common pools, spread over many strangers
    for p in 0..pool0 {
        let x = w.share_of(p, "zz0.near");
        if x < 1000 { continue; }
        for i in 1..users { if r.p(60) { let v = zu(i); if go(w, &v, EX, "mft_register", json!({"token_id":format!(":{}", p),"account_id":v}), NEAR / 10) { go(w, "zz0.near", EX, "mft_transfer", json!({"token_id":format!(":{}", p),"receiver_id":v,"amount":"3"}), 1); } } }
    }
    if guards && r.p(80) {
        let fr: Vec<String> = (0..40).map(|i| format!("frozen{}.t", i)).collect();
        go(w, GUARD, EX, "extend_frozenlist_tokens", json!({"tokens":fr}), 1);
        for i in 0..30 { go(w, GUARD, EX, "insert_referral", json!({"referral_id":format!("zref{}.near", i),"fee_bps":100}), 1); }
    }
    // money of strangers who are gone ends up in the lost-and-found
    for i in 0..users {
        if r.p(60) { continue; }
        let near = ["ghost.nea", "ghost.near2", "ghost.n", "1ghost.near"];
        let u = if i < near.len() { near[i].to_string() } else { format!("gone{}.near", i) };
        let t = if i < 2 * near.len() { r.pick(&toks).clone() } else { zt(i % TOKS) };
        w.ch.add_user(&u, 100 * NEAR);
        w.mint(&t, &u, 1000);
        go(w, &u, EX, "storage_deposit", json!({}), NEAR);
        if !guards || t.starts_with("zt") == false { go(w, &u, EX, "register_tokens", json!({"token_ids":[t]}), 1); }
        if !go(w, &u, &t, "ft_transfer_call", json!({"receiver_id":EX,"amount":"1000","msg":""}), 1) { continue; }
        let (dt, keep) = (w.ch.dt, w.keep_oplog);
    w.ch.dt = 0;
        w.keep_oplog = false;
        w.ch.mock(&t).ft().deny.insert(u.clone());
        let id = w.ch.send(&u, EX, "withdraw", json!({"token_id":t,"amount":"1000"}), 1);
        let k = { let p = w.pos(id).unwrap(); w.exec_fast(p) };
        let mut ids: Vec<usize> = w.ch.log[k].created.iter().rev().cloned().collect();
        run(w, &u, EX, "unregister_tokens", json!({"token_ids":[t]}), 1);
        run(w, &u, EX, "storage_unregister", json!({"force":true}), 1);
        while let Some(i) = ids.pop() { if let Some(p) = w.pos(i) { let k = w.exec_fast(p); ids.extend(w.ch.log[k].created.iter().rev()); } }
        w.ch.dt = dt; w.keep_oplog = keep; w.cached = None;
    }
    Fill { users, pool0, pools, done }
}
/// a stranger acts between two receipts
fn meddle(w: &mut World, r: &mut Rng, f: &Fill) -> u64 {
    let i = r.us(f.users);
    let u = zu(i);
    let t = zt(i % TOKS);
    let p = if f.pools > 0 { f.pool0 + (i as u64 % f.pools) } else { return 0 };
    let (a, b) = (zt((p - f.pool0) as usize % TOKS), zt((p - f.pool0 + 1) as usize % TOKS));
    (match r.below(10) {
        0 => run(w, &u, &t, "ft_transfer_call", json!({"receiver_id":EX,"amount":(1 + r.below(1000)).to_string(),"msg":""}), 1),
        1 => run(w, &u, EX, "withdraw", json!({"token_id":t,"amount":(1 + r.below(1000)).to_string()}), 1),
        2 | 3 => run(w, &zu((p - f.pool0) as usize % f.users), EX, "swap", json!({"actions":[{"pool_id":p,"token_in":a,"amount_in":(1 + r.below(1 << 40)).to_string(),"token_out":b,"min_amount_out":"0"}]}), 1),
        4 => { w.ch.mock(&t).ft().fail = true; let x = run(w, &u, EX, "withdraw", json!({"token_id":t,"amount":"5"}), 1); w.ch.mock(&t).ft().fail = false; x }
        5 => run(w, &zu((p - f.pool0) as usize % f.users), EX, "remove_liquidity", json!({"pool_id":p,"shares":"1000","min_amounts":["0","0"]}), 1),
        6 => run(w, &zu((p - f.pool0) as usize % f.users), EX, "shadow_action", json!({"action":if r.p(50) { "ToFarming" } else { "FromFarming" },"pool_id":p,"amount":"10","msg":""}), NEAR / 10),
        7 => run(w, &zu((p - f.pool0) as usize % f.users), EX, "mft_transfer_call", json!({"token_id":format!(":{}", p),"receiver_id":BOOST,"amount":"7","msg":""}), 1),
        8 => run(w, &u, EX, "storage_deposit", json!({"account_id":format!("late{}.near", r.below(40))}), NEAR / 10),
        _ => run(w, &u, &t, "ft_transfer_call", json!({"receiver_id":EX,"amount":"1000","msg":json!({"Execute":{"actions":[{"pool_id":f.pool0 + (i as u64 % f.pools),"token_in":t,"token_out":zt((i + 1) % TOKS),"min_amount_out":"0"}]}}).to_string()}), 1),
    }) as u64
}
/// what both worlds share of what the exchange reports
fn common(w: &World, pools: u64) -> Snap {
    let mut s = w.read(F_ALL);
    s.pools.truncate(pools as usize); s.shares.truncate(pools as usize); s.vols.truncate(pools as usize);
    for m in s.dep.values_mut() { m.retain(|t, x| !t.starts_with("zt") || *x > 0); }
    s.white.retain(|t| !t.starts_with("zt")); s.frozen.retain(|t| !t.starts_with("frozen")); s.refs.retain(|t, _| !t.starts_with("zref"));
    if let Some(o) = s.meta.as_object_mut() { o.remove("pool_count"); }
    s
}
fn diff(a: &Snap, b: &Snap) -> Option<String> {
    macro_rules! f { ($($x:ident),*) => { $( if a.$x != b.$x { return Some(format!("{}: {:?} against {:?}", stringify!($x), a.$x, b.$x).chars().take(1500).collect()); } )* } }
    f!(dep, shares, shadow, lost, pools, vols, meta, frozen, white, refs, rated, degen, limits, storage);
    None
}
type Held = (BTreeMap<String, BTreeMap<String, u128>>, BTreeMap<String, u128>);
/// what the accounts both worlds share hold outside
fn held(w: &World, toks: &[String], accts: &[String]) -> Held {
    (toks.iter().map(|t| (t.clone(), w.ch.mock_ref(t).ft_ref().bal.iter().filter(|x| accts.contains(x.0) && *x.0 != EX && *x.0 != FARM).map(|(a, b)| (a.clone(), *b)).collect())).collect(),
        accts.iter().filter(|a| *a != EX && *a != FARM && w.ch.accounts.contains_key(*a)).map(|a| (a.clone(), w.ch.bal(a))).collect())
}
/// the same operation in both; strangers act in the second between its receipts
fn pair(env: &mut Env, a: &mut World, b: &mut World, r: &mut Rng, o: &Op, extra: u64, meddler: &mut dyn FnMut(&mut World, &mut Rng) -> u64) -> Result<bool, String> {
    let (ia, ib) = (send(a, o), send(b, o));
    if ia.is_none() || ib.is_none() { ensure!(ia == ib, "harness: one side cannot send"); return Ok(false); }
    let mut n = 0;
    loop {
        let (ra, rb) = (a.ch.ready(), b.ch.ready());
        ensure!(ra.len() == rb.len(), "{}.{}: {} receipts follow against {} with strangers about", o.recv, o.m, ra.len(), rb.len());
        if ra.is_empty() { return Ok(true); }
        let k = if r.p(60) { 0 } else { r.us(ra.len()) };
        let mut acted = 0;
        if n > 0 { for _ in 0..r.below(3) { acted += meddler(b, r); } }
        let (ea, eb) = { let (x, y) = (a.exec_fast(ra[k]), b.exec_fast(b.ch.ready()[k])); (a.ch.log[x].clone(), b.ch.log[y].clone()) };
        let out = |w: &World, e: &crate::chain::Ev| -> Vec<String> { w.ch.pending.iter().filter(|x| e.created.contains(&x.id)).map(|x| format!("{} {:?}", x.receiver, x.actions)).collect() };
        let res = |e: &crate::chain::Ev| match &e.ok { Ok(x) if x.starts_with("<promise") => Ok("promise".to_string()), Ok(x) => Ok(x.clone()), Err(_) => Err(()) };
        let what = || format!("{}.{} by {} {}", ea.receiver, ea.method, ea.pred, ea.args.chars().take(300).collect::<String>());
        ensure!(ea.receiver == eb.receiver && ea.method == eb.method && ea.args == eb.args && ea.deposit == eb.deposit, "{}: with strangers about the receipt is {}.{} {} ({})", what(), eb.receiver, eb.method, eb.args, eb.deposit);
        let numbered = new_pool(o) && ea.receiver == EX;
        ensure!(if numbered { ea.ok.is_ok() == eb.ok.is_ok() } else { res(&ea) == res(&eb) }, "{}: {:?}, but {:?} with strangers about", what(), ea.ok, eb.ok);
        if ea.receiver == EX || ea.receiver == FARM {
            ensure!(numbered || ea.logs == eb.logs, "{}: logs {:?}, but {:?} with strangers about", what(), ea.logs, eb.logs);
            let (x, y) = (out(a, &ea), out(b, &eb));
            ensure!(x == y, "{}: sends {:?}, but {:?} with strangers about", what(), x, y);
            if ea.ok.is_ok() {
                let (dn, db) = (eb.work.0.saturating_sub(ea.work.0), eb.work.1.saturating_sub(ea.work.1));
                if std::env::var("REFMON_WORK").is_ok() && (dn > 0 || db > 0) { eprintln!("work {} {} +{} of {} bytes +{} of {}", ea.receiver, ea.method, dn, ea.work.0, db, ea.work.1); }
                ensure!(dn <= SLACK.0 && db <= SLACK.1, "{}: {} storage accesses ({} bytes), but {} ({} bytes) after {} operations of strangers elsewhere", what(), ea.work.0, ea.work.1, eb.work.0, eb.work.1, extra);
            }
            env.rep.eval("same outcome and cost", Some(hash64(format!("{}{}{}{}{}", ea.receiver, ea.method, ea.ok.is_ok(), acted > 0, extra / 60).as_bytes())));
            if acted > 0 { env.rep.count("strangers acted between the receipts"); }
            if ea.ok.is_ok() { env.rep.sample(&format!("{} {}", ea.receiver, ea.method), || json!({"accesses": ea.work, "with strangers": eb.work, "strangers' operations": extra})); }
        }
        n += 1;
        if n > 300 { return Err("harness: receipt storm".into()); }
    }
}
fn new_pool(o: &Op) -> bool { o.m.starts_with("add_") && o.m.ends_with("_pool") }
/// removing an entry of a listed collection moves its last entry
const SLACK: (u64, u64) = (12, 600);

fn exchange(env: &mut Env, r: &mut Rng) -> Res {
    let sp = spec_any(r);
    let mut w = gen::world(env.codes, r, &sp);
    w.keep_oplog = false;
    let users = 12 + r.us(30);
    cast(&mut w, users);
    // the first stranger holds shares of common pools before the worlds part
    run(&mut w, "zz0.near", EX, "storage_deposit", json!({}), NEAR);
    for p in 0..w.pool_count() {
        let ps = w.pool(p);
        if ps.supply == 0 || r.p(50) { continue; }
        let u = *r.pick(&USERS);
        let x = w.share_of(p, u);
        if x < 100_000 { continue; }
        run(&mut w, "zz0.near", EX, "mft_register", json!({"token_id":format!(":{}", p),"account_id":"zz0.near"}), NEAR / 10);
        run(&mut w, u, EX, "mft_transfer", json!({"token_id":format!(":{}", p),"receiver_id":"zz0.near","amount":"5000"}), 1);
    }
    // an account both worlds share has something in the lost-and-found
    w.ch.add_user("ghost.near", 100 * NEAR); w.accts.push("ghost.near".into());
    let haunt = |w: &mut World, r: &mut Rng| {
        w.keep_oplog = false;
        for _ in 0..2 {
            let ps: Vec<u64> = (0..w.pool_count()).filter(|p| { let p = w.pool(*p); p.kind == PK::Simple && p.supply > 0 }).collect();
            if ps.is_empty() { break; }
            let p = *r.pick(&ps);
            let (ps, k) = (w.pool(p), r.us(2));
            let (x, y, u) = (ps.tokens[k].clone(), ps.tokens[1 - k].clone(), *r.pick(&USERS));
            let q = w.ch.mock(&x).ft().get(u).min(ps.amounts[k] / 50);
            w.ch.mock(&y).ft().bal.remove("ghost.near");
            if q > 0 { run(w, u, &x, "ft_transfer_call", json!({"receiver_id":EX,"amount":q.to_string(),"msg":json!({"actions":[{"pool_id":p,"token_in":x,"token_out":y,"min_amount_out":"0"}],"swap_out_recipient":"ghost.near"}).to_string()}), 1); }
        }
        w.keep_oplog = true;
    };
    w.keep_oplog = true;
    let mix = Mix::all().with(&[(gen::M_TIME, 0), (gen::M_FAULT, 2)]);
    for _ in 0..3 {
        for _ in 0..r.us(30) { w.flags = F_ALL; let s = w.snap(); if let Some(o) = next_op(&mut w, r, &s, &mix) { if send(&mut w, &o).is_some() { w.drain(); } } }
        if r.p(50) { haunt(&mut w, r); }
        // operations drawn now, run one at a time from here
        let mut ops = vec![];
        { w.flags = F_ALL; let s = w.snap(); for (t, x) in s.lost.get("ghost.near").cloned().unwrap_or_default() { if x > 0 && r.p(50) { if r.p(60) { w.ch.mock(&t).ft().bal.entry("ghost.near".into()).or_insert(0); } ops.push(gen::op("ghost.near", "claim_lostfound", json!({"token_id":t}), 1)); } } }
        for _ in 0..14 { w.flags = F_ALL; let s = w.snap(); if let Some(o) = next_op(&mut w, r, &s, &mix) { ops.push(o); } }
        let pools = w.pool_count();
        let toks: Vec<String> = w.toks.keys().cloned().collect();
        if r.p(60) { let (x, y) = (r.pick(&toks).clone(), r.pick(&toks).clone()); ops.push(gen::op(*r.pick(&USERS), "add_simple_pool", json!({"tokens":[x, y],"fee":r.below(100)}), NEAR / 5)); }
        let accts = w.accts.clone();
        let mut full = w.clone();
        let f = fill(&mut full, r, users);
        full.ch.accounts.get_mut(GUARD).unwrap().balance = w.ch.bal(GUARD);
        if let Some(d) = diff(&common(&w, pools), &common(&full, pools)) { *env.story = w.story(20); return Err(format!("the strangers' own operations changed the others' records: {}", d)); }
        ensure!(held(&w, &toks, &accts) == held(&full, &toks, &accts), "the strangers' own operations moved the others' tokens");
        env.rep.eval("filled by strangers", Some(hash64(format!("{}", f.done / 20).as_bytes())));
        env.rep.count(&format!("strangers' operations {}+", f.done / 50 * 50));
        let sequential = r.p(40);
        let (mut a, mut b) = (w.clone(), full.clone());
        for o in ops {
            // a new pool gets another number, which later operations could tell
            if sequential && new_pool(&o) { continue; }
            if !sequential { a = w.clone(); b = full.clone(); }
            a.keep_oplog = true; b.keep_oplog = true;
            let ran = pair(env, &mut a, &mut b, r, &o, f.done, &mut |w, r| meddle(w, r, &f));
            let ran = match ran { Ok(x) => x, Err(e) => { *env.story = b.story(40); return Err(e); } };
            if !ran { continue; }
            if let Some(d) = diff(&common(&a, pools), &common(&b, pools)) { *env.story = b.story(40); return Err(format!("after {} {} by {} the records differ with strangers about: {}", o.m, o.a, o.signer, d)); }
            ensure!(held(&a, &toks, &accts) == held(&b, &toks, &accts), "after {} {} by {} the others hold different tokens or NEAR with strangers about", o.m, o.a, o.signer);
        }
        if sequential { w = a; }
    }
    Ok(())
}

// ---------------------------------------------------------------- farming
fn fcommon(f: &FW) -> FSnap {
    let mut s = f.read(f.w.ch.ts);
    s.seeds.retain(|k, _| !k.starts_with("zt"));
    s.farms.retain(|k, _| !k.starts_with("zt")); s.old.retain(|k, _| !k.starts_with("zt")); s.rinfo.retain(|k, _| !k.starts_with("zt"));
    if let Some(o) = s.meta.as_object_mut() { for k in ["farmer_count", "farm_count", "seed_count", "reward_count"].iter() { o.remove(*k); } }
    s
}
fn fdiff(a: &FSnap, b: &FSnap) -> Option<String> {
    macro_rules! f { ($($x:ident),*) => { $( if a.$x != b.$x { return Some(format!("{}: {:?} against {:?}", stringify!($x), a.$x, b.$x).chars().take(1500).collect()); } )* } }
    f!(meta, seeds, farms, old, rinfo, users);
    None
}
fn ffill(w: &mut World, r: &mut Rng, users: usize) -> u64 {
    let mut done = 0u64;
    let mut go = |w: &mut World, who: &str, to: &str, m: &str, a: Value, dep: u128| -> bool { let ok = run(w, who, to, m, a, dep); done += ok as u64; ok };
    let now = w.ch.ts / SEC;
    for i in 0..TOKS {
        for k in 0..1 + r.us(3) {
            let old = r.p(20);
            let a = json!({"terms":{"seed_id":zt(i),"reward_token":zt((i + 1 + k) % TOKS),"start_at":if old { now - 5000 } else { 0 },"reward_per_session":if old { "1000000".into() } else { (1 + r.logu(1 << 60)).to_string() },"session_interval":1 + r.below(100)},"min_deposit":"10"});
            go(w, FOWN, FARM, "create_simple_farm", a, NEAR / 10);
            go(w, &zu(r.us(users)), &zt((i + 1 + k) % TOKS), "ft_transfer_call", json!({"receiver_id":FARM,"amount":"1000000","msg":format!("{}#{}", zt(i), k)}), 1);
        }
    }
    for i in 0..users {
        let u = zu(i);
        go(w, &u, FARM, "storage_deposit", json!({}), NEAR);
        for _ in 0..2 { let k = r.us(TOKS); go(w, &u, &zt(k), "ft_transfer_call", json!({"receiver_id":FARM,"amount":(10 + r.logu(1 << 60)).to_string(),"msg":""}), 1); if r.p(50) { go(w, &u, FARM, "claim_reward_by_seed", json!({"seed_id":zt(k)}), 0); } }
    }
    for i in 0..TOKS { if r.p(40) { go(w, FOWN, FARM, "force_clean_farm", json!({"farm_id":format!("{}#0", zt(i))}), 0); } }
    done
}
fn fmeddle(w: &mut World, r: &mut Rng, users: usize) -> u64 {
    let (u, t) = (zu(r.us(users)), zt(r.us(TOKS)));
    (match r.below(6) {
        0 | 1 => run(w, &u, &t, "ft_transfer_call", json!({"receiver_id":FARM,"amount":(10 + r.below(1000)).to_string(),"msg":""}), 1),
        2 => run(w, &u, FARM, "withdraw_seed", json!({"seed_id":t,"amount":"7"}), 1),
        3 => run(w, &u, FARM, "claim_reward_by_seed", json!({"seed_id":t}), 0),
        4 => run(w, &u, FARM, "withdraw_reward", json!({"token_id":t}), 1),
        _ => { w.ch.mock(&t).ft().fail = true; let x = run(w, &u, FARM, "withdraw_seed", json!({"seed_id":t,"amount":"3"}), 1); w.ch.mock(&t).ft().fail = false; x }
    }) as u64
}
fn farming(env: &mut Env, r: &mut Rng) -> Res {
    let mut f = fworld(env.codes, r, true);
    let users = 12 + r.us(30);
    cast(&mut f.w, users);
    let toks: Vec<String> = f.w.toks.keys().cloned().collect();
    let mut accts = f.accts.clone(); accts.extend(f.w.accts.iter().cloned()); accts.sort(); accts.dedup();
    for _ in 0..3 {
        for _ in 0..r.us(40) { if let Some(o) = fop(&mut f, r, &FMix::default()) { if send(&mut f.w, &o).is_some() { f.w.drain(); } } }
        let mut ops = vec![];
        for _ in 0..14 { if let Some(o) = fop(&mut f, r, &FMix::default()) { ops.push(o); } }
        f.w.drain();
        let mut full = f.clone();
        full.cache = None; f.cache = None;
        let nf = f.w.ch.bal(FOWN);
        let done = ffill(&mut full.w, r, users);
        full.w.ch.accounts.get_mut(FOWN).unwrap().balance = nf;
        if let Some(d) = fdiff(&fcommon(&f), &fcommon(&full)) { return Err(format!("the strangers' own operations changed the others' farming records: {}", d)); }
        env.rep.eval("filled by strangers (farm)", Some(hash64(format!("{}", done / 20).as_bytes())));
        env.rep.count(&format!("strangers' operations {}+", done / 50 * 50));
        let sequential = r.p(40);
        let (mut a, mut b) = (f.clone(), full.clone());
        for o in ops {
            if !sequential { a = f.clone(); b = full.clone(); }
            a.w.keep_oplog = true; b.w.keep_oplog = true;
            let ran = pair(env, &mut a.w, &mut b.w, r, &o, done, &mut |w, r| fmeddle(w, r, users));
            let ran = match ran { Ok(x) => x, Err(e) => { *env.story = b.w.story(40); return Err(e); } };
            if !ran { continue; }
            a.cache = None; b.cache = None;
            if let Some(d) = fdiff(&fcommon(&a), &fcommon(&b)) { *env.story = b.w.story(40); return Err(format!("after {} {} by {} the farming records differ with strangers about: {}", o.m, o.a, o.signer, d)); }
            ensure!(held(&a.w, &toks, &accts) == held(&b.w, &toks, &accts), "after {} {} by {} the others hold different tokens or NEAR with strangers about", o.m, o.a, o.signer);
        }
        if sequential { f = a; f.cache = None; }
    }
    Ok(())
}
