//! C33: state migration, self-upgrade and records in older formats.
use super::*;
use crate::chain::{Kind, NEAR};
use crate::farmw::*;
use crate::gen::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::convert::TryInto;
use std::sync::Mutex;

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C33", f: c33, rule: "one evaluation per comparison of everything the contract reports before and after a migration, an upgrade or a change of record format, per call by someone who may not migrate or upgrade, and per operation run on both sides; non-trivial = the state held balances, keyed by mode, contract, release or record format and state size", quick_secs: 24, min_evals: 300 }]
}
fn c33(env: &mut Env, mut r: Rng, ep: u64) -> Res {
    match ep % 12 { 0 | 1 | 2 => live(env, &mut r), 3 | 4 | 5 | 6 => twins(env, &mut r), 7 | 8 => releases(env, &mut r), 9 | 10 => farm_live(env, &mut r), _ => farm_release(env, &mut r) }
}
fn h(s: String) -> u64 { hash64(s.as_bytes()) }

/// random operations and receipts, leaving some receipts pending
fn walk(w: &mut World, r: &mut Rng, mix: &Mix, n: usize) {
    w.flags = F_ALL; w.cached = None;
    for _ in 0..n {
        if w.ch.pending.is_empty() || r.p(50) { let s = w.snap(); if let Some(o) = next_op(w, r, &s, mix) { send(w, &o); } }
        else { let rd = w.ch.ready(); if !rd.is_empty() { let i = rd[r.us(rd.len())]; w.exec_fast(i); } }
    }
}
/// the first reported thing that differs; storage: 0 not compared, 1 deposits, 2 deposits and usage
fn diff(a: &Snap, b: &Snap, usage: u8) -> Option<String> {
    macro_rules! f { ($($x:ident),*) => { $( if a.$x != b.$x { return Some(format!("{}: {:?} became {:?}", stringify!($x), a.$x, b.$x).chars().take(1500).collect()); } )* } }
    f!(dep, shares, shadow, lost, pools, vols, meta, frozen, white, refs, rated, degen, limits);
    if usage == 0 { return None; }
    let g = |s: &Snap| -> BTreeMap<String, u128> { s.storage.iter().map(|(k, v)| (k.clone(), v.0)).collect() };
    if usage > 1 && a.storage != b.storage || g(a) != g(b) { return Some(format!("storage {:?} became {:?}", a.storage, b.storage)); }
    None
}
fn size(s: &Snap) -> u64 { let n: usize = s.dep.values().map(|m| m.len()).sum::<usize>() + s.shares.iter().map(|m| m.len()).sum::<usize>() + s.pools.len() + s.shadow.len() + s.lost.len(); (n / 4) as u64 }
/// run exactly this transaction's receipts (in creation order), leaving everything else pending; Err if any of them fails
fn only(w: &mut World, id: usize) -> Result<Value, String> {
    let mut ids = vec![id];
    while let Some(i) = ids.pop() { if let Some(p) = w.pos(i) { let k = w.exec_fast(p); if let Err(e) = &w.ch.log[k].ok { return Err(e.clone()); } ids.extend(w.ch.log[k].created.iter().rev()); } }
    w.ch.outcome(id)
}
fn call(w: &mut World, who: &str, to: &str, m: &str, args: &[u8], dep: u128) -> Result<Value, String> { let id = w.ch.send_raw(who, to, m, args.to_vec(), dep); only(w, id) }

/// The four ways of asking for a migration that must work or must not.
struct Side<'a> { id: &'a str, owner: &'a str, bytes: &'a [u8], others: &'a [&'a str] }
fn refused(env: &mut Env, w: &World, r: &mut Rng, s: &Side) -> Res {
    for who in s.others {
        let dep = *r.pick(&[0u128, 0, 1]);
        for m in ["migrate", "upgrade"] {
            if m == "upgrade" && (*who == s.owner || *who == s.id) { continue; }
            if r.p(50) { continue; }
            let mut f = w.clone();
            f.keep_oplog = true;
            let before = f.ch.accounts[s.id].storage.clone();
            let n0 = f.ch.pending.len();
            let out = call(&mut f, who, s.id, m, if m == "upgrade" { s.bytes } else { b"{}" }, dep);
            let changed = f.ch.accounts[s.id].storage != before || f.ch.pending.len() != n0;
            if out.is_ok() || changed { *env.story = f.story(20); return Err(format!("{} of {} by {} (attached {}) was not refused", m, s.id, who, dep)); }
            env.rep.eval(&format!("{} by another refused", m), Some(h(format!("{}{}{}{}", s.id, who, m, dep))));
        }
    }
    Ok(())
}
fn same_code(a: &World, b: &World, id: &str) -> bool { match (&a.ch.accounts[id].kind, &b.ch.accounts[id].kind) { (Kind::Wasm(x), Kind::Wasm(y)) => Arc::ptr_eq(x, y), _ => false } }
/// (migrated copy, untouched copy at the same time); the untouched one sees the same number of refused receipts instead
fn fork(env: &mut Env, w: &World, r: &mut Rng, s: &Side) -> Result<(World, World, &'static str), String> {
    let (mut m, mut b) = (w.clone(), w.clone());
    m.keep_oplog = true; b.keep_oplog = true;
    let how = if r.p(45) { "upgrade" } else { "migrate" };
    if how == "migrate" {
        let n = 1 + r.us(2);
        for k in 0..n {
            let out = call(&mut m, s.id, s.id, "migrate", b"{}", 0);
            if let Err(e) = out { *env.story = m.story(40); return Err(format!("migration {} of {} by itself failed: {}", k + 1, s.id, e)); }
            let _ = call(&mut b, USERS[0], s.id, "migrate", b"{}", 0);
        }
    } else {
        let out = call(&mut m, s.owner, s.id, "upgrade", s.bytes, 0);
        if let Err(e) = out { *env.story = m.story(40); return Err(format!("upgrade of {} by its owner failed: {}", s.id, e)); }
        for _ in 0..2 { let _ = call(&mut b, USERS[0], s.id, "migrate", b"{}", 0); }
    }
    ensure!(same_code(&m, &b, s.id), "the code of {} is not the one deployed", s.id);
    Ok((m, b, how))
}
/// an upgrade that cannot be completed leaves code and state as they were
fn broken_upgrade(env: &mut Env, w: &World, r: &mut Rng, s: &Side, wrong: &[u8]) -> Res {
    let mut f = w.clone();
    f.keep_oplog = true;
    let bytes: Vec<u8> = match r.below(3) { 0 => vec![], 1 => b"not a contract".to_vec(), _ => wrong.to_vec() };
    let before = f.ch.accounts[s.id].storage.clone();
    let out = call(&mut f, s.owner, s.id, "upgrade", &bytes, 0);
    if out.is_ok() || !same_code(&f, w, s.id) || f.ch.accounts[s.id].storage != before {
        *env.story = f.story(20);
        return Err(format!("an upgrade of {} to {} bytes that are not a working contract: outcome {:?}, code kept {}, state kept {}", s.id, bytes.len(), out, same_code(&f, w, s.id), f.ch.accounts[s.id].storage == before));
    }
    env.rep.eval("broken upgrade undone", Some(h(format!("{}{}", s.id, bytes.len()))));
    Ok(())
}
/// the same operations and receipts on both sides
fn lockstep(env: &mut Env, a: &mut World, b: &mut World, r: &mut Rng, mix: &Mix, n: usize, usage: u8, what: &str) -> Res {
    for w in [&mut *a, &mut *b] { w.flags = F_ALL; w.cached = None; }
    let mut k = 0;
    loop {
        let rd = a.ch.ready();
        if k >= n && rd.is_empty() { return Ok(()); }
        let i = if k < n && (a.ch.pending.is_empty() || r.p(50)) {
            k += 1;
            let (sa, sb) = (a.snap(), b.snap());
            let mut r2 = r.clone();
            let (oa, ob) = (next_op(a, r, &sa, mix), next_op(b, &mut r2, &sb, mix));
            let (oa, _ob) = match (oa, ob) { (Some(x), Some(y)) => { if x.m != y.m || x.a != y.a { return Err(format!("harness: operations differ: {:?} {:?}", x, y)); } (x, y) } (None, None) => continue, (x, y) => return Err(format!("harness: operations differ: {:?} {:?}", x, y)) };
            let mut oa = oa;
            // (a record that grows while it is rewritten is paid for by whoever touches it)
            if usage < 2 && oa.recv == EX && (oa.m == "add_liquidity" || oa.m == "add_stable_liquidity" || oa.m == "mft_register" || oa.m == "shadow_action") && oa.dep > 0 { oa.dep += NEAR / 2; }
            let (ia, ib) = (send(a, &oa), send(b, &oa));
            match (ia, ib) { (Some(x), Some(_)) => a.pos(x).unwrap(), _ => continue }
        } else { if rd.is_empty() { continue; } rd[r.us(rd.len())] };
        let (ka, kb) = (a.exec_fast(i), b.exec_fast(i));
        let (ea, eb) = (a.ch.log[ka].clone(), b.ch.log[kb].clone());
        let bad = if ea.ok.is_ok() != eb.ok.is_ok() || (ea.ok.is_ok() && ea.ok != eb.ok) || ea.logs != eb.logs { Some(format!("outcome {:?} against {:?}", eb.ok, ea.ok)) } else { diff(&b.snap(), &a.snap(), usage) };
        if let Some(d) = bad { *env.story = a.story(60); return Err(format!("{}: after {}.{} the two sides differ: {}", what, ea.receiver, ea.method, d)); }
        env.rep.eval("same outcome", if ea.receiver == EX { Some(h(format!("{}{}{}", what, ea.method, ea.ok.is_ok()))) } else { None });
    }
}

fn live(env: &mut Env, r: &mut Rng) -> Res {
    let spec = spec_any(r);
    let mut w = gen::world(env.codes, r, &spec);
    let (exb, fab) = (env.codes.ex_bytes.clone(), env.codes.farm_bytes.clone());
    for _ in 0..2 {
        let n = 5 + r.us(50);
        walk(&mut w, r, &Mix::all(), n);
        let others = [OWNER, GUARD, USERS[0], USERS[1], BOOST, LIQ];
        let s = Side { id: EX, owner: OWNER, bytes: &exb, others: &others };
        refused(env, &w, r, &s)?;
        if r.p(40) { broken_upgrade(env, &w, r, &s, &fab)?; }
        let (mut m, mut b, how) = fork(env, &w, r, &s)?;
        let (sm, sb) = (m.read(F_ALL), b.read(F_ALL));
        if let Some(d) = diff(&sb, &sm, 2) { *env.story = m.story(40); return Err(format!("{} changed what the exchange reports: {}", how, d)); }
        env.rep.eval(&format!("exchange {}", how), Some(h(format!("{}{}{}", how, size(&sb), m.ch.pending.len()))));
        env.rep.sample(how, || json!({"pools": sb.pools.len(), "records": size(&sb) * 4, "pending": m.ch.pending.len()}));
        let k = 4 + r.us(12);
        lockstep(env, &mut m, &mut b, r, &Mix::all(), k, 2, how)?;
        w = m;
    }
    Ok(())
}

// ---------------------------------------------------------------- records in older formats
#[derive(Clone, Debug, Default)]
struct Clt { idx: Vec<u8>, keys: Vec<u8>, vals: Vec<u8>, len: u64 }
struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] { let x = self.0.get(self.1..self.1 + n).unwrap_or_else(|| panic!("setup: unknown account record layout")); self.1 += n; x }
    fn u32(&mut self) -> usize { u32::from_le_bytes(self.take(4).try_into().unwrap()) as usize }
    fn u64(&mut self) -> u64 { u64::from_le_bytes(self.take(8).try_into().unwrap()) }
    fn bytes(&mut self) -> Vec<u8> { let n = self.u32(); self.take(n).to_vec() }
    fn clt(&mut self) -> Clt { let idx = self.bytes(); let len = self.u64(); let keys = self.bytes(); let l2 = self.u64(); let vals = self.bytes(); assert!(l2 == len, "setup: unknown account record layout"); Clt { idx, keys, vals, len } }
}
fn put_bytes(o: &mut Vec<u8>, b: &[u8]) { o.extend((b.len() as u32).to_le_bytes()); o.extend(b); }
fn put_clt(o: &mut Vec<u8>, c: &Clt) { put_bytes(o, &c.idx); o.extend(c.len.to_le_bytes()); put_bytes(o, &c.keys); o.extend(c.len.to_le_bytes()); put_bytes(o, &c.vals); }
fn bstr(s: &str) -> Vec<u8> { let mut o = vec![]; put_bytes(&mut o, s.as_bytes()); o }
fn cat(a: &[u8], b: &[u8]) -> Vec<u8> { let mut o = a.to_vec(); o.extend(b); o }

/// Rewrite a user's account record into an older format (1, 2) or the current one with tokens still in the legacy map (3).
fn forge(w: &mut World, r: &mut Rng, u: &str, ver: u8) -> bool {
    // find the record: the only one changed by a storage deposit
    let mut t = w.clone();
    t.ch.tx(u, EX, "storage_deposit", json!({}), NEAR).unwrap_or_else(|e| panic!("setup: storage_deposit {}", e));
    let old = &w.ch.accounts[EX].storage;
    let keys: Vec<Vec<u8>> = t.ch.accounts[EX].storage.iter().filter(|(k, v)| old.get(*k) != Some(*v)).map(|x| x.0.clone()).collect();
    assert!(keys.len() == 1, "setup: account record not found");
    let rec = old[&keys[0]].clone();
    assert!(rec[0] == 2, "setup: account record has tag {}", rec[0]);
    let mut d = Rd(&rec, 1);
    let near = d.take(16).to_vec();
    let nl = d.u32();
    let mut legacy: Vec<(String, u128)> = vec![];
    for _ in 0..nl { let k = String::from_utf8(d.bytes()).unwrap(); let x = u128::from_le_bytes(d.take(16).try_into().unwrap()); legacy.push((k, x)); }
    let tokens = d.clt();
    let used = d.take(8).to_vec();
    let shadow = d.clt();
    assert!(d.1 == rec.len(), "setup: account record has {} more bytes", rec.len() - d.1);
    if shadow.len > 0 && ver < 3 { return false; }
    let at = |p: &[u8], i: u64| cat(p, &i.to_le_bytes());
    let mut list = vec![];
    for i in 0..tokens.len { let k = Rd(&old[&at(&tokens.keys, i)], 0).bytes(); let x = u128::from_le_bytes(old[&at(&tokens.vals, i)][..16].try_into().unwrap()); list.push((String::from_utf8(k).unwrap(), x)); }
    let mut recs: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
    let mut keep = vec![];
    for (k, x) in list.iter() { if ver == 1 || r.p(60) { legacy.push((k.clone(), *x)); } else { keep.push((k.clone(), *x)); } }
    for (i, (k, _)) in list.iter().enumerate() { recs.push((at(&tokens.keys, i as u64), None)); recs.push((at(&tokens.vals, i as u64), None)); recs.push((cat(&tokens.idx, &bstr(k)), None)); }
    for (i, (k, x)) in keep.iter().enumerate() { recs.push((at(&tokens.keys, i as u64), Some(bstr(k)))); recs.push((at(&tokens.vals, i as u64), Some(x.to_le_bytes().to_vec()))); recs.push((cat(&tokens.idx, &bstr(k)), Some((i as u64).to_le_bytes().to_vec()))); }
    legacy.sort();
    let mut o = vec![ver - 1];
    o.extend(&near);
    o.extend((legacy.len() as u32).to_le_bytes());
    for (k, x) in &legacy { o.extend(bstr(k)); o.extend(x.to_le_bytes()); }
    if ver > 1 { put_clt(&mut o, &Clt { len: keep.len() as u64, ..tokens }); }
    o.extend(&used);
    if ver > 2 { put_clt(&mut o, &shadow); }
    recs.push((keys[0].clone(), Some(o)));
    w.ch.poke(EX, recs);
    w.cached = None;
    true
}
fn twins(env: &mut Env, r: &mut Rng) -> Res {
    let spec = spec_any(r);
    let mut w = gen::world(env.codes, r, &spec);
    let pool: Vec<&str> = USERS.iter().chain([OWNER, LIQ].iter()).cloned().collect();
    for a in &pool { w.ok(a, EX, "storage_deposit", json!({}), 20 * NEAR); }
    // hot zaps and pledges charge accounts for the bytes a record grows by: with them only the balances are compared
    let usage = if r.p(50) { 1u8 } else { 0 };
    let mix = Mix::all().with(&[(M_STORAGE, 0)]);
    let mix = if usage == 1 { mix.with(&[(M_HOTZAP, 0), (M_SHADOW, 0), (M_LIQ, 0)]) } else { mix };
    let n = r.us(40);
    // accounts with pledges cannot be in the oldest formats
    let calm = if r.p(60) { mix.clone().with(&[(M_SHADOW, 0)]) } else { mix.clone() };
    walk(&mut w, r, &calm, n);
    w.drain();
    let mut f = w.clone();
    f.keep_oplog = true;
    let b0 = w.read(F_ALL);
    let mut kinds = String::new();
    for u in &pool {
        if r.p(20) { continue; }
        let ver = 1 + r.below(3) as u8;
        if !forge(&mut f, r, u, ver) { continue; }
        kinds.push_str(&ver.to_string());
        let b1 = f.read(F_ALL);
        if let Some(d) = diff(&b0, &b1, 1) { return Err(format!("the record of {} in format {} is not read with the balances it holds: {}", u, ver, d)); }
        env.rep.eval(&format!("record format {} read", ver), Some(h(format!("{}{}{}", ver, u, b0.dep.get(*u).map_or(0, |m| m.len())))));
    }
    let n = 10 + r.us(40);
    // settlements of failed deliveries reach records nobody has rewritten yet: tokens that fail while swaps, and the treasury, pay out
    let mix = if r.p(50) {
        for t in w.toks.clone().keys() { if r.p(50) { w.ch.mock(t).ft().fail = true; f.ch.mock(t).ft().fail = true; } }
        mix.with(&[(M_INSTANT, 40), (M_TREASURY, 6), (M_FAULT, 2), (M_WITHDRAW, 2)])
    } else { mix };
    lockstep(env, &mut f, &mut w, r, &mix, n, usage, &format!("legacy records against current ones ({})", kinds.len()))?;
    if r.p(50) {
        if let Err(e) = call(&mut f, EX, EX, "migrate", b"{}", 0) { return Err(format!("migration with legacy records failed: {}", e)); }
        let _ = call(&mut w, USERS[0], EX, "migrate", b"{}", 0);
        if let Some(d) = diff(&w.read(F_ALL), &f.read(F_ALL), usage) { return Err(format!("migration with legacy records changed: {}", d)); }
        env.rep.eval("migration with legacy records", Some(h(kinds.clone())));
    }
    // everyone takes everything out and leaves
    f.cached = None;
    for u in &pool {
        let s = f.snap();
        let mut ops: Vec<(String, Value, u128)> = vec![];
        for (t, x) in s.dep.get(*u).cloned().unwrap_or_default() {
            if x > 0 { ops.push(("withdraw".into(), json!({"token_id":t,"amount":x.to_string(),"unregister":r.p(50)}), 1)); }
            ops.push(("unregister_tokens".into(), json!({"token_ids":[t]}), 1));
        }
        ops.push(("storage_unregister".into(), json!({"force":false}), 1));
        // also too early: refused alike, or nothing is left behind
        for _ in 0..r.us(3) { let k = r.us(ops.len()); ops.insert(k, ("storage_unregister".into(), if r.p(70) { json!({"force":true}) } else { json!({}) }, 1)); }
        for (m, a, dep) in ops {
            // (storage paid for while a record was being rewritten may differ, what is paid out may not)
            let (p, q) = (f.ch.bal(u), w.ch.bal(u));
            let (x, y) = (f.tx(u, EX, &m, a.clone(), dep), w.tx(u, EX, &m, a.clone(), dep));
            let bad = if x.is_ok() != y.is_ok() { Some(format!("{:?} against {:?}", x, y)) } else if usage == 1 && f.ch.bal(u) as i128 - p as i128 != w.ch.bal(u) as i128 - q as i128 { Some(format!("NEAR moved {} against {}", f.ch.bal(u) as i128 - p as i128, w.ch.bal(u) as i128 - q as i128)) } else { diff(&w.read(F_ALL), &f.read(F_ALL), usage) };
            if let Some(d) = bad { *env.story = f.story(60); return Err(format!("{} by {} whose record was in an older format differs: {}", m, u, d)); }
            env.rep.eval("leaving", Some(h(format!("{}{}", m, x.is_ok()))));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- real older releases
static RELEASES: Mutex<BTreeMap<String, Option<Arc<Vec<u8>>>>> = Mutex::new(BTreeMap::new());
fn release(name: &str) -> Option<Arc<Vec<u8>>> {
    RELEASES.lock().unwrap().entry(name.into()).or_insert_with(|| { let dir = std::env::var("REFMON_RELEASES").unwrap_or_else(|_| "/repo/releases".into()); std::fs::read(format!("{}/{}.wasm", dir, name)).ok().map(Arc::new) }).clone()
}
/// what every release from 1.6 on reports about money, by method
fn money(w: &World, pools: u64) -> BTreeMap<String, Value> {
    let mut o = BTreeMap::new();
    let v = |m: &str, a: Value| -> Value { match w.ch.view(EX, m, a.clone()) { Ok(v) => v, Err(e) => std::panic::panic_any(ViewFail(format!("view {} {} failed: {}", m, a, e))) } };
    for p in 0..pools {
        let x = v("get_pool", json!({"pool_id":p}));
        for k in ["pool_kind", "token_account_ids", "amounts", "total_fee", "shares_total_supply", "amp"] { o.insert(format!("pool {} {}", p, k), x[k].clone()); }
    }
    for a in &w.accts {
        o.insert(format!("deposits {}", a), v("get_deposits", json!({"account_id":a})));
        o.insert(format!("storage {}", a), v("storage_balance_of", json!({"account_id":a}))["total"].clone());
        for p in 0..pools { o.insert(format!("shares {} {}", p, a), v("get_pool_shares", json!({"pool_id":p,"account_id":a}))); }
        if let Ok(x) = w.ch.view(EX, "get_shadow_records", json!({"account_id":a})) { if x.as_object().map_or(false, |m| !m.is_empty()) { o.insert(format!("shadow {}", a), x); } }
        if let Ok(x) = w.ch.view(EX, "list_lostfound_tokens", json!({"account_id":a})) { if x.as_object().map_or(false, |m| !m.is_empty()) { o.insert(format!("lost {}", a), x); } }
    }
    let mut t = strs(&v("get_whitelisted_tokens", json!({}))); t.sort();
    o.insert("whitelist".into(), json!(t));
    let m = v("metadata", json!({}));
    o.insert("owner".into(), m["owner"].clone()); o.insert("state".into(), m["state"].clone());
    let mut g = strs(&m["guardians"]); g.sort();
    o.insert("guardians".into(), json!(g));
    o
}
fn populate(w: &mut World, r: &mut Rng, n: usize) -> u64 {
    let toks: Vec<(String, u8)> = w.toks.iter().map(|x| (x.0.clone(), *x.1)).collect();
    let mut pools: Vec<(u64, usize, bool)> = vec![];
    let mut made = 0u64;
    let mut add = |w: &mut World, m: &str, a: Value, n: usize, st: bool, who: &str| { if let Ok(v) = w.tx(who, EX, m, a, NEAR) { if let Some(id) = v.as_u64().or_else(|| v.as_str().and_then(|s| s.parse().ok())) { pools.push((id, n, st)); made = made.max(id + 1); } } };
    for _ in 0..1 + r.us(3) { let i = r.us(toks.len()); let j = (i + 1 + r.us(toks.len() - 1)) % toks.len(); add(w, "add_simple_pool", json!({"tokens":[toks[i].0, toks[j].0],"fee":1 + r.below(100)}), 2, false, USERS[0]); }
    let st: Vec<&(String, u8)> = toks.iter().filter(|x| x.1 <= 18).take(3).collect();
    for _ in 0..r.us(3) { let k = 2 + r.us(st.len() - 1); let t: Vec<&str> = st.iter().take(k).map(|x| x.0.as_str()).collect(); let d: Vec<u8> = st.iter().take(k).map(|x| x.1).collect(); add(w, "add_stable_swap_pool", json!({"tokens":t,"decimals":d,"fee":5,"amp_factor":100}), k, true, OWNER); }
    for u in USERS.iter() { for (t, d) in &toks { if r.p(80) { let x = 10u128.pow(*d as u32) * (1000 + r.below128(1_000_000)); w.mint(t, u, x); let _ = w.tx(u, t, "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":""}), 1); } } }
    for _ in 0..n {
        let u = *r.pick(&USERS);
        let (p, k, stable) = pools[r.us(pools.len())];
        let dep = |w: &World, u: &str, t: &str| -> u128 { w.ch.view(EX, "get_deposit", json!({"account_id":u,"token_id":t})).map(|v| num(&v)).unwrap_or(0) };
        let ps = w.ch.view(EX, "get_pool", json!({"pool_id":p})).unwrap();
        let ts = strs(&ps["token_account_ids"]);
        let sh = w.ch.view(EX, "get_pool_shares", json!({"pool_id":p,"account_id":u})).map(|v| num(&v)).unwrap_or(0);
        let id = match r.below(10) {
            0 | 1 | 2 => { let c = 1 + r.below128(2000); let am: Vec<u128> = ts.iter().map(|t| (w.unit(t) * c).min(dep(w, u, t))).collect(); if stable { w.ch.send(u, EX, "add_stable_liquidity", json!({"pool_id":p,"amounts":js(&am),"min_shares":"1"}), NEAR / 10) } else { w.ch.send(u, EX, "add_liquidity", json!({"pool_id":p,"amounts":js(&am)}), NEAR / 10) } }
            3 | 4 | 5 => { let i = r.us(k); let j = (i + 1) % k; let have = dep(w, u, &ts[i]); let x = r.amount((have / 20).max(1)); w.ch.send(u, EX, "swap", json!({"actions":[{"pool_id":p,"token_in":ts[i],"token_out":ts[j],"amount_in":x.to_string(),"min_amount_out":"0"}],"referral_id":if r.p(30) { json!(REF1) } else { Value::Null }}), 1) }
            6 => { let x = r.amount(sh.max(1)); w.ch.send(u, EX, "remove_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":js(&vec![0; k])}), 1) }
            7 => { let t = &ts[r.us(k)]; let x = r.amount(dep(w, u, t).max(1)); if r.p(30) { w.ch.mock(t).ft().deny.insert(u.into()); } w.ch.send(u, EX, "withdraw", json!({"token_id":t,"amount":x.to_string()}), 1) }
            8 => { let v = *r.pick(&USERS); let x = r.amount(sh.max(1)); w.ch.send(u, EX, "mft_transfer", json!({"token_id":format!(":{}", p),"receiver_id":v,"amount":x.to_string()}), 1) }
            _ => { let x = r.amount(sh.max(1)); let a = *r.pick(&["ToFarming", "ToBurrowland", "FromFarming"]); w.ch.send(u, EX, "shadow_action", json!({"action":a,"pool_id":p,"amount":x.to_string(),"msg":""}), NEAR / 10) }
        };
        let _ = id;
        while let Some(&i) = w.ch.ready().first() { w.exec_fast(i); }
        for t in &ts { w.ch.mock(t).ft().deny.clear(); }
    }
    made
}
const OLD: [&str; 20] = ["_v162", "_v172", "_v180", "_v191", "_v192", "_v193", "_V194", "_v195", "_v196", "_v197", "_v198", "_v199", "_v1910", "_v1911", "_v1912", "_v1913", "_v1914", "_v1915", "_v1916", ""];
fn releases(env: &mut Env, r: &mut Rng) -> Res {
    let k = if r.p(40) { r.us(3) } else { r.us(OLD.len()) };
    let bytes = match release(&format!("ref_exchange_release{}", OLD[k])) { Some(b) => b, None => { env.rep.count("release not available"); return Ok(()); } };
    let code = crate::vm::cached(&bytes).unwrap_or_else(|| panic!("setup: release {} does not compile", OLD[k]));
    let mut w = World::base_on(code, (5, 1));
    for (t, d) in BASE_TOKENS.iter() { w.add_token(t, *d, true); }
    let n = 5 + r.us(40);
    let pools = populate(&mut w, r, n);
    if pools == 0 { return Ok(()); }
    let before = money(&w, pools);
    let owed = |w: &World| -> BTreeMap<String, i128> { w.toks.keys().map(|t| { let mut x = w.ledger(t, EX) as i128; for a in &w.accts { x -= w.ch.view(EX, "get_deposit", json!({"account_id":a,"token_id":t})).map(|v| num(&v)).unwrap_or(0) as i128; } for p in 0..pools { let v = w.ch.view(EX, "get_pool", json!({"pool_id":p})).unwrap(); for (i, y) in strs(&v["token_account_ids"]).iter().enumerate() { if y == t { x -= nums(&v["amounts"])[i] as i128; } } } (t.clone(), x) }).collect() };
    let slack = owed(&w);
    if k < 3 {
        // the root record of these releases is older than what migrate() accepts: bring it forward the way the intermediate releases did
        let old = w.ch.accounts[EX].storage[&b"STATE".to_vec()].clone();
        let o = bstr(OWNER);
        let head = cat(&cat(&o, &bstr(BOOST)), &bstr(BURROW));
        let fee = |b: &[u8]| -> Vec<u8> { b[..4].to_vec() };
        // sets carry their length; what follows them in the newest record starts empty there
        let root = match k {
            2 => cat(&old, &[0u8; 5]),
            _ => {
                let skip = if k == 0 { 8 } else { 4 };
                let mut x = head.clone();
                x.extend(if k == 0 { 5u32.to_le_bytes().to_vec() } else { fee(&old[o.len()..]) });
                x.extend(&old[o.len() + skip..]);
                let empty = |x: &mut Vec<u8>, p: u8| { for (i, c) in [b'i', b'k', b'v'].iter().enumerate() { put_bytes(x, &[p, *c]); if i == 0 || i == 1 { x.extend(0u64.to_le_bytes()); } } };
                if k == 0 { empty(&mut x, 7); }
                x.extend(720u32.to_le_bytes());
                empty(&mut x, 9);
                x.extend([0u8, 0, 0, 0, 0]);
                x
            }
        };
        w.ch.poke(EX, vec![(b"STATE".to_vec(), Some(root))]);
    }
    let new = env.codes.ex_bytes.clone();
    w.keep_oplog = true;
    // through the release's own upgrade method where its root record is current, otherwise by deploying and migrating
    let how = if k >= 3 && r.p(60) { "upgrade" } else { "migrate" };
    let out = if how == "upgrade" { call(&mut w, OWNER, EX, "upgrade", &new, 0) } else { w.ch.set_code(EX, &new); call(&mut w, EX, EX, "migrate", b"{}", 0) };
    if let Err(e) = out { *env.story = w.story(30); return Err(format!("{} of release {} to the current code failed: {}", how, OLD[k], e)); }
    let after = money(&w, pools);
    for (x, v) in &before { if after.get(x) != Some(v) { *env.story = w.story(30); return Err(format!("{} from release {} changed {}: {} became {:?}", how, OLD[k], x, v, after.get(x))); } }
    env.rep.eval(&format!("release{} {}", OLD[k], how), Some(h(format!("{}{}{}", OLD[k], pools, n / 8))));
    env.rep.sample("release", || json!({"release":OLD[k],"how":how,"pools":pools,"reports":before.len()}));
    if r.p(40) { if let Err(e) = call(&mut w, EX, EX, "migrate", b"{}", 0) { return Err(format!("second migration failed: {}", e)); } let a2 = money(&w, pools); if a2 != after { return Err("a second migration changed what the exchange reports".into()); } env.rep.eval("second migration", None); }
    if let Some(x) = r.p(50).then(|| call(&mut w, OWNER, EX, "modify_wnear_id", json!({"wnear_id":WNEAR}).to_string().as_bytes(), 1)) { x.map_err(|e| format!("the owner cannot administer the upgraded exchange: {}", e))?; }
    // life goes on: nothing appears or disappears
    let ops = r.us(30);
    walk(&mut w, r, &Mix::all().with(&[(M_TREASURY, 0), (M_DIRECT, 0), (M_MFTCALL, 0), (M_INSTANT, 0), (M_HOTZAP, 0), (M_FAULT, 0)]), ops);
    w.drain();
    let s = w.read(F_ALL);
    if s.lost.is_empty() {
        for (t, x) in owed(&w) { if x < slack[&t] { *env.story = w.story(60); return Err(format!("token {}: the exchange covered its debts with {} to spare before and {} after operations on the upgraded state", t, slack[&t], x)); } env.rep.eval("custody on the upgraded state", None); }
    }
    // everybody can take out what he held
    if s.meta["state"] != json!("Running") { return Ok(()); }
    w.cached = None;
    for u in USERS.iter() {
        let s = w.snap();
        for p in 0..s.pools.len() {
            let x = s.free(u, p);
            if x == 0 || s.pools[p].supply.saturating_sub(x) == 0 || s.pools[p].kind != PK::Simple { continue; }
            let z = vec![0u128; s.pools[p].tokens.len()];
            let out = w.tx(u, EX, "remove_liquidity", json!({"pool_id":p,"shares":x.to_string(),"min_amounts":js(&z)}), 1);
            if let Err(e) = out { if !s.pools[p].tokens.iter().any(|t| s.frozen.contains(t)) { *env.story = w.story(60); return Err(format!("{} cannot remove {} shares of pool {} after the upgrade: {}", u, x, p, e)); } }
        }
        let s = w.snap();
        for (t, x) in s.dep.get(*u).cloned().unwrap_or_default() {
            if x == 0 || s.frozen.contains(&t) { continue; }
            let b = w.ledger(&t, u);
            let out = w.tx(u, EX, "withdraw", json!({"token_id":t,"amount":x.to_string()}), 1);
            if w.ledger(&t, u) != b + x { *env.story = w.story(60); return Err(format!("{} got {} instead of {} {} after the upgrade ({:?})", u, w.ledger(&t, u) - b, x, t, out)); }
            env.rep.eval("withdrawn after the upgrade", Some(h(format!("{}{}", OLD[k], t))));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- farming
fn fdiff(a: &FSnap, b: &FSnap) -> Option<String> {
    macro_rules! f { ($($x:ident),*) => { $( if a.$x != b.$x { return Some(format!("{}: {:?} became {:?}", stringify!($x), a.$x, b.$x).chars().take(1500).collect()); } )* } }
    f!(meta, seeds, farms, old, rinfo, users);
    None
}
fn fwalk(f: &mut FW, r: &mut Rng, n: usize) {
    for _ in 0..n {
        if f.w.ch.pending.is_empty() || r.p(50) { if let Some(o) = fop(f, r, &FMix::default()) { send(&mut f.w, &o); } }
        else { let rd = f.w.ch.ready(); if !rd.is_empty() { let i = rd[r.us(rd.len())]; f.w.exec_fast(i); } }
    }
}
fn flock(env: &mut Env, a: &mut FW, b: &mut FW, r: &mut Rng, n: usize, what: &str) -> Res {
    let mut k = 0;
    a.cache = None; b.cache = None;
    loop {
        let rd = a.w.ch.ready();
        if k >= n && rd.is_empty() { return Ok(()); }
        let i = if k < n && (a.w.ch.pending.is_empty() || r.p(50)) {
            k += 1;
            let mut r2 = r.clone();
            let (oa, _) = (fop(a, r, &FMix::default()), fop(b, &mut r2, &FMix::default()));
            let oa = match oa { Some(o) => o, None => continue };
            match (send(&mut a.w, &oa), send(&mut b.w, &oa)) { (Some(x), Some(_)) => a.w.pos(x).unwrap(), _ => continue }
        } else { if rd.is_empty() { continue; } rd[r.us(rd.len())] };
        let (ka, kb) = (a.w.exec_fast(i), b.w.exec_fast(i));
        let (ea, eb) = (a.w.ch.log[ka].clone(), b.w.ch.log[kb].clone());
        let t = a.w.ch.ts;
        let bad = if ea.ok.is_ok() != eb.ok.is_ok() || (ea.ok.is_ok() && ea.ok != eb.ok) { Some(format!("outcome {:?} against {:?}", eb.ok, ea.ok)) } else if ea.receiver == FARM { let (sa, sb) = (a.snap_at(t), b.snap_at(t)); fdiff(&sb, &sa) } else { None };
        if let Some(d) = bad { *env.story = a.w.story(60); return Err(format!("{}: after {}.{} the two sides differ: {}", what, ea.receiver, ea.method, d)); }
        env.rep.eval("same outcome (farm)", if ea.receiver == FARM { Some(h(format!("{}{}{}", what, ea.method, ea.ok.is_ok()))) } else { None });
    }
}
fn farm_live(env: &mut Env, r: &mut Rng) -> Res {
    let mut f = fworld(env.codes, r, true);
    let (exb, fab) = (env.codes.ex_bytes.clone(), env.codes.farm_bytes.clone());
    for _ in 0..2 {
        let n = 10 + r.us(60);
        fwalk(&mut f, r, n);
        let others = [FOWN, OWNER, USERS[0], USERS[1]];
        let s = Side { id: FARM, owner: FOWN, bytes: &fab, others: &others };
        refused(env, &f.w, r, &s)?;
        if r.p(40) { broken_upgrade(env, &f.w, r, &s, &exb)?; }
        let mut start = f.w.clone();
        let root = start.ch.accounts[FARM].storage[&b"STATE".to_vec()].clone();
        let mut old = false;
        if r.p(50) && root.first() == Some(&1) && root.last() == Some(&0) {
            // the root record of 1.0.4: no running state at the end
            let mut x = root[..root.len() - 1].to_vec();
            x[0] = 0;
            start.ch.poke(FARM, vec![(b"STATE".to_vec(), Some(x))]);
            old = true;
        }
        let (m, b, how) = if old {
            let (mut m, mut b) = (start, f.w.clone());
            m.keep_oplog = true;
            if let Err(e) = call(&mut m, FARM, FARM, "migrate", b"{}", 0) { *env.story = m.story(30); return Err(format!("migration of the farm from 1.0.4 failed: {}", e)); }
            let _ = call(&mut b, USERS[0], FARM, "migrate", b"{}", 0);
            (m, b, "migrate from 1.0.4")
        } else { fork(env, &f.w, r, &s)? };
        let (mut fm, mut fb) = (f.clone(), f.clone());
        fm.w = m; fb.w = b; fm.cache = None; fb.cache = None;
        let (sm, sb) = (fm.snap(), fb.snap());
        if let Some(d) = fdiff(&sb, &sm) { *env.story = fm.w.story(40); return Err(format!("{} changed what the farm reports: {}", how, d)); }
        env.rep.eval(&format!("farm {}", how), Some(h(format!("{}{}{}{}", how, sb.users.len(), sb.farms.len(), sb.old.len()))));
        let k = 6 + r.us(20);
        flock(env, &mut fm, &mut fb, r, k, how)?;
        f = fm;
    }
    Ok(())
}
fn farm_release(env: &mut Env, r: &mut Rng) -> Res {
    let bytes = match release("ref_farming_release") { Some(b) => b, None => { env.rep.count("release not available"); return Ok(()); } };
    let mut codes = env.codes.clone();
    codes.farm = crate::vm::cached(&bytes).unwrap_or_else(|| panic!("setup: farming release does not compile"));
    let mut f = fworld(&codes, r, true);
    let n = 10 + r.us(80);
    fwalk(&mut f, r, n);
    while let Some(&i) = f.w.ch.ready().first() { f.w.exec_fast(i); }
    let new = env.codes.farm_bytes.clone();
    f.w.keep_oplog = true;
    let t = f.w.ch.ts + 2 * f.w.ch.dt;
    f.cache = None;
    let a = f.snap_at(t);
    let owner = a.owner();
    let out = if r.p(60) { call(&mut f.w, &owner, FARM, "upgrade", &new, 0) } else { f.w.ch.set_code(FARM, &new); call(&mut f.w, FARM, FARM, "migrate", b"{}", 0) };
    if let Err(e) = out { *env.story = f.w.story(30); return Err(format!("upgrade of the released farm failed: {}", e)); }
    f.cache = None;
    let b = f.snap_at(t);
    let (mut a2, mut b2) = ((*a).clone(), (*b).clone());
    a2.meta["version"] = Value::Null; b2.meta["version"] = Value::Null;
    if let Some(d) = fdiff(&a2, &b2) { *env.story = f.w.story(40); return Err(format!("upgrading the released farm changed: {}", d)); }
    env.rep.eval("farming release", Some(h(format!("{}{}{}", a.users.len(), a.farms.len(), a.old.len()))));
    // everybody can take out stakes and credited rewards
    heal(&mut f);
    if !b.running() { let _ = f.w.tx(&owner, FARM, "resume_contract", json!({}), 1); }
    for (u, x) in b.users.iter() {
        for (s, k) in x.seeds.iter() {
            let hold = |f: &FW| -> u128 { match s.strip_prefix(&format!("{}@", EX)) { Some(p) => f.w.share_of(p.parse().unwrap(), u), None => f.w.ledger(s, u) } };
            let h0 = hold(&f);
            let out = f.w.tx(u, FARM, "withdraw_seed", json!({"seed_id":s,"amount":k.to_string()}), 1);
            if hold(&f) != h0 + k { *env.story = f.w.story(40); return Err(format!("{} cannot take out the stake of {} {} after the upgrade: {:?}", u, k, s, out)); }
            env.rep.eval("unstaked after the upgrade", Some(h(s.clone())));
        }
        for (t, k) in x.rewards.iter() {
            if *k == 0 { continue; }
            let h0 = f.w.ledger(t, u);
            let have = num(&f.w.ch.view(FARM, "list_rewards", json!({"account_id":u})).unwrap()[t]);
            let out = f.w.tx(u, FARM, "withdraw_reward", json!({"token_id":t}), 1);
            if have < *k || f.w.ledger(t, u) != h0 + have { *env.story = f.w.story(40); return Err(format!("{} cannot take out the reward of {} {} after the upgrade: {:?}", u, k, t, out)); }
            env.rep.eval("reward withdrawn after the upgrade", Some(h(t.clone())));
        }
    }
    Ok(())
}
