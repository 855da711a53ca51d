//! The monitors: one module per area, one `Check` per property.
use crate::driver::Env;
use crate::gen::{self, Mix, Op, WorldSpec};
use crate::report::Res;
use crate::util::Rng;
use crate::world::*;
use std::sync::Arc;

pub mod admin;
pub mod custody;
pub mod deals;
pub mod farm;
pub mod liq;
pub mod prices;
pub mod storage;
pub mod swap;
pub mod upgrade;
pub mod indep;
pub mod views;
pub mod xfer;

pub struct Check { pub id: &'static str, pub f: fn(&mut Env, Rng, u64) -> Res, pub rule: &'static str, pub quick_secs: u64, pub min_evals: u64 }

pub const ASSUMPTIONS: [&str; 5] = [
    "contracts run as the wasm built from /repo inside an in-memory NEAR host (harness/src/vm.rs, chain.rs); gas limits and real validators are not modelled",
    "receipts between one pair of accounts keep their order, all other interleavings are possible, time never goes back",
    "token, wNEAR, oracle, farm and lending counterparties are scripted mocks whose ledgers are the ground truth",
    "a failed receipt has no effect on its contract and returns its deposit to the predecessor",
    "seeded random exploration: only the executions counted in this file were observed",
];

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(custody::checks());
    v.extend(swap::checks());
    v.extend(liq::checks());
    v.extend(deals::checks());
    v.extend(xfer::checks());
    v.extend(admin::checks());
    v.extend(prices::checks());
    v.extend(storage::checks());
    v.extend(farm::checks());
    v.extend(upgrade::checks());
    v.extend(views::checks());
    v.extend(indep::checks());
    v
}

/// What the soup hands to a monitor after each executed receipt.
pub type Mon<'a> = dyn FnMut(&mut World, &Step, &mut Env) -> Res + 'a;

pub struct SoupCfg { pub n: usize, pub flags: u32, pub mix: Mix, pub conc: u64 }

/// Random operations interleaved with random pending receipts; `mon` sees every step on any contract.
pub fn soup(env: &mut Env, w: &mut World, r: &mut Rng, cfg: &SoupCfg, mon: &mut Mon) -> Res {
    w.flags = cfg.flags | F_MONEY | F_META | F_STORAGE;
    w.cached = None;
    let conc = if cfg.conc > 0 { cfg.conc } else { *r.pick(&[0u64, 15, 40]) };
    for _ in 0..cfg.n {
        if w.ch.pending.is_empty() || r.p(if w.ch.pending.len() > 12 { 10 } else { 55 }) {
            let s = w.snap();
            if let Some(o) = gen::next_op(w, r, &s, &cfg.mix) {
                if let Some(id) = send(w, &o) {
                    if r.p(conc) { continue; }
                    let i = w.pos(id).unwrap();
                    step(env, w, i, mon)?;
                    if conc == 0 { drain(env, w, r, false, mon)?; }
                }
            }
        } else {
            let rd = w.ch.ready();
            if rd.is_empty() { continue; }
            let i = rd[r.us(rd.len())];
            step(env, w, i, mon)?;
        }
    }
    drain(env, w, r, true, mon)
}
/// A monitor that also looks at the world just before a receipt runs.
pub trait Monitor {
    fn before(&mut self, _w: &mut World, _rc: &crate::chain::Receipt) {}
    fn after(&mut self, w: &mut World, st: &Step, env: &mut Env) -> Res;
    /// a chance to add an operation or change a counterparty's behaviour
    fn extra(&mut self, _w: &mut World, _r: &mut Rng, _s: &Snap) -> Option<Op> { None }
}
pub fn soup_m(env: &mut Env, w: &mut World, r: &mut Rng, cfg: &SoupCfg, m: &mut dyn Monitor) -> Res {
    w.flags = cfg.flags | F_MONEY | F_META | F_STORAGE;
    w.cached = None;
    let conc = if cfg.conc > 0 { cfg.conc } else { *r.pick(&[0u64, 15, 40]) };
    for _ in 0..cfg.n {
        if w.ch.pending.is_empty() || r.p(if w.ch.pending.len() > 12 { 10 } else { 55 }) {
            let s = w.snap();
            let o = match m.extra(w, r, &s) { Some(o) => Some(o), None => gen::next_op(w, r, &s, &cfg.mix) };
            if let Some(o) = o {
                if let Some(id) = send(w, &o) {
                    if r.p(conc) { continue; }
                    let i = w.pos(id).unwrap();
                    step_m(env, w, i, m)?;
                    if conc == 0 { drain_m(env, w, r, false, m)?; }
                }
            }
        } else {
            let rd = w.ch.ready();
            if rd.is_empty() { continue; }
            let i = rd[r.us(rd.len())];
            step_m(env, w, i, m)?;
        }
    }
    drain_m(env, w, r, true, m)
}
fn step_m(env: &mut Env, w: &mut World, i: usize, m: &mut dyn Monitor) -> Res {
    let rc = w.ch.pending[i].clone();
    m.before(w, &rc);
    let st = w.exec(i);
    let res = m.after(w, &st, env);
    if res.is_err() { *env.story = w.story(60); }
    res
}
fn drain_m(env: &mut Env, w: &mut World, r: &mut Rng, random: bool, m: &mut dyn Monitor) -> Res {
    let mut n = 0;
    loop {
        let rd = w.ch.ready();
        if rd.is_empty() { return Ok(()); }
        let i = if random { rd[r.us(rd.len())] } else { rd[0] };
        step_m(env, w, i, m)?;
        n += 1;
        assert!(n < 20_000, "receipt storm");
    }
}
pub fn send(w: &mut World, o: &Op) -> Option<usize> {
    if !w.ch.accounts.contains_key(&o.signer) || w.ch.bal(&o.signer) < o.dep { return None; }
    Some(w.ch.send(&o.signer, &o.recv, &o.m, o.a.clone(), o.dep))
}
pub fn step(env: &mut Env, w: &mut World, i: usize, mon: &mut Mon) -> Res {
    let st = w.exec(i);
    let r = mon(w, &st, env);
    if r.is_err() { *env.story = w.story(60); }
    r
}
pub fn drain(env: &mut Env, w: &mut World, r: &mut Rng, random: bool, mon: &mut Mon) -> Res {
    let mut n = 0;
    loop {
        let rd = w.ch.ready();
        if rd.is_empty() { break; }
        let i = if random { rd[r.us(rd.len())] } else { rd[0] };
        step(env, w, i, mon)?;
        n += 1;
        assert!(n < 20_000, "receipt storm");
    }
    Ok(())
}
pub fn spec_any(r: &mut Rng) -> WorldSpec {
    WorldSpec { simple: 2 + r.us(5), stable: r.us(3), rated: r.p(40), degen: r.p(40), overprecise: r.p(10) }
}
#[allow(dead_code)]
pub fn arc(s: Snap) -> Arc<Snap> { Arc::new(s) }
