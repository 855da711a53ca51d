//! A laboratory world: one pool of a chosen kind in a random configuration and state, rich users, cheap snapshots.
use crate::gen;
use crate::math;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};

pub struct Lab { pub w: World, pub p: u64, pub kind: PK, pub t: Vec<String> }

/// a rate/price in a wide band
pub fn rate(r: &mut Rng) -> u128 {
    match r.below(6) { 0 => PREC24, 1 => PREC24 / 1000 * (1 + r.below128(1000)), 2 => PREC24 * (1 + r.below128(1000)), 3 => PREC24 + 1 + r.below128(1000), _ => PREC24 / 2 + r.below128(2 * PREC24) }
}
pub fn fee(r: &mut Rng) -> u32 { match r.below(8) { 0 | 1 => 0, 2 => 1, 3 => 30, 4 => 9999, 5 => r.range(1, 9999) as u32, _ => r.range(1, 100) as u32 } }

pub fn lab(codes: &Codes, r: &mut Rng, kind: PK) -> Lab { lab_with(codes, r, kind, false) }
/// `gentle`: realistic sizes and skews only.
pub fn lab_with(codes: &Codes, r: &mut Rng, kind: PK, gentle: bool) -> Lab {
    let admin = match r.below(4) { 0 => (0, 0), 1 => (8000, 0), _ => (r.range(1, 4000) as u32, r.range(0, 2000) as u32) };
    let mut w = World::base(codes, admin);
    w.keep_oplog = false;
    let n = if kind == PK::Simple { 2 } else { 2 + r.weighted(&[55, 30, 15]) };
    let mut t = vec![];
    for i in 0..n {
        let d = match kind { PK::Stable => *r.pick(&[2u8, 6, 6, 8, 12, 18, 18, 18, 24]), PK::Simple => *r.pick(&[0u8, 6, 18, 24]), _ => *r.pick(&[2u8, 6, 8, 18, 18, 24, 24]) };
        let d = if gentle && d == 0 { 6 } else { d };
        let id = match kind { PK::Degen => format!("dg{}.t", i), PK::Rated => format!("rt{}.t", i), _ => format!("x{}.t", i) };
        w.add_token(&id, d.max(1), true);
        t.push(id);
    }
    let mut rates = vec![PREC24; n];
    if kind == PK::Rated {
        for i in 0..n {
            if i == 1 && r.p(40) { continue; } // a plain token beside rated ones
            rates[i] = if gentle { gen::near_one(r) } else { rate(r) };
            w.set_rate(&t[i], "get_st_near_price", rates[i]);
            w.ok(OWNER, EX, "register_rated_token", json!({"rate_type":"STNEAR","token_id":t[i]}), 1);
        }
    }
    if kind == PK::Degen {
        w.setup_oracles();
        for i in 0..n {
            rates[i] = if gentle { gen::near_one(r) } else { rate(r) };
            let dec = w.dec(&t[i]);
            // price = 1e24 · mult / 10^(pd - dec)
            w.set_price(&t[i], (rates[i] / 10u128.pow(12)).max(1), dec + 12);
            w.ok(OWNER, EX, "register_degen_token", json!({"token_id":t[i],"degen_type":{"PriceOracle":{"decimals":dec}}}), 1);
        }
    }
    w.refresh_prices();
    let refs: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
    let f = fee(r);
    let p = if kind == PK::Simple { w.add_simple(&refs, f) } else { let amp = *r.pick(&[1u64, 2, 10, 100, 240, 1000, 20000, 1_000_000]); w.add_stable(kind, &refs, f, amp) };
    let base = if gentle { 1000 + r.logu(10_000_000) } else { 1 + r.logu(1_000_000_000) };
    let skew = if gentle || kind == PK::Simple { 1 } else { *r.pick(&[1u128, 1, 3, 30, 1000]) };
    for a in 0..3 {
        let am: Vec<u128> = (0..n).map(|i| {
            if kind == PK::Simple { return if gentle { w.unit(&t[i]) * (1 + r.below128(base)) } else { let b = 20 + r.below(92); 1 + r.logu(1u128 << b) }; }
            let k = 1 + r.logu(skew);
            let u = U256::from(w.unit(&t[i])) * U256::from(base) * U256::from(k) * U256::from(PREC24) / U256::from(rates[i]);
            let u = u.low_u128();
            // above the minimum reserve, whatever the rate
            (u + r.below128(w.unit(&t[i]).max(2))).max(w.unit(&t[i]))
        }).collect();
        for (i, x) in am.iter().enumerate() { w.fund(USERS[0], &t[i], *x); }
        let m = if kind == PK::Simple { "add_liquidity" } else { "add_stable_liquidity" };
        let a_ = if kind == PK::Simple { json!({"pool_id":p,"amounts":js(&am)}) } else { json!({"pool_id":p,"amounts":js(&am),"min_shares":"0"}) };
        if w.tx(USERS[0], EX, m, a_, gen_near()).is_ok() { break; }
        if a == 2 { panic!("setup: seeding"); }
    }
    let ps = w.pool(p);
    for u in [USERS[0], USERS[1], USERS[2]].iter() { for i in 0..n { let x = ps.amounts[i].saturating_mul(1 + r.below128(4)).min(1 << 118).max(1000); w.fund(u, &t[i], x); } }
    if r.p(60) {
        w.ok(OWNER, EX, "insert_referral", json!({"referral_id":REF1,"fee_bps":r.range(1, 9999)}), 1);
        if r.p(70) { w.ok(REF1, EX, "mft_register", json!({"token_id":format!(":{}", p),"account_id":REF1}), gen_near()); }
    }
    w.keep_oplog = true;
    w.flags = F_DEP | F_SHARES | F_POOLS;
    w.cached = None;
    Lab { w, p, kind, t }
}
fn gen_near() -> u128 { crate::chain::NEAR / 10 }

impl Lab {
    pub fn pool(&self) -> PoolS { self.w.pool(self.p) }
    pub fn n(&self) -> usize { self.t.len() }
    pub fn referral(&self, r: &mut Rng) -> Value { if r.p(50) { json!(REF1) } else { Value::Null } }
    /// single swap from the internal account; output as reported by the balance change
    pub fn swap(&mut self, u: &str, i: usize, j: usize, x: u128, min: u128, rf: Value) -> Step {
        let (p, a, b) = (self.p, self.t[i].clone(), self.t[j].clone());
        self.w.ex_step(u, "swap", json!({"actions":[{"pool_id":p,"token_in":a,"amount_in":x.to_string(),"token_out":b,"min_amount_out":min.to_string()}],"referral_id":rf,"skip_degen_price_sync":true}), 1)
    }
    pub fn add(&mut self, u: &str, am: &[u128], min_shares: u128) -> Step {
        let p = self.p;
        if self.kind == PK::Simple { self.w.ex_step(u, "add_liquidity", json!({"pool_id":p,"amounts":js(am)}), gen_near()) }
        else { self.w.ex_step(u, "add_stable_liquidity", json!({"pool_id":p,"amounts":js(am),"min_shares":min_shares.to_string()}), gen_near()) }
    }
    pub fn remove(&mut self, u: &str, shares: u128, mins: &[u128]) -> Step { let p = self.p; self.w.ex_step(u, "remove_liquidity", json!({"pool_id":p,"shares":shares.to_string(),"min_amounts":js(mins)}), 1) }
    pub fn remtok(&mut self, u: &str, am: &[u128], max: u128) -> Step { let p = self.p; self.w.ex_step(u, "remove_liquidity_by_tokens", json!({"pool_id":p,"amounts":js(am),"max_burn_shares":max.to_string()}), 1) }
    /// let everything but the exchange receipt's own effects settle
    pub fn settle(&mut self) { self.w.drain(); }
    pub fn amount_in(&self, r: &mut Rng, u: &str, i: usize, ps: &PoolS) -> u128 {
        let have = self.w.deposit_of(u, &self.t[i]);
        let lim = match r.below(5) { 0 => ps.amounts[i] / 1000, 1 => ps.amounts[i] / 10, 2 => ps.amounts[i], 3 => ps.amounts[i].saturating_mul(50), _ => 10_000 };
        r.amount(lim.max(2)).min(have).max(1)
    }
    /// move the pool to another state
    pub fn evolve(&mut self, r: &mut Rng) {
        let u = *r.pick(&[USERS[0], USERS[1], USERS[2]]);
        let ps = self.pool();
        let n = self.n();
        match r.below(10) {
            0 | 1 | 2 => { let i = r.us(n); let j = (i + 1 + r.us(n - 1)) % n; let x = self.amount_in(r, u, i, &ps); self.swap(u, i, j, x, 0, Value::Null); }
            3 | 4 | 5 => { let s = self.w.snap(); let am = gen::add_amounts(r, &s, u, &ps); self.add(u, &am, 0); }
            6 => { let s = self.w.share_of(self.p, u); if s > 0 { let x = r.amount(s); self.remove(u, x, &vec![0; n]); } }
            7 if self.kind != PK::Simple => { let s = self.w.share_of(self.p, u); if s > 0 { let am: Vec<u128> = ps.amounts.iter().map(|y| if r.p(40) { 0 } else { r.amount(math::muldiv(*y, s, ps.supply.max(1)).max(1)) }).collect(); self.remtok(u, &am, u128::MAX); } }
            8 if self.kind != PK::Simple => { let t = self.w.ch.ts + DAY + 100 * SEC + r.below(5) * DAY; let a = ps.amp; let na = if r.p(50) { a * (1 + r.below(9)) } else { (a / (1 + r.below(9))).max(1) }; let _ = self.w.quiet(OWNER, "stable_swap_ramp_amp", json!({"pool_id":self.p,"future_amp_factor":na,"future_amp_time":t.to_string()}), 1); self.settle(); if r.p(70) { self.w.ch.ts += r.below(6) * DAY / 3; self.freshen(r, false); } }
            _ => { self.w.ch.ts += r.below(2000) * SEC; let ch = r.p(60); self.freshen(r, ch); }
        }
        self.settle();
    }
    pub fn freshen(&mut self, r: &mut Rng, change: bool) {
        if self.kind == PK::Rated && change { for x in self.t.clone() { if self.w.v("list_rated_tokens", json!({})).get(&x).is_some() { let cur = self.pool().rates.iter().zip(self.pool().tokens.iter()).find(|(_, t)| **t == x).map(|y| *y.0).unwrap_or(PREC24); let y = math::muldiv(cur, 900 + r.below(200) as u128, 1000).max(1) + r.below128(1000); self.w.set_rate(&x, "get_st_near_price", y); } } }
        if self.kind == PK::Degen && change { for (k, x) in self.t.clone().iter().enumerate() { let cur = self.pool().rates[k]; let y = math::muldiv(cur / 10u128.pow(12), 900 + r.below(200) as u128, 1000).max(1); let d = self.w.dec(x); self.w.set_price(x, y, d + 12); } }
        if self.kind == PK::Rated || self.kind == PK::Degen { self.w.refresh_prices(); }
    }
}
