//! C05, C09 liquidity pricing; C24 protocol and referral fees; C26 degen value limits.
use std::collections::BTreeMap;
use super::swap::*;
use super::*;
use crate::lab::{self, Lab};
use crate::math;
use crate::util::*;
use serde_json::{json, Value};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C05", f: c05, rule: "one evaluation per executed liquidity operation or swap on a simple pool, against exact integer arithmetic (minted/burnt shares, amounts taken and paid, reserves per share), and per complete enter-trade-leave sequence of one account; non-trivial = the operation succeeded, keyed by operation and magnitudes", quick_secs: 16, min_evals: 5_000 },
        Check { id: "C09", f: c09, rule: "one evaluation per executed add, proportional removal or removal by tokens in a stable, rated or degen pool: value per share, shares minted or burnt against an exact high-precision computation with the imbalance fee, amounts paid; plus complete sequences of one account; non-trivial = the operation succeeded, keyed by pool kind, token count, amp, fee and magnitudes", quick_secs: 22, min_evals: 3_000 },
        Check { id: "C24", f: c24, rule: "one evaluation per executed swap or liquidity change on any pool kind: shares gained by exchange and referrer against the configured part of the fee (exact high-precision value), split between the two, and per attempted fee setting: accepted only within bounds; non-trivial = the operation succeeded, keyed by pool kind, operation, settings and magnitudes", quick_secs: 22, min_evals: 3_000 },
        Check { id: "C26", f: c26, rule: "one evaluation per liquidity addition (direct or hot-zap) to a value-limited degen pool: outcome compared with the same call executed in a copy of the world without the limit, the pool value computed independently; non-trivial = the unlimited call succeeds, keyed by entry point, outcome and distance to the limit", quick_secs: 18, min_evals: 1_500 },
    ]
}
fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }
fn isqrt(x: U512) -> U512 { if x.is_zero() { return x; } let mut r = U512::one() << ((x.bits() + 1) / 2); loop { let y = (r + x / r) >> 1; if y >= r { return r; } r = y; } }
fn big(x: u128) -> U512 { U512::from(x) }
fn vdel(a: &Snap, b: &Snap, u: &str, t: &[String]) -> Vec<i128> { t.iter().map(|x| b.deposit(u, x) as i128 - a.deposit(u, x) as i128).collect() }

// ------------------------------------------------------------------ simple pools
fn c05(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut l = lab::lab(env.codes, &mut r, PK::Simple);
    let res = c05_run(env, &mut l, &mut r);
    if res.is_err() { *env.story = l.w.story(40); }
    res
}
fn per_share_ok(pre: &PoolS, post: &PoolS, d: &str) -> Res {
    if pre.supply == 0 || post.supply == 0 { return Ok(()); }
    for i in 0..pre.amounts.len() { ensure!(big(post.amounts[i]) * big(pre.supply) >= big(pre.amounts[i]) * big(post.supply), "reserve {} per share fell from {}/{} to {}/{} through {}", i, pre.amounts[i], pre.supply, post.amounts[i], post.supply, d); }
    Ok(())
}
fn simple_add_ok(st: &Step, p: usize, u: &str, t: &[String], am: &[u128]) -> Res {
    let (pre, post) = (&st.pre.pools[p], &st.post.pools[p]);
    let d = vdel(&st.pre, &st.post, u, t);
    let mint = st.post.share(p, u) - st.pre.share(p, u);
    ensure!(post.supply - pre.supply == mint, "supply rose by {} but the provider got {}", post.supply - pre.supply, mint);
    for i in 0..2 {
        ensure!(d[i] <= 0 && (-d[i]) as u128 <= am[i], "provider offered {:?} and paid {:?}", am, d);
        let took = (-d[i]) as u128;
        ensure!(post.amounts[i] - pre.amounts[i] == took, "reserve rose by {} for a payment of {}", post.amounts[i] - pre.amounts[i], took);
        ensure!(took > 0, "shares {} minted without taking token {}", mint, i);
        if pre.supply > 0 {
            // minted/supply <= taken/reserve, and the amount taken is the smallest integers can do (one unit of slack)
            ensure!(big(took) * big(pre.supply) >= big(mint) * big(pre.amounts[i]), "minted {} of {} shares for {} on a reserve of {}", mint, pre.supply, took, pre.amounts[i]);
            ensure!(big(took.saturating_sub(1)) * big(pre.supply) <= big(mint) * big(pre.amounts[i]), "took {} of token {} for {} shares although less was due", took, i, mint);
        }
    }
    if pre.supply > 0 {
        ensure!(mint > 0, "liquidity taken for no shares");
        // as many shares as the offer allows (one unit of each token may stay for rounding)
        let fair = (0..2).map(|i| big(am[i] - 1) * big(pre.supply) / big(pre.amounts[i].max(1))).min().unwrap();
        ensure!(big(mint) + U512::one() >= fair, "only {} shares for an offer worth {}", mint, fair);
        per_share_ok(pre, post, "add_liquidity")?;
    }
    Ok(())
}
fn simple_remove_ok(st: &Step, p: usize, u: &str, t: &[String], sh: u128) -> Res {
    let (pre, post) = (&st.pre.pools[p], &st.post.pools[p]);
    let d = vdel(&st.pre, &st.post, u, t);
    let burnt = st.pre.share(p, u) - st.post.share(p, u);
    ensure!(burnt == sh && pre.supply - post.supply == sh, "asked to burn {}: owner lost {}, supply fell by {}", sh, burnt, pre.supply - post.supply);
    for i in 0..2 {
        ensure!(d[i] >= 0, "removal charged tokens");
        let got = d[i] as u128;
        ensure!(pre.amounts[i] - post.amounts[i] == got, "reserve fell by {} for a payout of {}", pre.amounts[i] - post.amounts[i], got);
        let due = big(pre.amounts[i]) * big(sh) / big(pre.supply);
        ensure!(big(got) <= due, "paid {} of token {} where the pro-rata part of {} for {}/{} shares is {}", got, i, pre.amounts[i], sh, pre.supply, due);
        ensure!(big(got) + U512::one() >= due, "paid only {} of token {} where {} was due", got, i, due);
    }
    per_share_ok(pre, post, "remove_liquidity")
}
fn swap_per_share_ok(pre: &PoolS, post: &PoolS) -> Res {
    let (k0, k1) = (isqrt(big(pre.amounts[0]) * big(pre.amounts[1])), isqrt(big(post.amounts[0]) * big(post.amounts[1])));
    // (root of the product) per share, protocol shares included
    ensure!(k1 * big(pre.supply) >= k0 * big(post.supply), "swap diluted the providers: sqrt(k)/supply from {}/{} to {}/{}", k0, pre.supply, k1, post.supply);
    Ok(())
}
fn c05_run(env: &mut Env, l: &mut Lab, r: &mut Rng) -> Res {
    let p = l.p as usize;
    let t = l.t.clone();
    for _ in 0..30 {
        let u = *r.pick(&[USERS[0], USERS[1], USERS[2]]);
        let s = l.w.snap();
        let ps = s.pools[p].clone();
        match r.below(10) {
            0..=3 => {
                let am = if ps.supply == 0 || r.p(15) { (0..2).map(|i| r.amount(l.w.deposit_of(u, &t[i]).max(1))).collect() } else { gen::add_amounts(r, &s, u, &ps) };
                let st = l.add(u, &am, 0);
                if st.ev.ok.is_ok() { simple_add_ok(&st, p, u, &t, &am)?; env.rep.eval("add", Some(hash64(format!("a{} {} {} {} {}", lg(ps.amounts[0]), lg(ps.amounts[1]), lg(ps.supply), lg(am[0]), lg(am[1])).as_bytes()))); env.rep.sample("add", || json!({"pool":js(&ps.amounts),"supply":ps.supply.to_string(),"offer":js(&am),"minted":(st.post.share(p,u)-st.pre.share(p,u)).to_string()})); }
                else { ensure!(st.pre.pools[p] == st.post.pools[p], "failed add changed the pool"); }
            }
            4 | 5 => {
                let have = s.share(p, u); if have == 0 { continue; }
                let x = if r.p(10) { have } else { r.amount(have) };
                let st = l.remove(u, x, &[0, 0]);
                if st.ev.ok.is_ok() { simple_remove_ok(&st, p, u, &t, x)?; env.rep.eval("remove", Some(hash64(format!("r{} {} {} {}", lg(ps.amounts[0]), lg(ps.amounts[1]), lg(ps.supply), lg(x)).as_bytes()))); }
                else { ensure!(x == 0 || x > have, "removing {} of {} shares was refused: {:?}", x, have, st.ev.ok); }
            }
            6 | 7 => {
                if ps.supply == 0 { continue; }
                let i = r.us(2); let x = l.amount_in(r, u, i, &ps); let rf = l.referral(r);
                let st = l.swap(u, i, 1 - i, x, 0, rf);
                if st.ev.ok.is_ok() { swap_per_share_ok(&st.pre.pools[p], &st.post.pools[p])?; env.rep.eval("swap", Some(hash64(format!("s{} {} {}", lg(ps.amounts[0]), lg(ps.amounts[1]), lg(x)).as_bytes()))); }
            }
            8 => { l.evolve(r); }
            _ => {
                // one account enters, trades and leaves with nobody else acting
                let v = USERS[3];
                for (i, x) in t.iter().enumerate() { let k = ps.amounts[i].max(1000).min(1 << 100); let y = r.amount(k); l.w.quiet_fund(v, x, y); }
                let s0 = l.w.snap();
                let d0: Vec<u128> = t.iter().map(|x| s0.deposit(v, x)).collect();
                if s0.share(p, v) > 0 { continue; }
                let mut done = 0;
                for _ in 0..1 + r.us(5) {
                    let s = l.w.snap(); let ps = s.pools[p].clone();
                    let st = match r.below(4) {
                        0 | 1 => { let am = gen::add_amounts(r, &s, v, &ps); l.add(v, &am, 0) }
                        2 => { if ps.supply == 0 { continue; } let i = r.us(2); let x = r.amount(s.deposit(v, &t[i]).max(1)); l.swap(v, i, 1 - i, x, 0, Value::Null) }
                        _ => { let h = s.share(p, v); if h == 0 { continue; } let x = r.amount(h); l.remove(v, x, &[0, 0]) }
                    };
                    if st.ev.ok.is_ok() { done += 1; }
                    l.settle();
                }
                let s = l.w.snap();
                let h = s.share(p, v);
                if s.pools[p].supply == 0 || (h == s.pools[p].supply) { if h > 0 { let _ = l.remove(v, h, &[0, 0]); } continue; }
                if h > 0 { let st = l.remove(v, h, &[0, 0]); ensure!(st.ev.ok.is_ok(), "leaving with {} shares failed: {:?}", h, st.ev.ok); }
                let s1 = l.w.snap();
                let d1: Vec<u128> = t.iter().map(|x| s1.deposit(v, x)).collect();
                // an empty pool has no previous owners to lose to
                if s0.pools[p].supply > 0 { ensure!(!(d1[0] >= d0[0] && d1[1] >= d0[1] && d1 != d0), "an account alone in the pool turned {:?} into {:?}", d0, d1); }
                if done > 0 { env.rep.eval("sequence", Some(hash64(format!("q{} {} {}", done, lg(ps.amounts[0]), lg(d0[0])).as_bytes()))); }
            }
        }
        l.settle();
    }
    Ok(())
}

// ------------------------------------------------------------------ stable-type pools
pub struct Rng2 { pub lo: U1024, pub hi: U1024 }
pub struct LpRange { pub user: Rng2, pub total: Rng2, pub d0: Curve, pub d1: Curve }
fn sat(a: U1024, b: U1024) -> U1024 { if a > b { a - b } else { U1024::zero() } }
/// what an imbalanced change from c0 to c1 is worth in shares: with the imbalance fee (user) and without (total)
pub fn lp_range(pre: &PoolS, c1: &[u128], amp: u64, add: bool) -> LpRange {
    let n = pre.c.len();
    let ann = math::ann(amp, n);
    let exact = pre.kind == PK::Stable;
    let one = U1024::one() << math::FB;
    let x0 = math::scaled(&pre.c, &pre.rates);
    let x1 = math::scaled(c1, &pre.rates);
    let (k0, k1) = (curve_of(&x0, ann, exact), curve_of(&x1, ann, exact));
    let adj = U1024::from((pre.fee as u64 * n as u64) / (4 * (n as u64 - 1)));
    let fd = U1024::from(10_000u64);
    let (mut lo, mut hi) = (vec![], vec![]);
    for i in 0..n {
        let ideal = |d1: U1024, d0: U1024| if d0.is_zero() { x0[i] } else { x0[i] * d1 / d0 };
        let (a, b) = (ideal(k1.dlo, k0.dhi), ideal(k1.dhi, sat(k0.dlo, U1024::zero()).max(U1024::one())));
        let diff = |y: U1024| if y > x1[i] { y - x1[i] } else { x1[i] - y };
        let (fa, fb) = (diff(a), diff(b));
        let (mut fl, fh) = if fa < fb { (fa, fb) } else { (fb, fa) };
        if a <= x1[i] && x1[i] <= b { fl = U1024::zero(); }
        // fee and ideal balance are rounded in unscaled comparable units
        let slack = one * w(4 + 4 * (pre.rates.get(i).copied().unwrap_or(PREC24) / PREC24));
        let (fl, fh) = (sat(sat(fl, slack) * adj / fd, slack), (fh + slack) * adj / fd + slack);
        lo.push(sat(x1[i], fh).max(U1024::one())); hi.push(sat(x1[i], fl).max(U1024::one()));
    }
    let (l2, h2) = (curve_of(&lo, ann, exact).dlo, curve_of(&hi, ann, exact).dhi);
    let s = w(pre.supply);
    let (two, onex) = (w(2), U1024::one());
    let up = |x: U1024, y: U1024| s * sat(x, y) / k0.dlo.max(U1024::one()) + two;
    let dn = |x: U1024, y: U1024| sat(s * sat(x, y) / k0.dhi.max(U1024::one()), onex);
    let (user, total) = if add { (Rng2 { lo: dn(l2, k0.dhi), hi: up(h2, k0.dlo) }, Rng2 { lo: dn(k1.dlo, k0.dhi), hi: up(k1.dhi, k0.dlo) }) }
        else { (Rng2 { lo: dn(k0.dlo, h2), hi: up(k0.dhi, l2) }, Rng2 { lo: dn(k0.dlo, k1.dhi), hi: up(k0.dhi, k1.dlo) }) };
    LpRange { user, total, d0: k0, d1: k1 }
}
fn value_per_share_ok(pre: &PoolS, post: &PoolS, amp: u64, what: &str) -> Res {
    if pre.supply == 0 || post.supply == 0 { return Ok(()); }
    let ann = math::ann(amp, pre.c.len());
    let exact = pre.kind == PK::Stable;
    let k0 = curve_of(&math::scaled(&pre.c, &pre.rates), ann, exact);
    let k1 = curve_of(&math::scaled(&post.c, &pre.rates), ann, exact);
    ensure!(k1.dhi * w(pre.supply) + k0.dhi * w(4) >= k0.dlo * w(post.supply), "value per share fell from {}/{} to {}/{} through {}", k0.d >> math::FB, pre.supply, k1.d >> math::FB, post.supply, what);
    Ok(())
}
/// comparable-unit change booked for a token amount
fn booked(p: &PoolS, i: usize, x: u128, up: bool) -> u128 { let (f, d) = c_factor(p.kind, p.dec[i]); if d == 1 { x.saturating_mul(f) } else if up { x / d + (x % d != 0) as u128 } else { x / d } }
fn pdesc(p: &PoolS) -> String { format!("{:?} pool c={:?} rates={:?} dec={:?} amp={} fee={} supply={}", p.kind, p.c, p.rates, p.dec, p.amp, p.fee, p.supply) }

fn c09(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let kind = *r.pick(&[PK::Stable, PK::Rated, PK::Degen]);
    let gentle = r.p(50);
    let mut l = lab::lab_with(env.codes, &mut r, kind, gentle);
    let res = c09_run(env, &mut l, &mut r, gentle);
    if res.is_err() { *env.story = l.w.story(40); }
    res
}
fn add_ok(st: &Step, p: usize, u: &str, t: &[String], am: &[u128]) -> Res {
    let (pre, post) = (&st.pre.pools[p], &st.post.pools[p]);
    let n = t.len();
    let d = vdel(&st.pre, &st.post, u, t);
    let mint = st.post.share(p, u) - st.pre.share(p, u);
    for i in 0..n {
        ensure!(d[i] == -(am[i] as i128), "add of {:?} charged {:?}", am, d);
        ensure!(post.c[i] == pre.c[i] + booked(pre, i, am[i], false), "reserve {} went from {} to {} for {}", i, pre.c[i], post.c[i], am[i]);
    }
    if pre.supply == 0 {
        let k = curve_of(&math::scaled(&post.c, &post.rates), math::ann(post.amp, n), pre.kind == PK::Stable);
        ensure!(am.iter().all(|x| *x > 0), "first liquidity without every token");
        ensure!(w(mint) << math::FB <= k.dhi && (w(mint) << math::FB) + (w(1) << math::FB) >= k.dlo, "first provider got {} shares for an invariant of {}", mint, k.d >> math::FB);
        return Ok(());
    }
    let lp = lp_range(pre, &post.c, post.amp, true);
    ensure!(w(mint) <= lp.user.hi, "add {:?} minted {} shares, the curve less the imbalance fee gives at most {}: {}", am, mint, lp.user.hi, pdesc(pre));
    ensure!(w(mint) >= lp.user.lo, "add {:?} minted only {} shares, the curve less the imbalance fee gives at least {}: {}", am, mint, lp.user.lo, pdesc(pre));
    value_per_share_ok(pre, post, post.amp, &format!("adding {:?} to {}", am, pdesc(pre)))
}
fn remshares_ok(st: &Step, p: usize, u: &str, t: &[String], sh: u128) -> Res {
    let (pre, post) = (&st.pre.pools[p], &st.post.pools[p]);
    let d = vdel(&st.pre, &st.post, u, t);
    ensure!(st.pre.share(p, u) - st.post.share(p, u) == sh && pre.supply - post.supply == sh, "burnt {} shares instead of {}", st.pre.share(p, u) - st.post.share(p, u), sh);
    for i in 0..t.len() {
        let (f, dv) = c_factor(pre.kind, pre.dec[i]);
        let due_c = w(pre.c[i]) * w(sh) / w(pre.supply);
        let due = due_c * w(dv) / w(f);
        ensure!(d[i] >= 0 && w(d[i] as u128) <= due, "removing {}/{} shares paid {} of token {}, the pro-rata part is {}: {}", sh, pre.supply, d[i], i, due, pdesc(pre));
        ensure!(w(d[i] as u128) + w(1 + dv) >= due, "removing {}/{} shares paid only {} of token {}, {} was due", sh, pre.supply, d[i], i, due);
        let paid_c = pre.c[i] - post.c[i];
        ensure!(w(paid_c) <= due_c && w(paid_c) + w(1) >= due_c, "reserve {} fell by {}, pro rata is {}", i, paid_c, due_c);
    }
    value_per_share_ok(pre, post, post.amp, &format!("removing {} shares from {}", sh, pdesc(pre)))
}
fn remtok_ok(st: &Step, p: usize, u: &str, t: &[String], am: &[u128]) -> Res {
    let (pre, post) = (&st.pre.pools[p], &st.post.pools[p]);
    let d = vdel(&st.pre, &st.post, u, t);
    for i in 0..t.len() {
        ensure!(d[i] == am[i] as i128, "removal of {:?} paid {:?}", am, d);
        ensure!(post.c[i] == pre.c[i] - booked(pre, i, am[i], true), "reserve {} went from {} to {} for {}", i, pre.c[i], post.c[i], am[i]);
    }
    let burnt = st.pre.share(p, u) - st.post.share(p, u);
    let lp = lp_range(pre, &post.c, post.amp, false);
    ensure!(w(burnt) <= lp.user.hi, "removing {:?} burnt {} shares, the curve plus the imbalance fee asks at most {}: {}", am, burnt, lp.user.hi, pdesc(pre));
    ensure!(w(burnt) >= lp.user.lo, "removing {:?} burnt only {} shares, the curve plus the imbalance fee asks at least {}: {}", am, burnt, lp.user.lo, pdesc(pre));
    value_per_share_ok(pre, post, post.amp, &format!("removing {:?} from {}", am, pdesc(pre)))
}
pub fn remtok_amounts(r: &mut Rng, ps: &PoolS, s: u128) -> Vec<u128> {
    let single = r.p(30); let k = r.us(ps.tokens.len());
    ps.amounts.iter().enumerate().map(|(i, y)| if (single && i != k) || r.p(25) { 0 } else { r.amount(math::muldiv(*y, s, ps.supply.max(1)).max(1)) }).collect()
}
fn c09_run(env: &mut Env, l: &mut Lab, r: &mut Rng, gentle: bool) -> Res {
    let p = l.p as usize;
    let t = l.t.clone();
    let n = t.len();
    let kind = l.kind;
    for _ in 0..22 {
        let u = *r.pick(&[USERS[0], USERS[1], USERS[2]]);
        let s = l.w.snap();
        let ps = s.pools[p].clone();
        let key = |what: &str, a: u128| hash64(format!("{} {:?} {} {} {} {} {} {}", what, kind, n, ps.amp, ps.fee, lg(ps.c[0]), lg(ps.c[n - 1]), lg(a)).as_bytes());
        match r.below(11) {
            0..=3 => {
                let am = gen::add_amounts(r, &s, u, &ps);
                let st = l.add(u, &am, 0);
                if st.ev.ok.is_ok() { add_ok(&st, p, u, &t, &am)?; env.rep.eval("add", Some(key("a", am[0]))); env.rep.sample("add", || json!({"pool":pdesc(&ps),"offer":js(&am),"minted":(st.post.share(p,u)-st.pre.share(p,u)).to_string()})); }
                else { ensure!(st.pre.pools[p].c == st.post.pools[p].c && st.pre.pools[p].supply == st.post.pools[p].supply, "failed add changed the pool"); }
            }
            4 | 5 => {
                let have = s.share(p, u); if have == 0 { continue; }
                let x = if r.p(10) { have } else { r.amount(have) };
                let st = l.remove(u, x, &vec![0; n]);
                if st.ev.ok.is_ok() { remshares_ok(&st, p, u, &t, x)?; env.rep.eval("remove by shares", Some(key("r", x))); }
            }
            6 | 7 => {
                let have = s.share(p, u); if have == 0 { continue; }
                let am = remtok_amounts(r, &ps, have);
                let st = l.remtok(u, &am, u128::MAX);
                if st.ev.ok.is_ok() { remtok_ok(&st, p, u, &t, &am)?; env.rep.eval("remove by tokens", Some(key("t", am[0]))); env.rep.sample("remove by tokens", || json!({"pool":pdesc(&ps),"amounts":js(&am),"burnt":(st.pre.share(p,u)-st.post.share(p,u)).to_string()})); }
                else { ensure!(st.pre.pools[p].c == st.post.pools[p].c && st.pre.pools[p].supply == st.post.pools[p].supply, "failed removal changed the pool"); }
            }
            8 | 9 => l.evolve(r),
            _ => {
                if !gentle { l.evolve(r); continue; }
                // one account enters, trades and leaves; nobody else acts and prices and amp stand still
                let v = USERS[3];
                if s.share(p, v) > 0 { continue; }
                let dt = l.w.ch.dt; l.w.ch.dt = 0;
                for (i, x) in t.iter().enumerate() { let y = r.amount(ps.amounts[i].max(1000)); l.w.quiet_fund(v, x, y); }
                let s0 = l.w.snap();
                let d0: Vec<u128> = t.iter().map(|x| s0.deposit(v, x)).collect();
                let mut done = 0;
                for _ in 0..2 + r.us(5) {
                    let s = l.w.snap(); let ps = s.pools[p].clone(); let h = s.share(p, v);
                    let st = match r.below(5) {
                        0 | 1 => { let am = gen::add_amounts(r, &s, v, &ps); l.add(v, &am, 0) }
                        2 => { let i = r.us(n); let j = (i + 1 + r.us(n - 1)) % n; let x = r.amount(s.deposit(v, &t[i]).min(ps.amounts[i]).max(1)); l.swap(v, i, j, x, 0, Value::Null) }
                        3 if h > 0 => { let x = r.amount(h); l.remove(v, x, &vec![0; n]) }
                        4 if h > 0 => { let am = remtok_amounts(r, &ps, h); l.remtok(v, &am, u128::MAX) }
                        _ => continue,
                    };
                    if st.ev.ok.is_ok() { done += 1; }
                    l.settle();
                }
                let s = l.w.snap(); let h = s.share(p, v);
                if h > 0 { let st = l.remove(v, h, &vec![0; n]); if st.ev.ok.is_err() { l.w.ch.dt = dt; continue; } }
                l.w.ch.dt = dt;
                let s1 = l.w.snap();
                let d1: Vec<u128> = t.iter().map(|x| s1.deposit(v, x)).collect();
                let tol = |i: usize| -> u128 { let (_f, dv) = c_factor(kind, ps.dec[i]); d0[i] / 1_000_000_000_000 + 64 * dv + 64 * (PREC24 / ps.rates.get(i).copied().unwrap_or(PREC24).max(1) + 1) };
                let ge = (0..n).all(|i| d1[i] >= d0[i]);
                let gain = (0..n).any(|i| d1[i] > d0[i] + tol(i));
                ensure!(!(ge && gain), "an account alone turned {:?} into {:?} in {}", d0, d1, pdesc(&s0.pools[p]));
                if done > 0 { env.rep.eval("sequence", Some(key("q", d0[0] + done))); }
            }
        }
        l.settle();
    }
    Ok(())
}

// ------------------------------------------------------------------ C24
struct Fees { bps: u128, refbps: u128, referral: Option<String> }
/// shares gained by exchange and referrer
fn fee_gain(st: &Step, p: usize, f: &Fees) -> Result<(u128, u128), String> {
    let dx = st.post.share(p, EX) as i128 - st.pre.share(p, EX) as i128;
    let dr = f.referral.as_ref().map(|a| st.post.share(p, a) as i128 - st.pre.share(p, a) as i128).unwrap_or(0);
    ensure!(dx >= 0 && dr >= 0, "fee recipients lost shares: {} {}", dx, dr);
    Ok((dx as u128, dr as u128))
}
fn split_ok(tot: u128, rf: u128, f: &Fees, reg: bool, d: &str) -> Res {
    let due = if reg && f.referral.is_some() { math::muldiv(tot, f.refbps, 10_000) } else { 0 };
    // the referrer gets the configured part rounded down, the exchange the rest
    ensure!(rf == due, "of {} fee shares the referrer got {}, configured part is {} (registered {}): {}", tot, rf, due, reg, d);
    Ok(())
}
fn c24(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let kind = *r.pick(&[PK::Simple, PK::Stable, PK::Rated, PK::Degen]);
    let g = r.p(60);
    let mut l = lab::lab_with(env.codes, &mut r, kind, g);
    let res = c24_run(env, &mut l, &mut r);
    if res.is_err() { *env.story = l.w.story(40); }
    res
}
fn c24_run(env: &mut Env, l: &mut Lab, r: &mut Rng) -> Res {
    let p = l.p as usize;
    let t = l.t.clone();
    let n = t.len();
    let kind = l.kind;
    l.w.flags |= F_META;
    l.w.cached = None;
    for _ in 0..24 {
        let u = *r.pick(&[USERS[0], USERS[1], USERS[2]]);
        let s = l.w.snap();
        let ps = s.pools[p].clone();
        if ps.supply == 0 { l.evolve(r); continue; }
        let bps = s.meta["admin_fee_bps"].as_u64().unwrap() as u128;
        let rid = match r.below(4) { 0 => None, 1 => Some(REF2.to_string()), _ => Some(REF1.to_string()) };
        let f = Fees { bps, refbps: rid.as_ref().and_then(|x| s.refs.get(x)).copied().unwrap_or(0), referral: rid.clone().filter(|x| s.refs.contains_key(x)) };
        let rv = match &rid { Some(x) => json!(x), None => Value::Null };
        let reg = f.referral.as_ref().map_or(false, |a| l.w.vr("mft_has_registered", json!({"token_id":format!(":{}", p),"account_id":a})).map(|v| v == json!(true)).unwrap_or(false)) ;
        let key = |what: &str, a: u128, b: u128| hash64(format!("{} {:?} {} {} {} {} {} {} {}", what, kind, n, bps, f.refbps, ps.fee, reg, lg(a), lg(b)).as_bytes());
        match r.below(12) {
            0..=5 => {
                let i = r.us(n); let j = (i + 1 + r.us(n - 1)) % n;
                let x = l.amount_in(r, u, i, &ps);
                // several ways to the same swap: internal account, internal account with exact output, token transfer
                let via = r.below(if kind == PK::Simple { 3 } else { 2 });
                let a = json!([{"pool_id":l.p,"token_in":t[i],"amount_in":x.to_string(),"token_out":t[j],"min_amount_out":"0"}]);
                let st = if via == 0 { l.w.ex_step(u, "swap", json!({"actions":a,"referral_id":rv,"skip_degen_price_sync":true}), 1) }
                    else if via == 2 { let y = r.amount((ps.amounts[j] / 3).max(1)); l.w.ex_step(u, "swap_by_output", json!({"actions":[{"pool_id":l.p,"token_in":t[i],"amount_out":y.to_string(),"token_out":t[j],"max_amount_in":x.to_string()}],"referral_id":rv,"skip_degen_price_sync":true}), 1) }
                    else { l.w.mint(&t[i], u, x); let id = l.w.ch.send(u, &t[i], "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":json!({"actions":a,"referral_id":rv,"skip_degen_price_sync":true}).to_string()}), 1); let k = l.w.pos(id).unwrap(); l.w.exec(k); let k = (0..l.w.ch.pending.len()).find(|k| l.w.ch.pending[*k].receiver == EX).unwrap(); l.w.exec(k) };
                if st.ev.ok.is_ok() {
                    let (ex, rf) = fee_gain(&st, p, &f)?;
                    let (pre, post) = (&st.pre.pools[p], &st.post.pools[p]);
                    let tot = ex + rf;
                    ensure!(post.supply - pre.supply == tot, "supply rose by {} in a swap that paid {} fee shares", post.supply - pre.supply, tot);
                    ensure!(bps > 0 || tot == 0, "fee shares {} minted with zero protocol fee", tot);
                    ensure!(ps.fee > 0 || tot == 0 || kind == PK::Simple, "fee shares {} minted by a pool without fee", tot);
                    split_ok(tot, rf, &f, reg, &pdesc(pre))?;
                    if kind == PK::Simple {
                        // growth of sqrt(k), in shares, times the protocol's part
                        let (k0, k1) = (isqrt(big(pre.amounts[0]) * big(pre.amounts[1])), isqrt(big(post.amounts[0]) * big(post.amounts[1])));
                        let hi = (k1 - k0 + U512::one()) * big(pre.supply) * big(bps) / (k0.max(U512::one()) * big(10_000)) ;
                        // the divisor may be truncated to a whole number
                        let hi = hi + hi * big(bps) / (k0.max(U512::one()) * big(5_000)) + U512::one();
                        ensure!(big(tot) <= hi, "protocol took {} shares where {} bps of the fee growth is {}: {:?} -> {:?} supply {}", tot, bps, hi, pre.amounts, post.amounts, pre.supply);
                        let lo = sat5((k1 - k0) * big(pre.supply) * big(bps) / ((k0 + U512::one()) * big(10_000)), U512::one());
                        ensure!(big(tot) + U512::one() >= lo, "protocol took only {} shares where {} bps of the fee growth is {}", tot, bps, lo);
                    } else {
                        // protocol's part of the fee in output tokens, valued on the curve
                        let fee = w(pre.fee as u128);
                        let sc = |cu: U1024| -> U1024 { let rt = pre.rates.get(j).copied().unwrap_or(PREC24); (cu * w(rt) << math::FB) / w(PREC24) };
                        // the protocol's part of the fee stays in the reserve as its liquidity
                        let net = pre.c[j] - post.c[j];
                        // net = gross less the whole fee
                        let g = w(10_000 - pre.fee as u128);
                        let ro = w(4 + 4 * (PREC24 / pre.rates.get(j).copied().unwrap_or(PREC24).max(1)));
                        let feehi = (w(net) + ro) * fee / g + ro;
                        let feelo = sat(sat(w(net), ro) * fee / g, ro);
                        let (ahi, alo) = (feehi * w(bps) / w(10_000) + w(1), sat(feelo * w(bps) / w(10_000), w(2)));
                        let x1 = math::scaled(&post.c, &post.rates);
                        let ann = math::ann(post.amp, n);
                        let k1 = curve_of(&x1, ann, kind == PK::Stable);
                        let mut xl = x1.clone(); xl[j] = sat(xl[j], sc(ahi) + sc(w(2)) + (w(2) << math::FB)).max(U1024::one());
                        let mut xh = x1.clone(); xh[j] = sat(xh[j], sat(sc(alo), sc(w(2)) + (w(2) << math::FB))).max(U1024::one());
                        let (kl, kh) = (curve_of(&xl, ann, kind == PK::Stable), curve_of(&xh, ann, kind == PK::Stable));
                        let hi = w(pre.supply) * sat(k1.dhi, kl.dlo) / kl.dlo.max(U1024::one()) + w(2);
                        let lo = sat(w(pre.supply) * sat(k1.dlo, kh.dhi) / kh.dhi.max(U1024::one()), w(2));
                        if pre.fee < 9000 {
                            ensure!(w(tot) <= hi, "protocol took {} shares where its part of the swap fee is worth {}: {} -> {:?}", tot, hi, pdesc(pre), post.c);
                            ensure!(w(tot) >= lo, "protocol took only {} shares where its part of the swap fee is worth {}: {} -> {:?}", tot, lo, pdesc(pre), post.c);
                        }
                    }
                    env.rep.eval(["swap", "instant swap", "swap by output"][via as usize], Some(key("s", tot, x)));
                    env.rep.sample("swap", || json!({"pool":pdesc(pre),"fee shares":tot.to_string(),"referrer":rf.to_string()}));
                    if rf > 0 { env.rep.count("swaps that paid a referrer"); }
                } else if via == 1 { l.settle(); }
            }
            6 | 7 if kind != PK::Simple => {
                let addl = r.p(50);
                let f = Fees { bps, refbps: 0, referral: None };
                let st = if addl { let am = gen::add_amounts(r, &s, u, &ps); l.add(u, &am, 0) } else { let h = s.share(p, u); if h == 0 { continue; } let am = remtok_amounts(r, &ps, h); l.remtok(u, &am, u128::MAX) };
                if st.ev.ok.is_ok() {
                    let (pre, post) = (&st.pre.pools[p], &st.post.pools[p]);
                    let (ex, _) = fee_gain(&st, p, &f)?;
                    let mine = if addl { st.post.share(p, u) - st.pre.share(p, u) } else { st.pre.share(p, u) - st.post.share(p, u) };
                    let lp = lp_range(pre, &post.c, post.amp, addl);
                    // fee part = difference between the fee-free and the charged share amount
                    let (hi, lo) = if addl { (sat(lp.total.hi, w(mine)), sat(lp.total.lo, w(mine))) } else { (sat(w(mine), lp.total.lo), sat(w(mine), lp.total.hi)) };
                    let (hi, lo) = (hi * w(bps) / w(10_000) + w(1), sat(lo * w(bps) / w(10_000), w(1)));
                    ensure!(w(ex) <= hi && w(ex) >= lo, "exchange took {} fee shares of an imbalanced change, its part is {}..{}: {} -> {:?} user {}", ex, lo, hi, pdesc(pre), post.c, mine);
                    ensure!(bps > 0 || ex == 0, "fee shares {} minted with zero protocol fee", ex);
                    env.rep.eval(if addl { "imbalanced add" } else { "imbalanced removal" }, Some(key(if addl { "a" } else { "t" }, ex, mine)));
                }
            }
            8 => {
                // settings: bounds
                let (m, a, ok): (&str, Value, bool) = match r.below(5) {
                    0 => { let x = *r.pick(&[0u32, 1, 500, 2000, 8000, 8001, 9999, 10_000, 10_001, 4_000_000_000]); ("modify_admin_fee", json!({"admin_fee_bps":x}), x <= 8000) }
                    1 => { let x = *r.pick(&[0u32, 1, 30, 9999, 10_000, 10_001, u32::MAX]); ("modify_total_fee", json!({"pool_id":p,"total_fee":x}), x < 10_000) }
                    2 => { let x = *r.pick(&[0u32, 1, 2000, 9999, 10_000, u32::MAX]); let has = s.refs.contains_key(REF1); ("insert_referral", json!({"referral_id":REF1,"fee_bps":x}), x > 0 && x < 10_000 && !has) }
                    3 => { let x = *r.pick(&[0u32, 1, 2000, 9999, 10_000, u32::MAX]); let has = s.refs.contains_key(REF1); ("update_referral", json!({"referral_id":REF1,"fee_bps":x}), x > 0 && x < 10_000 && has) }
                    _ => { let has = s.refs.contains_key(REF2); ("insert_referral", json!({"referral_id":REF2,"fee_bps":r.range(1, 9999)}), !has) }
                };
                let st = l.w.ex_step(OWNER, m, a.clone(), 1);
                ensure!(st.ev.ok.is_ok() == ok, "{} {} {}: {:?}", m, a, if ok { "was refused" } else { "was accepted" }, st.ev.ok);
                ensure!(st.post.meta["admin_fee_bps"].as_u64().unwrap() <= 8000 || st.pre.meta["admin_fee_bps"] == st.post.meta["admin_fee_bps"], "protocol share out of bounds");
                env.rep.eval("fee setting", Some(hash64(format!("{}{}", m, a).as_bytes())));
            }
            9 => { if !l.w.vr("mft_has_registered", json!({"token_id":format!(":{}", p),"account_id":REF2})).map(|v| v == json!(true)).unwrap_or(true) { let _ = l.w.quiet(REF2, "mft_register", json!({"token_id":format!(":{}", p),"account_id":REF2}), crate::chain::NEAR / 10); l.settle(); } else { let _ = l.w.quiet(REF2, "mft_unregister", json!({"token_id":format!(":{}", p)}), 1); l.settle(); } }
            _ => l.evolve(r),
        }
        l.settle();
    }
    Ok(())
}
fn sat5(a: U512, b: U512) -> U512 { if a > b { a - b } else { U512::zero() } }

// ------------------------------------------------------------------ C26
fn tvl(p: &PoolS) -> U512 { let mut s = U512::zero(); for i in 0..p.c.len() { s = s + big(p.c[i]) * big(p.rates[i]) / big(PREC24) / big(PREC24); } s }
fn c26(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut l = lab::lab_with(env.codes, &mut r, PK::Degen, true);
    let res = c26_run(env, &mut l, &mut r);
    if res.is_err() { *env.story = l.w.story(40); }
    res
}
fn c26_run(env: &mut Env, l: &mut Lab, r: &mut Rng) -> Res {
    let p = l.p as usize;
    let t = l.t.clone();
    let n = t.len();
    // a second, ordinary pool for zaps
    l.w.add_token("zz.t", 18, true);
    let q = l.w.add_simple(&["zz.t", &t[0]], 30);
    let a0 = l.pool().amounts[0].max(1_000_000);
    l.w.seed(USERS[0], q, &[10u128.pow(22), a0]);
    let a1 = l.pool().amounts[n - 1].max(1_000_000);
    let q2 = l.w.add_simple(&["zz.t", &t[n - 1]], 30);
    l.w.seed(USERS[0], q2, &[10u128.pow(22), a1]);
    // further value-limited pools that nothing below concerns
    let mut others: BTreeMap<u64, Option<u128>> = BTreeMap::new();
    for _ in 0..r.below(4) { let ts: Vec<&str> = t.iter().map(|x| x.as_str()).collect(); let o = l.w.add_stable(PK::Degen, &ts, 5, 100); others.insert(o, None); }
    let one = |w: &World, p: u64| -> Option<u128> { let v = w.v("get_pool_limit_by_pool_id", json!({"pool_id":p})); if v.is_null() { None } else { v.as_object().and_then(|o| o.values().find_map(find_lim)) } };
    let lim_of = |w: &World| -> Option<u128> { let v = w.v("get_pool_limit_by_pool_id", json!({"pool_id":p})); if v.is_null() { None } else { v.as_object().and_then(|o| o.values().find_map(find_lim)) } };
    for _ in 0..14 {
        let ps = l.pool();
        let rep = num(&l.w.v("get_degen_pool_tvl", json!({"pool_id":p})));
        let mine = tvl(&ps);
        ensure!(big(rep) <= mine && big(rep) + big(n as u128) >= mine, "reported pool value {} but reserves times prices give {}", rep, mine);
        if r.p(40) && !others.is_empty() {
            let o = *r.pick(&others.keys().cloned().collect::<Vec<_>>());
            let x = r.logu(u128::MAX >> 1);
            let (m, a, v) = if others[&o].is_none() { ("add_degen_pool_limit", json!({"pool_id":o,"degen_pool_limit_info":{"tvl_limit":x.to_string()}}), Some(x)) } else if r.p(60) { ("update_degen_pool_limit", json!({"pool_id":o,"degen_pool_limit_info":{"tvl_limit":x.to_string()}}), Some(x)) } else { ("remove_pool_limit", json!({"pool_id":o}), None) };
            let before = lim_of(&l.w);
            let st = l.w.ex_step(OWNER, m, a.clone(), 1);
            ensure!(st.ev.ok.is_ok(), "the owner cannot {} {}: {:?}", m, a, st.ev.ok);
            others.insert(o, v);
            ensure!(lim_of(&l.w) == before, "{} {} changed the limit of pool {} from {:?} to {:?}", m, a, p, before, lim_of(&l.w));
            l.settle();
        }
        // set / change / drop the limit near the present value
        if r.p(45) {
            let target = match r.below(5) { 0 => rep, 1 => rep + 1 + r.below128(3), 2 => rep + r.below128(rep / 3 + 10), 3 => rep.saturating_sub(r.below128(rep / 3 + 2)), _ => rep + r.below128(50) };
            let has = lim_of(&l.w).is_some();
            let who = *r.pick(&[OWNER, GUARD, USERS[0]]);
            let (m, a, ok) = match r.below(4) {
                0 if has => ("remove_pool_limit", json!({"pool_id":p}), who == OWNER),
                _ if has => ("update_degen_pool_limit", json!({"pool_id":p,"degen_pool_limit_info":{"tvl_limit":target.to_string()}}), who == OWNER),
                _ => ("add_degen_pool_limit", json!({"pool_id":p,"degen_pool_limit_info":{"tvl_limit":target.to_string()}}), who == OWNER || who == GUARD),
            };
            let before = lim_of(&l.w);
            let st = l.w.ex_step(who, m, a.clone(), 1);
            if st.ev.ok.is_err() && ok { env.rep.count(&format!("refused {}: {}", m, st.ev.ok.clone().unwrap_err().chars().take(90).collect::<String>())); }
            ensure!(ok || st.ev.ok.is_err(), "{} was able to call {} {}", who, m, a);
            ensure!(st.ev.ok.is_ok() || lim_of(&l.w) == before, "refused limit change took effect");
            if st.ev.ok.is_ok() { let now = lim_of(&l.w); ensure!(if m == "remove_pool_limit" { now.is_none() } else { now == Some(target) }, "{} {} left the limit at {:?}", m, a, now); }
            for (o, x) in &others { ensure!(one(&l.w, *o) == *x, "{} {} by {}: the limit of pool {} goes from {:?} to {:?}", m, a, who, o, x, one(&l.w, *o)); }
            env.rep.eval("limit setting", Some(hash64(format!("{}{}{} {}", m, who, st.ev.ok.is_ok(), others.values().filter(|x| x.is_some()).count()).as_bytes())));
            l.settle();
        }
        let lim = lim_of(&l.w);
        let u = *r.pick(&[USERS[0], USERS[1], USERS[2]]);
        // an addition that lands near the limit
        let room = lim.map(|x| x.saturating_sub(rep)).unwrap_or(0);
        let zap = r.p(35);
        let am: Vec<u128> = if lim.is_some() && r.p(75) && !zap {
            let i = r.us(n);
            let (f, _) = c_factor(PK::Degen, ps.dec[i]);
            let per = w(PREC24) * w(PREC24) / w(ps.rates[i].max(1)) / w(f);
            let x = to128(w(room) * per).unwrap_or(1 << 100).min(1 << 100);
            let d = to128(per).unwrap_or(1 << 100).min(1 << 100);
            let x = match r.below(4) { 0 => x, 1 => x + d, 2 => x + r.below128(2 * d + 2), _ => x.saturating_sub(r.below128(d + 2)) }.max(1);
            (0..n).map(|k| if k == i { x } else { 0 }).collect()
        } else { let s = l.w.snap(); gen::add_amounts(r, &s, u, &ps) };
        for (i, x) in t.iter().enumerate() { l.w.quiet_fund(u, x, am[i].max(1).min(1 << 100)); }
        // run in a copy without the limit
        // a zap through one or two pools, with or without a part of the input left over, adding in one or two steps
        let (two, over, split) = (r.p(40), if r.p(50) { 1 + r.below128(1_000_000) } else { 0 }, r.p(25));
        let run = |w: &mut World, zx: &(u128, Vec<u128>)| -> Step {
            if zap {
                let mut acts = vec![json!({"pool_id":q,"token_in":"zz.t","amount_in":zx.0.to_string(),"token_out":t[0],"min_amount_out":"0"})];
                if two { acts.push(json!({"pool_id":q2,"token_in":"zz.t","amount_in":zx.0.to_string(),"token_out":t[n - 1],"min_amount_out":"0"})); }
                let half: Vec<u128> = zx.1.iter().map(|x| x / 2).collect();
                let rest: Vec<u128> = zx.1.iter().map(|x| x - x / 2).collect();
                let infos = if split { json!([{"pool_id":p,"amounts":js(&half),"min_shares":"0"},{"pool_id":p,"amounts":js(&rest),"min_shares":"0"}]) } else { json!([{"pool_id":p,"amounts":js(&zx.1),"min_shares":"0"}]) };
                let msg = json!({"hot_zap_actions":acts,"add_liquidity_infos":infos,"skip_degen_price_sync":true});
                let x = zx.0 * if two { 2 } else { 1 } + over;
                w.mint("zz.t", u, x);
                let id = w.ch.send(u, "zz.t", "ft_transfer_call", json!({"receiver_id":EX,"amount":x.to_string(),"msg":msg.to_string()}), 1);
                let k = w.pos(id).unwrap(); w.exec(k);
                let k = (0..w.ch.pending.len()).find(|k| w.ch.pending[*k].receiver == EX).unwrap(); w.exec(k)
            } else { w.ex_step(u, "add_stable_liquidity", json!({"pool_id":p,"amounts":js(&zx.1),"min_shares":"0"}), crate::chain::NEAR / 10) }
        };
        let zx = if zap {
            let x = r.amount(10u128.pow(22) / 4);
            let out = l.w.vr("get_return", json!({"pool_id":q,"token_in":"zz.t","amount_in":x.to_string(),"token_out":t[0]})).map(|v| num(&v)).unwrap_or(0);
            if out == 0 { continue; }
            let out2 = if two { l.w.vr("get_return", json!({"pool_id":q2,"token_in":"zz.t","amount_in":x.to_string(),"token_out":t[n - 1]})).map(|v| num(&v)).unwrap_or(0) } else { 0 };
            if two && out2 == 0 { continue; }
            (x, (0..n).map(|k| if k == 0 { if r.p(60) { out } else { r.amount(out) } } else if k == n - 1 && two { if r.p(60) { out2 } else { r.amount(out2) } } else { 0 }).collect())
        } else { (0, am) };
        let mut free = l.w.clone();
        if lim.is_some() { let rr = free.quiet(OWNER, "remove_pool_limit", json!({"pool_id":p}), 1); ensure!(rr.is_ok(), "owner could not remove the limit: {:?}", rr); }
        let dt = free.ch.dt; free.ch.ts -= if lim.is_some() { dt } else { 0 };
        let stf = run(&mut free, &zx);
        let st = run(&mut l.w, &zx);
        let after = tvl(&stf.post.pools[p]);
        match (stf.ev.ok.is_ok(), lim) {
            (false, _) => { ensure!(st.ev.ok.is_err(), "an addition refused without a limit passed with one"); env.rep.eval("refused either way", None); }
            (true, None) => { ensure!(st.ev.ok.is_ok(), "same call, different outcome: {:?}", st.ev.ok); env.rep.eval("no limit", None); }
            (true, Some(x)) => {
                let over = after > big(x) + big(n as u128); let under = after <= big(x);
                ensure!(!(over && st.ev.ok.is_ok()), "pool limited to {} accepted an addition that takes it to {}", x, after);
                // between: the reported value decides
                let rep = num(&free.v("get_degen_pool_tvl", json!({"pool_id":p})));
                ensure!(!(rep > x && st.ev.ok.is_ok()), "pool limited to {} accepted an addition that takes its value to {}", x, rep);
                ensure!(!(under && st.ev.ok.is_err()), "addition to value {} refused although the limit is {}: {:?}", after, x, st.ev.ok);
                if st.ev.ok.is_ok() { ensure!(st.post.pools[p] == stf.post.pools[p], "the limit changed the result of an accepted addition"); }
                let dist = if big(x) > after { big(x) - after } else { after - big(x) };
                env.rep.eval(if zap { "hot zap" } else { "add" }, Some(hash64(format!("{} {} {} {} {} {}", zap, st.ev.ok.is_ok(), dist.bits(), over, lg(x), lg(*zx.1.iter().max().unwrap())).as_bytes())));
                env.rep.sample(&format!("{} accepted={}", if zap { "hot zap" } else { "add" }, st.ev.ok.is_ok()), || json!({"limit":x.to_string(),"value after":after.to_string()}));
            }
        }
        l.settle();
        if r.p(30) { l.evolve(r); }
    }
    Ok(())
}
fn find_lim(v: &Value) -> Option<u128> { match v { Value::String(s) => s.parse().ok(), Value::Object(o) => o.values().find_map(find_lim), _ => None } }
