//! C04, C06, C07, C08: single swaps against exact pricing oracles.
use super::*;
use crate::lab::{self, Lab};
use crate::math;
use crate::util::*;
use serde_json::json;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C04", f: c04, rule: "one evaluation per executed swap (and per round trip) on a simple pool: payout, both reserves and the reserve product against exact integer arithmetic; non-trivial = the swap succeeded, keyed by fee and magnitude of reserves and input", quick_secs: 16, min_evals: 5_000 },
        Check { id: "C06", f: c06, rule: "one evaluation per executed swap on a stable pool: payout bracketed by an exact high-precision StableSwap solver, reserves updated by exactly the amounts, invariant not decreased; round trips give no profit; non-trivial = successful swap, keyed by token count, decimals, amp, fee and magnitudes", quick_secs: 18, min_evals: 3_000 },
        Check { id: "C07", f: c07, rule: "as C06 with reserves scaled by token rates", quick_secs: 18, min_evals: 2_000 },
        Check { id: "C08", f: c08, rule: "as C06 with reserves scaled by oracle prices", quick_secs: 18, min_evals: 2_000 },
    ]
}
fn lg(x: u128) -> u64 { (128 - x.leading_zeros()) as u64 }
pub fn gain(st: &Step, u: &str, t: &str) -> i128 { st.post.deposit(u, t) as i128 - st.pre.deposit(u, t) as i128 }

pub fn simple_swap_ok(pre: &PoolS, post: &PoolS, i: usize, j: usize, x: u128, out: u128, paid: u128) -> Res {
    let want = math::cp_out(pre.amounts[i], pre.amounts[j], pre.fee, x);
    ensure!(U512::from(out) == want, "swap of {} on reserves {:?} fee {} paid {} but the curve gives {}", x, pre.amounts, pre.fee, out, want);
    ensure!(paid == x, "swap took {} instead of {}", paid, x);
    ensure!(post.amounts[i] == pre.amounts[i] + x && post.amounts[j] == pre.amounts[j] - out, "reserves {:?} -> {:?} do not match in {} out {}", pre.amounts, post.amounts, x, out);
    ensure!(post.amounts[j] > 0, "the swap emptied a reserve");
    ensure!(U256::from(post.amounts[i]) * U256::from(post.amounts[j]) >= U256::from(pre.amounts[i]) * U256::from(pre.amounts[j]), "reserve product fell");
    Ok(())
}

fn c04(env: &mut Env, mut r: Rng, _ep: u64) -> Res {
    let mut l = lab::lab(env.codes, &mut r, PK::Simple);
    let res = c04_run(env, &mut l, &mut r);
    if res.is_err() { *env.story = l.w.story(40); }
    res
}
fn c04_run(env: &mut Env, l: &mut Lab, r: &mut Rng) -> Res {
    for _ in 0..40 {
        if r.p(25) { l.evolve(r); continue; }
        let u = *r.pick(&[USERS[0], USERS[1], USERS[2]]);
        let i = r.us(2); let j = 1 - i;
        let ps = l.pool();
        if ps.supply == 0 { l.evolve(r); continue; }
        let mut x = l.amount_in(r, u, i, &ps);
        if r.p(8) { x = r.amount(l.w.deposit_of(u, &l.t[i]).max(1)); }
        let rf = l.referral(r);
        let st = l.swap(u, i, j, x, 0, rf.clone());
        let (pre, post) = (&st.pre.pools[l.p as usize], &st.post.pools[l.p as usize]);
        if st.ev.ok.is_ok() {
            let out = gain(&st, u, &l.t[j]); let paid = -gain(&st, u, &l.t[i]);
            ensure!(out >= 0 && paid >= 0, "swap moved balances the wrong way: {} {}", out, paid);
            simple_swap_ok(pre, post, i, j, x, out as u128, paid as u128)?;
            env.rep.eval("swap", Some(hash64(format!("{} {} {} {} {}", pre.fee, lg(pre.amounts[i]), lg(pre.amounts[j]), lg(x), out == 0).as_bytes())));
            env.rep.sample("swap", || json!({"reserves":js(&pre.amounts),"fee":pre.fee,"in":x.to_string(),"out":out.to_string()}));
            // other pools of the pair keep their kind of pool state; swapping back never profits
            if r.p(30) && out > 0 {
                let st2 = l.swap(u, j, i, out as u128, 0, rf);
                if st2.ev.ok.is_ok() {
                    let back = gain(&st2, u, &l.t[i]);
                    ensure!(back <= x as i128, "swapping {} there and back returned {}", x, back);
                    env.rep.eval("round trip", Some(hash64(format!("rt{} {} {}", pre.fee, lg(pre.amounts[i]), lg(x)).as_bytes())));
                }
            }
        } else {
            ensure!(pre == post, "failed swap changed the pool");
            let fits = lg(pre.amounts[i]) + lg(pre.amounts[j]) + lg(x) < 230 && lg(pre.amounts[i].saturating_add(x)) + lg(pre.supply) < 120;
            if fits && x > 0 && st.pre.deposit(u, &l.t[i]) >= x && lg(pre.amounts[i]) > 20 && lg(pre.amounts[j]) > 20 { env.rep.count("unexpectedly rejected swap"); }
            env.rep.eval("rejected swap leaves the pool untouched", None);
        }
        l.settle();
    }
    Ok(())
}

/// What the integer solvers may do in this state: the invariant they find lies in [dlo, dhi], amounts are off by at most `su` units.
pub struct Curve { pub x: Vec<U1024>, pub ann: u128, pub dlo: U1024, pub dhi: U1024, pub d: U1024, pub su: U1024, pub sx: U1024 }
pub fn curve_of(xs: &[U1024], ann: u128, exact_inputs: bool) -> Curve {
    let one = U1024::one() << math::FB;
    let d = math::curve_d(xs, ann);
    let n = xs.len();
    // truncation inside the solver: each prefix product d·Π d/(n·x_k) is rounded to an integer
    let df = math::lossy_f64(d >> math::FB).max(1.0);
    let mut prod = df; let mut e = 0f64;
    for x in xs { prod = (prod * df / (math::lossy_f64(*x >> math::FB).max(1.0) * n as f64)).max(1e-9); e += df / prod; }
    let sd = U1024::from(6 + (3.0 * e).min(1e18) as u64) * one;
    let (mut lo, mut hi) = (d, d);
    if !exact_inputs {
        let dn: Vec<U1024> = xs.iter().map(|x| if *x > one * U1024::from(2u64) { *x - one } else { one }).collect();
        let up: Vec<U1024> = xs.iter().map(|x| *x + one).collect();
        lo = math::curve_d(&dn, ann); hi = math::curve_d(&up, ann);
    }
    Curve { x: xs.to_vec(), ann, dlo: if lo > sd { lo - sd } else { U1024::zero() }, dhi: hi + sd, d, su: one * U1024::from(3u64), sx: if exact_inputs { U1024::zero() } else { one * U1024::from(2u64) } }
}
pub struct Bracket { pub too_much: bool, pub too_little: bool }
/// Bracket test of an output: does what was paid lie between the curve's value less the fee and the same plus rounding?
pub fn bracket(c: &Curve, i: usize, j: usize, dx: U1024, out_lo: U1024, out_hi: U1024, fee: u32) -> Bracket {
    let x = &c.x;
    let n = x.len();
    let g = U1024::from(10_000 - fee);
    let nx = x[i] + dx;
    // truncation in the y solver: relative error of its constant term
    let df = math::lossy_f64(c.d >> math::FB).max(1.0);
    let mut k = df * df / math::lossy_f64(nx >> math::FB).max(1.0); let mut e = 1.0 / k.max(1e-9);
    for m in 0..n { if m != i && m != j { k = (k * df / math::lossy_f64(x[m] >> math::FB).max(1.0)).max(1e-9); e += 1.0 / k; } }
    k = k * df / (c.ann as f64 * (n as f64).powi(n as i32)); e += 1.0 / k.max(1e-9);
    let yf = math::lossy_f64(x[j] >> math::FB);
    let su = c.su + (U1024::from((3.0 * (yf * e).min(yf)).min(1.8e19) as u64) << math::FB);
    let mut v = x.clone();
    for k in 0..n { v[k] = x[k] + c.sx; }
    v[i] = nx + c.sx;
    // the least gross output that explains what was paid
    let gmin = { let o = if out_lo > su { out_lo - su } else { U1024::zero() }; o * U1024::from(10_000u64) / g };
    let mut too_much = gmin >= v[j];
    if !too_much { v[j] = x[j] - gmin; too_much = math::curve_over(&v, c.ann, c.dlo); }
    // the largest gross output that explains it
    for k in 0..n { v[k] = if x[k] > c.sx { x[k] - c.sx } else { U1024::one() }; }
    v[i] = if nx > c.sx { nx - c.sx } else { U1024::zero() };
    let gmax = (out_hi + su) * U1024::from(10_000u64) / g + su;
    let too_little = if gmax >= x[j] || v[i].is_zero() { false } else { v[j] = x[j] - gmax; !math::curve_over(&v, c.ann, c.dhi) };
    Bracket { too_much, too_little }
}
/// how many token units of `i` the solvers' error in the invariant is worth in this state
pub fn round_tol(cv: &Curve, i: usize, p: &PoolS) -> u128 {
    let one = U1024::one() << math::FB;
    let xs = &cv.x;
    let dl = (cv.dhi - cv.dlo) * U1024::from(2u64);
    if dl >= cv.d { return 1 << 100; }
    let y = math::curve_y(xs, i, cv.d - dl, cv.ann);
    let gap = (if xs[i] > y { xs[i] - y } else { U1024::zero() }) + U1024::from(4u64) * one;
    let rt = p.rates.get(i).copied().unwrap_or(PREC24);
    let c = (gap * w(PREC24) / w(rt)) >> math::FB;
    let (n, d) = c_factor(p.kind, p.dec[i]);
    to128(c * w(8) * w(d) / w(n)).unwrap_or(1 << 100) + 2 * d
}
/// factor from token units to comparable units, as a rational (num, den)
pub fn c_factor(kind: PK, dec: u8) -> (u128, u128) {
    let target = if kind == PK::Stable { 18 } else { 24 };
    if dec <= target { (10u128.pow((target - dec) as u32), 1) } else { (1, 10u128.pow((dec - target) as u32)) }
}
fn c06(env: &mut Env, r: Rng, _e: u64) -> Res { curve_check(env, r, PK::Stable) }
fn c07(env: &mut Env, r: Rng, _e: u64) -> Res { curve_check(env, r, PK::Rated) }
fn c08(env: &mut Env, r: Rng, _e: u64) -> Res { curve_check(env, r, PK::Degen) }
fn curve_check(env: &mut Env, mut r: Rng, kind: PK) -> Res {
    let mut l = lab::lab(env.codes, &mut r, kind);
    let res = curve_run(env, &mut l, &mut r);
    if res.is_err() { *env.story = l.w.story(40); }
    res
}
pub fn swap_units(p: &PoolS, i: usize, j: usize, x: u128, out: u128) -> (Vec<U1024>, U1024, U1024, U1024) {
    let xs = math::scaled(&p.c, &p.rates);
    let conv = |k: usize, a: u128| -> U1024 { let (n, d) = c_factor(p.kind, p.dec[k]); let c = w(a) * w(n); let c = if d > 1 { c / w(d) } else { c }; let rt = p.rates.get(k).copied().unwrap_or(PREC24); (c * w(rt) << math::FB) / w(PREC24) };
    let o2 = { let (n, d) = c_factor(p.kind, p.dec[j]); let c = if d > 1 { w(out) / w(d) + w(1) } else { w(out + 1) * w(n) }; let rt = p.rates.get(j).copied().unwrap_or(PREC24); (c * w(rt) << math::FB) / w(PREC24) };
    (xs, conv(i, x), conv(j, out), o2)
}
fn curve_run(env: &mut Env, l: &mut Lab, r: &mut Rng) -> Res {
    let n = l.n();
    for _ in 0..30 {
        if r.p(35) { l.evolve(r); continue; }
        let u = *r.pick(&[USERS[0], USERS[1], USERS[2]]);
        let i = r.us(n); let j = (i + 1 + r.us(n - 1)) % n;
        let ps = l.pool();
        let x = l.amount_in(r, u, i, &ps);
        let rf = l.referral(r);
        let st = l.swap(u, i, j, x, 0, rf.clone());
        let (pre, post) = (&st.pre.pools[l.p as usize], &st.post.pools[l.p as usize]);
        if st.ev.ok.is_err() { ensure!(pre.c == post.c && pre.supply == post.supply, "failed swap changed the pool"); env.rep.eval("rejected swap leaves the pool untouched", None); l.settle(); continue; }
        let out = gain(&st, u, &l.t[j]); let paid = -gain(&st, u, &l.t[i]);
        ensure!(out >= 0 && paid == x as i128, "swap of {} charged {} and paid {}", x, paid, out);
        let out = out as u128;
        let (xs, dx, olo, ohi) = swap_units(pre, i, j, x, out);
        let cv = curve_of(&xs, math::ann(post.amp, n), pre.kind == PK::Stable);
        let b = bracket(&cv, i, j, dx, olo, ohi, pre.fee);
        let desc = || format!("{:?} pool c={:?} rates={:?} dec={:?} amp={} fee={} in {} ({}) out {} ({})", pre.kind, pre.c, pre.rates, pre.dec, post.amp, pre.fee, x, pre.tokens[i], out, pre.tokens[j]);
        if b.too_much { let mut v = cv.x.clone(); v[i] = v[i] + dx; let y = math::curve_y(&v, j, cv.d, cv.ann); return Err(format!("swap paid {} where the curve gives {} before the fee (invariant units): {}", olo >> math::FB, if cv.x[j] > y { (cv.x[j] - y) >> math::FB } else { U1024::zero() }, desc())); }
        if b.too_little { let mut v = cv.x.clone(); v[i] = v[i] + dx; let y = math::curve_y(&v, j, cv.d, cv.ann); return Err(format!("swap paid {} where the curve gives {} before the fee (invariant units): {}", olo >> math::FB, (cv.x[j] - y) >> math::FB, desc())); }
        // reserves: exactly the input in, no more than the output (in comparable units, rounded by the rate) out, others untouched
        let (fi, di) = c_factor(pre.kind, pre.dec[i]);
        let lose = if pre.kind == PK::Stable { 0 } else { 2 + 3 * (PREC24 / pre.rates[i].max(1)) };
        let exact = pre.c[i] + x / di * fi;
        ensure!(post.c[i] <= exact && post.c[i] + lose >= exact, "input reserve moved by {} for input {}: {}", post.c[i].wrapping_sub(pre.c[i]), x, desc());
        for k in 0..n { if k != i && k != j { ensure!(post.c[k] == pre.c[k], "reserve of an uninvolved token changed: {}", desc()); } }
        ensure!(post.c[j] < pre.c[j] || out == 0, "output reserve did not fall");
        // the invariant of what stays in the pool never decreases (protocol share of the fee included)
        let mut cc = post.c.clone();
        if pre.kind != PK::Stable { for k in [i, j].iter() { cc[*k] += 2 + 3 * (PREC24 / pre.rates[*k].max(1)); } }
        let d1x = math::scaled(&cc, &post.rates);
        // (the solver's own error at the new state counts only where it matters: wildly skewed reserves)
        if math::curve_over(&d1x, cv.ann, cv.dlo) {
            let cp = curve_of(&d1x, cv.ann, pre.kind == PK::Stable);
            env.rep.count("invariant compared within solver error");
            ensure!(cp.dhi >= cv.dlo, "invariant fell through a swap: {}", desc());
        }
        env.rep.eval("swap", Some(hash64(format!("{} {:?} {} {} {} {} {} {:?}", n, (pre.dec[i], pre.dec[j]), post.amp, pre.fee, lg(pre.c[i]), lg(pre.c[j]), lg(x), pre.rates.iter().map(|y| lg(*y)).collect::<Vec<_>>()).as_bytes())));
        env.rep.sample(&format!("{} tokens", n), || json!(desc()));
        if out == 0 { env.rep.count("zero output swaps"); }
        if r.p(25) && out > 0 {
            let st2 = l.swap(u, j, i, out, 0, rf);
            let same = st2.pre.pools[l.p as usize].amp == st.post.pools[l.p as usize].amp && st2.post.pools[l.p as usize].amp == post.amp;
            // in drained or wildly skewed states only the bracket and the invariant are meaningful
            let calm = x <= pre.amounts[i] / 2 && post.amounts[j] >= pre.amounts[j] / 20 && { let mx = xs.iter().max().unwrap(); let mn = xs.iter().min().unwrap(); *mx / *mn < U1024::from(10_000u64) };
            if st2.ev.ok.is_ok() && same && calm {
                let back = gain(&st2, u, &l.t[i]);
                let tol = if back > x as i128 { env.rep.count("round trips within solver rounding"); let mid = &st2.pre.pools[l.p as usize]; let cm = curve_of(&math::scaled(&mid.c, &mid.rates), cv.ann, pre.kind == PK::Stable); round_tol(&cv, i, pre).saturating_add(round_tol(&cm, i, pre)).saturating_add(x / 1_000_000_000_000_000) } else { 0 };
                ensure!(back <= x as i128 + tol as i128, "swapping {} there and back returned {} (solver rounding explains {}): {}", x, back, tol, desc());
                env.rep.eval("round trip", Some(hash64(format!("rt {} {} {} {}", n, post.amp, lg(pre.c[i]), lg(x)).as_bytes())));
            }
        }
        l.settle();
    }
    Ok(())
}
