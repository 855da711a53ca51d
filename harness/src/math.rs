//! Independent high-precision arithmetic for the pricing oracles. All curve quantities carry FB fractional bits.
use crate::util::*;

pub const FB: usize = 24;
type W = U1024;
pub fn wfix(x: u128) -> W { w(x) << FB }

/// Largest scaled D with  D^(n+1) + (Ann-1)·D·nnP <= Ann·S·nnP   (StableSwap invariant, nnP = n^n·prod x), i.e. floor of the real D.
pub fn curve_over(x: &[W], ann: u128, d: W) -> bool { over(x, W::from(ann), d) }
fn over(x: &[W], ann: W, d: W) -> bool {
    // sign of D^(n+1)/(n^n P) + Ann·D - D - Ann·S  > 0 ?
    let n = x.len();
    let mut p = W::from((n as u64).pow(n as u32));
    let mut s = W::zero();
    for v in x { p = p * *v; s = s + *v; }
    let mut dn = d;
    for _ in 0..n { dn = dn * d; }
    // dn / p  > ann*s - (ann-1)*d
    let a = ann * s; let b = (ann - W::one()) * d;
    if b > a { return true; }
    dn > (a - b) * p
}
pub fn curve_d(x: &[W], ann: u128) -> W {
    let ann = W::from(ann);
    let n = x.len();
    let mut s = W::zero();
    for v in x { if v.is_zero() { return W::zero(); } s = s + *v; }
    let mut p = W::from((n as u64).pow(n as u32));
    for v in x { p = p * *v; }
    let mut d = s;
    for _ in 0..400 {
        let mut dn = d;
        for _ in 0..n { dn = dn * d; }
        let dp = dn / p;
        let num = (ann * s + dp * W::from(n as u64)) * d;
        let den = (ann - W::one()) * d + dp * W::from(n as u64 + 1);
        let nd = num / den;
        let diff = if nd > d { nd - d } else { d - nd };
        d = nd;
        if diff <= W::one() { break; }
    }
    // settle exactly: largest d that is not over
    let mut step = W::one();
    if over(x, ann, d) {
        let mut hi = d; let mut lo = d - W::one();
        while over(x, ann, lo) { hi = lo; step = step * W::from(2u64); if step > lo { lo = W::zero(); break; } lo = lo - step; }
        while hi - lo > W::one() { let m = (hi + lo) / W::from(2u64); if over(x, ann, m) { hi = m } else { lo = m } }
        lo
    } else {
        let mut lo = d; let mut hi = d + W::one();
        while !over(x, ann, hi) { lo = hi; step = step * W::from(2u64); hi = hi + step; }
        while hi - lo > W::one() { let m = (hi + lo) / W::from(2u64); if over(x, ann, m) { hi = m } else { lo = m } }
        lo
    }
}
/// Smallest scaled y such that the reserves with x[j] = y reach the invariant d.
pub fn curve_y(x: &[W], j: usize, d: W, ann: u128) -> W {
    let annw = W::from(ann);
    let mut v = x.to_vec();
    let mut at = |y: W| -> bool { v[j] = y; !over(&v, annw, d) };
    // doubling from the present value, then bisection
    let mut hi = if x[j].is_zero() { W::one() } else { x[j] };
    if at(hi) {
        let mut lo = hi;
        loop { lo = lo >> 1; if lo.is_zero() || !at(lo) { break; } hi = lo; }
        let mut lo = lo;
        while hi - lo > W::one() { let m = (hi + lo) >> 1; if at(m) { hi = m } else { lo = m } }
        hi
    } else {
        let mut lo = hi;
        loop { hi = hi << 1; if at(hi) { break; } lo = hi; }
        while hi - lo > W::one() { let m = (hi + lo) >> 1; if at(m) { hi = m } else { lo = m } }
        hi
    }
}
pub fn ann(amp: u64, n: usize) -> u128 { amp as u128 * (n as u128).pow(n as u32) }

/// scaled reserves in invariant units: c·rate (1e24 = 1.0)
pub fn scaled(c: &[u128], rates: &[u128]) -> Vec<W> { c.iter().enumerate().map(|(i, v)| { let r = rates.get(i).copied().unwrap_or(PREC); (w(*v) * w(r) << FB) / w(PREC) }).collect() }
pub const PREC: u128 = 1_000_000_000_000_000_000_000_000;

/// floor(a*b/c) without intermediate overflow
pub fn muldiv(a: u128, b: u128, c: u128) -> u128 { let r = U512::from(a) * U512::from(b) / U512::from(c); r.low_u128() }

/// constant product, output for an input
pub fn cp_out(rin: u128, rout: u128, fee: u32, x: u128) -> U512 {
    let f = U512::from(x) * U512::from(10_000 - fee);
    f * U512::from(rout) / (U512::from(rin) * U512::from(10_000u64) + f)
}
pub fn lossy_f64(x: W) -> f64 { let mut r = 0f64; for i in (0..16).rev() { r = r * 18446744073709551616.0 + x.0[i] as f64; } r }
