//! Randomness, big integers and JSON helpers.
use serde_json::Value;
use uint::construct_uint;
construct_uint! { pub struct U256(4); }
construct_uint! { pub struct U512(8); }
construct_uint! { pub struct U1024(16); }

pub fn w(x: u128) -> U1024 { U1024::from(x) }

#[derive(Clone)]
pub struct Rng(pub [u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut n = || { z = z.wrapping_add(0x9E3779B97F4A7C15); let mut x = z; x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB); x ^ (x >> 31) };
        Rng([n(), n(), n(), n()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn u128(&mut self) -> u128 { ((self.u64() as u128) << 64) | self.u64() as u128 }
    pub fn below128(&mut self, n: u128) -> u128 { if n == 0 { 0 } else { self.u128() % n } }
    pub fn p(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn permille(&mut self, k: u64) -> bool { self.below(1000) < k }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.us(v.len()); &v[i] }
    /// log-uniform in [1, max]
    pub fn logu(&mut self, max: u128) -> u128 {
        if max <= 1 { return max; }
        let bits = 128 - max.leading_zeros() as u64;
        let b = self.below(bits) + 1;
        let m = if b == 128 { u128::MAX } else { (1u128 << b) - 1 };
        let x = (self.u128() & m) | (1u128 << (b - 1));
        if x > max { 1 + self.below128(max) } else { x }
    }
    /// an amount biased to interesting points of [0,max]
    pub fn amount(&mut self, max: u128) -> u128 {
        match self.below(12) {
            0 => max,
            1 => max.saturating_sub(self.below128(3)),
            2 => 1 + self.below128(3),
            3 | 4 | 5 => self.logu(max.max(1)),
            6 => max / 2 + self.below128(3),
            _ => self.below128(max.max(1)) + 1,
        }
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let t: u64 = ws.iter().sum();
        let mut x = self.below(t.max(1));
        for (i, k) in ws.iter().enumerate() { if x < *k { return i; } x -= k; }
        ws.len() - 1
    }
}

pub fn hash64(b: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); } let mut x = h; x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^ (x >> 32) }

/// u128 from a JSON string or number
pub fn num(v: &Value) -> u128 { match v { Value::String(s) => s.parse().unwrap_or_else(|_| panic!("not u128: {}", s)), Value::Number(n) => n.as_u64().expect("num") as u128, x => panic!("not a number: {}", x) } }
pub fn nums(v: &Value) -> Vec<u128> { v.as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default() }
pub fn strs(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default() }
pub fn js(a: &[u128]) -> Value { Value::Array(a.iter().map(|x| Value::String(x.to_string())).collect()) }
pub fn s(x: u128) -> Value { Value::String(x.to_string()) }
pub fn to128(x: U1024) -> Option<u128> { if x > U1024::from(u128::MAX) { None } else { Some(x.low_u128()) } }
pub fn p10(n: u32) -> U1024 { U1024::from(10u64).pow(U1024::from(n)) }
