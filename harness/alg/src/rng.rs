use num::bigint::{BigInt, BigUint, Sign};
use crate::words::words;
use num::{One, ToPrimitive, Zero};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x5DEE_CE66);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, p: u64, q: u64) -> bool {
        self.below(q) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// log-uniform in 0..2^bits
    pub fn loguni(&mut self, bits: u64) -> u64 {
        let b = self.range(0, bits);
        if b == 0 {
            return self.below(2);
        }
        let hi = 1u64 << (b - 1);
        hi + self.below(hi)
    }
    /// a natural number with at most `bits` bits, from several shapes
    pub fn nat(&mut self, bits: u64) -> BigUint {
        if let Some(n) = self.known(bits) {
            return n;
        }
        match self.below(10) {
            0 => BigUint::from(self.below(4)),
            1 => BigUint::from(self.below(100)),
            2 => {
                let k = self.range(0, bits.saturating_sub(1)) as usize;
                let p = BigUint::one() << k;
                match self.below(3) {
                    0 => p,
                    1 => p + 1u32,
                    _ => p - 1u32,
                }
            }
            3 => {
                // around machine-word boundaries
                let k = *self.pick(&[31u64, 32, 33, 63, 64, 65, 127, 128]);
                let p = BigUint::one() << (k.min(bits) as usize);
                let d = BigUint::from(self.below(4));
                if self.chance(1, 2) || p < d { p + d } else { p - d }
            }
            4 => BigUint::from(self.next()),
            5 => {
                // zero limbs in the middle
                let k = self.range(1, bits) as usize;
                match self.below(3) {
                    // a run of ones
                    0 => {
                        let j = self.below(k as u64) as usize;
                        (BigUint::one() << k) - (BigUint::one() << j)
                    }
                    // smooth: many small factors
                    1 => {
                        let mut n = BigUint::one();
                        let f = [2u32, 3, 5, 6, 7, 10, 12, 30, 210, 65536];
                        let step = *self.pick(&f);
                        while (n.bits() as u64) < k as u64 {
                            n *= if self.chance(1, 3) { *self.pick(&f) } else { step };
                        }
                        n
                    }
                    _ => (BigUint::from(self.next() & 0xFFFF_FFFF) << k) + BigUint::from(self.below(1 << 32)),
                }
            }
            _ => {
                let n = self.range(1, bits) as usize;
                self.bits(n)
            }
        }
    }
    /// a number derived from the constants of the source
    fn known(&mut self, bits: u64) -> Option<BigUint> {
        let pool = &words().nums;
        if !self.chance(1, if pool.new.is_empty() { 40 } else { 8 }) {
            return None;
        }
        let s = pool.draw(|n| self.below(n as u64) as usize)?;
        let n = s.parse::<BigUint>().ok()?;
        let d = BigUint::from(self.below(3));
        let small = n.to_u64().filter(|k| *k < bits);
        let n = match (self.below(8), small) {
            (0, Some(k)) => BigUint::one() << k as usize,
            (1, Some(k)) if k > 0 => self.bits(k as usize),
            (2, Some(k)) => self.bits(k as usize + 1),
            (3, _) => n * self.below(1000),
            _ => n,
        };
        let n = if self.chance(1, 2) || n < d { n + d } else { n - d };
        if n.bits() as u64 <= bits { Some(n) } else { None }
    }
    /// exactly n random bits (top bit set)
    pub fn bits(&mut self, n: usize) -> BigUint {
        let words = (n + 31) / 32;
        let mut v: Vec<u32> = (0..words).map(|_| self.next() as u32).collect();
        let top = (n - 1) % 32;
        let last = v.last_mut().unwrap();
        if top < 31 {
            *last &= (1u32 << (top + 1)) - 1;
        }
        *last |= 1u32 << top;
        BigUint::new(v)
    }
    pub fn int(&mut self, bits: u64) -> BigInt {
        let u = self.nat(bits);
        if u.is_zero() {
            return BigInt::zero();
        }
        BigInt::from_biguint(if self.chance(1, 2) { Sign::Minus } else { Sign::Plus }, u)
    }
    pub fn nonzero(&mut self, bits: u64) -> BigInt {
        loop {
            let i = self.int(bits);
            if !i.is_zero() {
                return i;
            }
        }
    }
}
