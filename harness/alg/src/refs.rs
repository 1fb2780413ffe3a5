//! Independent reference computations. Nothing here calls the code under test.
use num::bigint::{BigInt, BigUint, Sign};
use num::{Integer, One, Signed, ToPrimitive, Zero};

/// primes used for residue fingerprints of big results
pub const FP: [u64; 3] = [0x1FFF_FFFF_FFFF_FFFF, 4_611_686_018_427_387_847, 1_000_000_000_000_000_003];

pub fn mulmod(a: u64, b: u64, m: u64) -> u64 {
    (a as u128 * b as u128 % m as u128) as u64
}
pub fn powmod(mut a: u64, e: &BigUint, m: u64) -> u64 {
    let mut r = 1 % m;
    a %= m;
    let bits = e.to_radix_le(2);
    for b in bits {
        if b == 1 {
            r = mulmod(r, a, m);
        }
        a = mulmod(a, a, m);
    }
    r
}
pub fn residue(a: &BigInt, m: u64) -> u64 {
    a.mod_floor(&BigInt::from(m)).to_u64().unwrap()
}

/// Euclid by remainders, on magnitudes
pub fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut x, mut y) = (a.abs(), b.abs());
    while !y.is_zero() {
        let r = &x % &y;
        x = y;
        y = r;
    }
    x
}

/// left-to-right binary power on magnitudes, sign from parity
pub fn pow(a: &BigInt, e: u64) -> BigInt {
    let m = a.abs().to_biguint().unwrap();
    let mut r = BigUint::one();
    for i in (0..64 - e.leading_zeros()).rev() {
        r = &r * &r;
        if e >> i & 1 == 1 {
            r = &r * &m;
        }
    }
    let neg = a.is_negative() && e & 1 == 1;
    if r.is_zero() {
        return BigInt::zero();
    }
    BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, r)
}

/// product tree
pub fn factorial(n: u64) -> BigUint {
    fn go(lo: u64, hi: u64) -> BigUint {
        if lo > hi {
            BigUint::one()
        } else if hi - lo < 8 {
            (lo..=hi).fold(BigUint::one(), |a, b| a * b)
        } else {
            let mid = (lo + hi) / 2;
            go(lo, mid) * go(mid + 1, hi)
        }
    }
    go(1, n)
}

/// F(n) by powers of the matrix [[1,1],[1,0]], most significant bit first
pub fn fibonacci(n: u64) -> BigUint {
    let (mut a, mut b, mut c) = (BigUint::one(), BigUint::zero(), BigUint::one()); // identity: F(1), F(0), F(-1)
    for i in (0..64 - n.leading_zeros()).rev() {
        let bb = &b * &b;
        let na = &a * &a + &bb;
        let nb = &b * (&a + &c);
        let nc = &c * &c + &bb;
        a = na;
        b = nb;
        c = nc;
        if n >> i & 1 == 1 {
            let t = &a + &b;
            c = b;
            b = a;
            a = t;
        }
    }
    b
}

/// odd-only sieve with prefix sums and counts: answers any n up to its limit
pub struct Sieve {
    pub limit: u64,
    pub primes: Vec<u64>,
}
impl Sieve {
    pub fn new(limit: u64) -> Sieve {
        let n = limit as usize;
        let mut comp = vec![false; n + 1];
        let mut primes = Vec::new();
        for i in 2..=n {
            if !comp[i] {
                primes.push(i as u64);
            }
            for &p in &primes {
                let x = p as usize * i;
                if x > n {
                    break;
                }
                comp[x] = true;
                if i % p as usize == 0 {
                    break;
                }
            }
        }
        Sieve { limit, primes }
    }
    pub fn prefix(&self) -> (Vec<u128>, Vec<u64>) {
        let n = self.limit as usize;
        let (mut s, mut c) = (vec![0u128; n + 1], vec![0u64; n + 1]);
        let mut k = 0;
        for i in 1..=n {
            s[i] = s[i - 1];
            c[i] = c[i - 1];
            if k < self.primes.len() && self.primes[k] == i as u64 {
                s[i] += i as u128;
                c[i] += 1;
                k += 1;
            }
        }
        (s, c)
    }
}

fn isqrt(n: u64) -> u64 {
    let mut r = (n as f64).sqrt() as u64;
    while r as u128 * r as u128 > n as u128 {
        r -= 1;
    }
    while (r as u128 + 1) * (r as u128 + 1) <= n as u128 {
        r += 1;
    }
    r
}

/// (sum, count) of the primes up to n: two flat arrays indexed by n/i and i, u128 sums
pub fn lucy(n: u64) -> (u128, u64) {
    if n < 2 {
        return (0, 0);
    }
    let r = isqrt(n) as usize;
    let tri = |x: u64| -> u128 {
        let x = x as u128;
        x * (x + 1) / 2 - 1
    };
    let mut ss: Vec<u128> = (0..=r as u64).map(|i| if i == 0 { 0 } else { tri(i) }).collect();
    let mut cs: Vec<u64> = (0..=r as u64).map(|i| i.saturating_sub(1)).collect();
    let mut sl: Vec<u128> = (0..=r as u64).map(|i| if i == 0 { 0 } else { tri(n / i) }).collect();
    let mut cl: Vec<u64> = (0..=r as u64).map(|i| if i == 0 { 0 } else { n / i - 1 }).collect();
    for p in 2..=r {
        if cs[p] == cs[p - 1] {
            continue;
        }
        let (sp, cp) = (ss[p - 1], cs[p - 1]);
        let p2 = (p * p) as u64;
        let end = r.min((n / p2) as usize);
        for i in 1..=end {
            let d = i * p;
            let (s, c) = if d <= r { (sl[d], cl[d]) } else { let k = (n / d as u64) as usize; (ss[k], cs[k]) };
            sl[i] -= p as u128 * (s - sp);
            cl[i] -= c - cp;
        }
        let mut i = r;
        while i as u64 >= p2 {
            let (s, c) = (ss[i / p], cs[i / p]);
            ss[i] -= p as u128 * (s - sp);
            cs[i] -= c - cp;
            i -= 1;
        }
    }
    (sl[1], cl[1])
}

/// published values at 10^k (OEIS A006880, A046731)
pub const PI10: [&str; 28] = [
    "0", "4", "25", "168", "1229", "9592", "78498", "664579", "5761455", "50847534", "455052511", "4118054813",
    "37607912018", "346065536839", "3204941750802", "29844570422669", "279238341033925", "2623557157654233",
    "24739954287740860", "234057667276344607", "2220819602560918840", "21127269486018731928", "201467286689315906290",
    "1925320391606803968923", "18435599767349200867866", "176846309399143769411680", "1699246750872437141327603",
    "16352460426841680446427399",
];
pub const SUM10: [&str; 26] = [
    "0", "17", "1060", "76127", "5736396", "454396537", "37550402023", "3203324994356", "279209790387276",
    "24739512092254535", "2220822432581729238", "201467077743744681014", "18435588552550705911377",
    "1699246443377779418889494", "157589260710736940541561021", "14692398516908006398225702366",
    "1376110854313351899159632866552", "129408626276669278966252031311350", "12212914292949226570880576733896687",
    "1156251260549368082781614413945980126", "109778913483063648128485839045703833541",
    "10449550362130704786220283253063405651965", "996973504763259668279213971353794878368213",
    "95320530117168404458544684912403185555509650", "9131187511156941634384410084928380134453142199",
    "876268031750623105684911815303505535704119354853",
];

pub fn log10_exact(n: &BigInt) -> Option<usize> {
    let s = n.to_string();
    if s.starts_with('1') && s[1..].bytes().all(|c| c == b'0') { Some(s.len() - 1) } else { None }
}
