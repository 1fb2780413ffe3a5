use crate::case::Case::{self, *};
use crate::refs;
use crate::rng::Rng;
use crate::words::words;
use num::bigint::{BigInt, BigUint};
use num::{Integer, One, Signed, ToPrimitive, Zero};
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
    /// interpreters and slow builds
    Tiny,
}

fn bi(x: i64) -> BigInt {
    BigInt::from(x)
}
fn p10(k: usize) -> BigInt {
    BigInt::from_str(&format!("1{}", "0".repeat(k))).unwrap()
}

/// constants that the source has and the tree this was written against has not, and their neighbours
fn new_numbers(limit: u64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for s in words().nums.new.iter().take(60) {
        if let Ok(n) = s.parse::<u64>() {
            for x in [n.saturating_sub(2), n.saturating_sub(1), n, n.saturating_add(1), n.saturating_add(2), n.saturating_mul(2), n.saturating_mul(2).saturating_add(1)] {
                if x <= limit && !v.contains(&x) {
                    v.push(x);
                }
            }
        }
    }
    v
}
/// small numbers that become `n` when cut to 32 or 64 bits
fn aliases(n: &BigInt) -> Vec<BigInt> {
    let mut v = vec![];
    for k in [32usize, 64, 96, 128, 256] {
        for f in 1..4u32 {
            v.push(n + (BigInt::from(f) << k));
            v.push(n - (BigInt::from(f) << k));
        }
    }
    v
}

/// numbers of one to five words with regular shapes, either sign
pub fn shaped() -> Vec<BigInt> {
    let mut v = vec![];
    for w in [16usize, 32, 64, 128, 256] {
        for k in [1i64, 3, 5, 10] {
            v.push(bi(k) << w); // zero low words
            v.push((bi(k) << w) + k); // equal outer words, zeros between
            v.push((bi(1) << w) - k);
        }
        v.push(((bi(1) << w) - 1) << w); // ones above zeros
        v.push((bi(0x8000_0001) << w) + 0x8000_0001i64);
        v.push((bi(1) << (2 * w)) - (bi(1) << w) + 1); // low word one, ones above
    }
    for (b, e) in [(3i64, 41usize), (5, 28), (7, 23), (10, 9), (10, 18), (10, 19), (10, 20), (10, 38), (6, 50), (15, 33)] {
        v.push(num::pow(bi(b), e));
        v.push(num::pow(bi(b), e) + 1);
    }
    let neg: Vec<BigInt> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v
}

pub fn edge_ints() -> Vec<BigInt> {
    let mut v: Vec<BigInt> = (-3..=3).map(bi).collect();
    for k in [7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128, 192] {
        let p = BigInt::one() << k;
        for d in -1..=1 {
            v.push(&p + d);
            v.push(-&p + d);
        }
    }
    v.push(BigInt::from_str("123456789012345678901234567890123456789").unwrap());
    v.push(p10(60));
    v
}

pub fn power(t: Tier, r: &mut Rng, c: &mut Vec<Case>) {
    let (bmax, emax, rnd) = match t {
        Tier::Quick => (100, 200u64, 120_000),
        Tier::Thorough => (200, 500, 400_000),
        Tier::Tiny => (4, 6, 10),
    };
    for a in -bmax..=bmax {
        for b in 0..=emax {
            c.push(Power(bi(a), BigUint::from(b)));
        }
    }
    let edges = edge_ints();
    for a in &edges {
        for b in 0..if t == Tier::Tiny { 4u64 } else { 40 } {
            c.push(Power(a.clone(), BigUint::from(b)));
        }
        // exponents at and beyond the 32-bit boundary
        for k in [32usize, 33, 63, 64, 65, 96, 128, 200] {
            for d in 0..4u32 {
                c.push(Power(a.clone(), (BigUint::one() << k) + d));
            }
        }
        if t == Tier::Tiny && c.len() > 150 {
            break;
        }
    }
    for a in [-1i64, 0, 1] {
        for e in [255u64, 256, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX as u64 - 1, u32::MAX as u64] {
            c.push(Power(bi(a), BigUint::from(e)));
        }
    }
    if t != Tier::Tiny {
        // exponents with every pattern around powers of two
        for k in 3..if t == Tier::Quick { 16u32 } else { 20 } {
            for d in [-1i64, 0, 1] {
                for a in [2i64, -2, 3, -3, 10, -7, 255, 256] {
                    c.push(Power(bi(a), BigUint::from(((1i64 << k) + d) as u64)));
                }
            }
        }
    }
    if t != Tier::Tiny {
        // results of many words: powers of two and others, exponents around and between round numbers
        for k in 16..=20u32 {
            for d in [-1i64, 0, 1] {
                for a in [2i64, -2, 4, -3] {
                    if k < 18 || a.abs() == 2 || d == 1 {
                        c.push(Power(bi(a), BigUint::from(((1i64 << k) + d) as u64)));
                    }
                }
            }
        }
        for _ in 0..60 {
            c.push(Power(bi(*r.pick(&[2, -2, 3, -3, 4, 8, 10, -16, 256, 65536, -65536, 1 << 32])), BigUint::from(r.range(10_000, 100_000))));
        }
        for _ in 0..400 {
            let n = *r.pick(&[1500u64, 4000, 8000, 20_000]);
            let a = r.int(n);
            c.push(Power(a, BigUint::from(r.below(300_000 / n))));
        }
    }
    if t != Tier::Tiny {
        // every exponent of a long stretch, for few bases
        for b in 0..if t == Tier::Quick { 1500u64 } else { 6000 } {
            for a in [2i64, -2, 3, -5, 6, 10, -10, 13, 256, -65_537] {
                c.push(Power(bi(a), BigUint::from(b)));
            }
        }
        // exponents with few one bits, and round ones
        for i in 0..17u32 {
            for j in i + 1..18 {
                for a in [2i64, -3, 7] {
                    c.push(Power(bi(a), BigUint::from((1u64 << i) + (1 << j))));
                    if j < 15 {
                        c.push(Power(bi(-a * 5), BigUint::from((1u64 << j) - (1 << i))));
                    }
                }
            }
        }
        for k in 1..=24u64 {
            c.push(Power(bi(2), BigUint::from(k << 16)));
            c.push(Power(bi(-2), BigUint::from((k << 16) + 1)));
            c.push(Power(bi(if k % 2 == 0 { 3 } else { -6 }), BigUint::from((k << 15) + k % 3)));
            c.push(Power(bi(10), BigUint::from(k * 1000)));
        }
        // bases of few words with a shape: powers, trailing zero words, runs of ones
        for a in shaped() {
            for b in [2u64, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129] {
                c.push(Power(a.clone(), BigUint::from(b)));
            }
        }
    }
    for _ in 0..rnd {
        let a = r.int(if t == Tier::Tiny { 80 } else { 700 });
        // bounded result size
        let cap = (if t == Tier::Quick { 60_000 } else if t == Tier::Tiny { 400 } else { 400_000 }) / (a.bits() as u64 + 1);
        let e = if r.chance(1, 8) { r.below(u32::MAX as u64) } else { r.below(cap + 2) };
        if a.abs() > BigInt::one() && e > cap + 2 {
            // would be huge: use an exponent beyond the supported range instead
            let e = r.nat(300) + (BigUint::one() << 32);
            c.push(Power(a, e));
        } else {
            c.push(Power(a, BigUint::from(e)));
        }
    }
    for _ in 0..rnd / 4 {
        c.push(Power(r.int(200), r.nat(200).max(BigUint::one() << 32)));
    }
}

pub fn gcdlike(t: Tier, r: &mut Rng, c: &mut Vec<Case>, mk: &dyn Fn(BigInt, BigInt) -> Case, zero_b: bool) {
    let (box_, rnd) = match t {
        Tier::Quick => (400i64, 400_000),
        Tier::Thorough => (1000, 1_500_000),
        Tier::Tiny => (5, 20),
    };
    for a in -box_..=box_ {
        for b in -box_..=box_ {
            if b != 0 || zero_b {
                c.push(mk(bi(a), bi(b)));
            }
        }
    }
    let e = edge_ints();
    let step = if t == Tier::Tiny { 17 } else { 1 };
    for a in e.iter().step_by(step) {
        for b in e.iter().step_by(step) {
            if zero_b || !b.is_zero() {
                c.push(mk(a.clone(), b.clone()));
            }
        }
    }
    let many = if t == Tier::Tiny { 0 } else { 400 };
    for i in 0..rnd + many {
        let bits = match t {
            Tier::Tiny => *r.pick(&[20u64, 70]),
            _ if i < many => *r.pick(&[3000, 4100, 6000, 8200, 12_000]),
            _ => *r.pick(&[8u64, 33, 64, 65, 130, 600, 2000]),
        };
        let (mut a, mut b) = (r.int(bits), r.nonzero(bits));
        match i % 5 {
            // common factor
            0 => {
                let g = r.nonzero(bits / 2 + 2);
                a = a * &g;
                b = b * &g;
            }
            // consecutive / nearly equal
            1 => a = &b + r.int(8),
            // one divides the other
            2 => {
                a = &b * r.int(40);
                if r.chance(1, 2) && !a.is_zero() {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        c.push(mk(a, b));
    }
    if t != Tier::Tiny {
        // shaped operands against each other and against small ones
        let sh = shaped();
        for a in &sh {
            for b in &sh {
                c.push(mk(a.clone(), b.clone()));
            }
            for b in -40i64..=40 {
                if b != 0 || zero_b {
                    c.push(mk(a.clone(), bi(b)));
                    if !a.is_zero() {
                        c.push(mk(bi(b), a.clone()));
                    }
                }
            }
        }
        for i in 0..rnd / 8 {
            let bits = *r.pick(&[33u64, 66, 100, 200, 500]);
            let x = r.nonzero(bits);
            let w = *r.pick(&[31usize, 32, 33, 63, 64, 65, 96, 128]);
            let k = BigInt::from(r.range(1, 5)) << w;
            let (a, b) = match i % 8 {
                // operands that agree once cut to a word
                0 => (x.clone(), &x + &k),
                1 => (&x - &k, x.clone()),
                // equal, opposite, one apart
                2 => (x.clone(), if r.chance(1, 2) { x.clone() } else { -&x }),
                3 => (&x + 1, if r.chance(1, 2) { x.clone() } else { -&x }),
                // gcd of exactly a power of two, of a word boundary or of any size
                4 => (&x << w, (r.nonzero(bits) * 2 + 1) << (w + r.below(3) as usize)),
                // an inverse or a cofactor at the end of its range: x * y = ±1 mod b
                5 => {
                    let y = r.nonzero(bits);
                    (x.clone(), &x * y + if r.chance(1, 2) { 1 } else { -1 })
                }
                // quotients of more than a word
                6 => (&x * (&k + r.below(9)) + r.below(1 << 20), x.clone()),
                // a power of two against anything
                _ => (x.clone(), BigInt::one() << r.range(1, bits) as usize),
            };
            if !b.is_zero() || zero_b {
                c.push(mk(a.clone(), b.clone()));
            }
            if !a.is_zero() || zero_b {
                c.push(mk(b, a));
            }
        }
    }
    // worst case for Euclid
    let mut f = (BigInt::one(), BigInt::one());
    for i in 0..if t == Tier::Tiny { 40 } else { 400 } {
        f = (f.1.clone(), &f.0 + &f.1);
        c.push(mk(f.0.clone(), f.1.clone()));
        if i % 7 == 0 {
            c.push(mk(-&f.1, f.0.clone()));
        }
    }
}

pub fn inverse(t: Tier, r: &mut Rng, c: &mut Vec<Case>) {
    gcdlike(t, r, c, &Inv, false);
}

pub fn division(t: Tier, r: &mut Rng, c: &mut Vec<Case>) {
    let (bx, rnd) = match t {
        Tier::Quick => (60i64, 500_000),
        Tier::Thorough => (90, 2_000_000),
        Tier::Tiny => (2, 30),
    };
    for m in -bx..=bx {
        if m == 0 {
            continue;
        }
        for a in -bx..=bx {
            for b in -bx..=bx {
                c.push(Div(bi(a), bi(b), bi(m)));
            }
        }
    }
    let e = edge_ints();
    let step = if t == Tier::Quick { 4 } else if t == Tier::Tiny { 30 } else { 2 };
    for a in e.iter().step_by(step) {
        for b in e.iter() {
            for m in e.iter().step_by(step) {
                if !m.is_zero() && (t != Tier::Tiny || c.len() < 180) {
                    c.push(Div(a.clone(), b.clone(), m.clone()));
                }
            }
        }
    }
    let many = if t == Tier::Tiny { 0 } else { 400 };
    for i in 0..rnd + many {
        let bits = match t {
            Tier::Tiny => *r.pick(&[20u64, 70]),
            _ if i < many => *r.pick(&[2000, 4100, 8200]),
            _ => *r.pick(&[6u64, 12, 33, 64, 130, 700]),
        };
        let (mut a, mut b, mut m) = (r.int(bits), r.int(bits), r.nonzero(bits));
        match i % 9 {
            // solvable with a non-trivial gcd
            0 | 1 => {
                let g = r.nonzero(bits / 2 + 2);
                b = b * &g;
                m = m * &g;
                a = &b * r.int(bits) + &m * r.int(bits);
            }
            // gcd(b, m) > 1, a arbitrary: mostly unsolvable
            2 => {
                let g = r.nonzero(bits / 2 + 2);
                b = b * &g;
                m = m * &g;
            }
            3 => b = &m * r.int(20),
            // arguments that agree once cut to a word, equal ones, multiples of the modulus
            6 => {
                let k = BigInt::from(r.range(1, 5)) << *r.pick(&[31usize, 32, 63, 64, 65, 128]);
                match r.below(4) {
                    0 => b = &a + &k,
                    1 => m = &b + &k,
                    2 => a = &m + &k,
                    _ => {
                        b = &m + &k;
                        a = &b * r.int(20);
                    }
                }
            }
            7 => match r.below(4) {
                0 => b = a.clone(),
                1 => a = &m * r.int(20),
                2 => b = -&a,
                _ => b = &m + if r.chance(1, 2) { 1 } else { -1 },
            },
            8 => m = BigInt::one() << r.range(0, bits) as usize,
            _ => {}
        }
        if !m.is_zero() {
            c.push(Div(a, b, m));
        }
    }
}

fn two(r: &mut Rng, k: usize) -> (usize, usize) {
    let a = r.below(k as u64) as usize;
    let b = (a + 1 + r.below(k as u64 - 1) as usize) % k;
    (a, b)
}

pub fn crt(t: Tier, r: &mut Rng, c: &mut Vec<Case>) {
    let (rnd, maxk) = match t {
        Tier::Quick => (150_000, 16),
        Tier::Thorough => (900_000, 40),
        Tier::Tiny => (12, 4),
    };
    c.push(Crt(vec![], vec![]));
    // exhaustive small systems
    let lim = if t == Tier::Tiny { 3 } else if t == Tier::Quick { 9i64 } else { 14 };
    for m in -lim..=lim {
        for u in -lim - 2..=lim + 2 {
            if m != 0 {
                c.push(Crt(vec![bi(u)], vec![bi(m)]));
            }
        }
    }
    if t != Tier::Tiny {
        for m1 in -lim..=lim {
            for m2 in -lim..=lim {
                for u1 in -3..=lim {
                    for u2 in -2..=4 {
                        if m1 != 0 && m2 != 0 {
                            c.push(Crt(vec![bi(u1), bi(u2)], vec![bi(m1), bi(m2)]));
                        }
                    }
                }
            }
        }
    }
    if t != Tier::Tiny {
        // three moduli, small, all signs
        for m1 in -5..=5i64 {
            for m2 in -5..=7i64 {
                for m3 in -5..=5i64 {
                    if m1 != 0 && m2 != 0 && m3 != 0 {
                        for u in [[0i64, 0, 0], [1, 1, 1], [-1, -1, -1], [0, 1, 2], [4, -3, 2], [0, 0, 1], [1, 0, 0], [7, 11, -13]] {
                            c.push(Crt(u.iter().map(|x| bi(*x)).collect(), vec![bi(m1), bi(m2), bi(m3)]));
                        }
                    }
                }
            }
        }
        // one large modulus among small ones, at every place; residues at the ends of their ranges
        let ps = refs::Sieve::new(100).primes;
        for k in 2..9usize {
            for at in 0..k {
                for w in [31usize, 32, 61, 63, 64, 89, 127, 128, 521] {
                    let mut m: Vec<BigInt> = ps[3..3 + k].iter().map(|p| BigInt::from(*p)).collect();
                    m[at] = (BigInt::one() << w) + r.below(3);
                    for kind in 0..4 {
                        let u = m
                            .iter()
                            .enumerate()
                            .map(|(i, x)| match kind {
                                0 => x - 1u32,
                                1 => if i == at { x - 1u32 } else { BigInt::zero() },
                                2 => if i == at { BigInt::zero() } else { BigInt::one() },
                                _ => r.int(80),
                            })
                            .collect();
                        c.push(Crt(u, m.clone()));
                    }
                }
            }
        }
    }
    // mismatched lengths
    for a in 0..6usize {
        for b in 0..6usize {
            if a != b {
                let u: Vec<BigInt> = (0..a).map(|i| bi(i as i64)).collect();
                let m: Vec<BigInt> = [2i64, 3, 5, 7, 11, 13][..b].iter().map(|x| bi(*x)).collect();
                c.push(Crt(u, m));
            }
        }
    }
    let primes = refs::Sieve::new(2000).primes;
    for i in 0..rnd {
        let lengths = if t != Tier::Tiny && r.chance(1, 30) { new_numbers(120) } else { vec![] };
        let k = match lengths.len() {
            0 if t != Tier::Tiny && r.chance(1, 60) => r.range(17, 80) as usize,
            0 if t != Tier::Tiny && r.chance(1, 3000) => r.range(81, 300) as usize,
            0 => r.range(1, maxk) as usize,
            _ => (*r.pick(&lengths)).max(1) as usize,
        };
        let mut m: Vec<BigInt> = Vec::new();
        let mut prod = BigInt::one();
        let wide = t != Tier::Tiny && k < 6 && r.chance(1, 100);
        let mut used = std::collections::BTreeSet::new();
        while m.len() < k {
            let x = match r.below(6) {
                // unit moduli
                0 if r.chance(1, 4) => BigInt::one(),
                // distinct primes and their powers
                0..=2 => {
                    let p = *r.pick(&primes);
                    let mut x = BigInt::from(p);
                    for _ in 0..r.below(4) {
                        x *= p;
                    }
                    x
                }
                3 => BigInt::from(r.range(2, 1000)),
                4 => BigInt::from(r.next() | 1),
                _ if wide => r.nonzero(4100),
                _ => r.nonzero(if t == Tier::Tiny { 70 } else { 200 }),
            };
            let x = if r.chance(1, 5) { -x.abs() } else { x.abs() };
            if x.is_zero() || !refs::gcd(&x, &prod).is_one() || (!x.abs().is_one() && !used.insert(x.abs())) {
                continue;
            }
            prod *= &x;
            m.push(x);
        }
        let bits = prod.bits() as u64 + 10;
        let secret = r.int(bits);
        let mut u: Vec<BigInt> = m
            .iter()
            .map(|mi| match i % 3 {
                0 => secret.mod_floor(&mi.abs()),
                1 => &secret + mi * r.int(40),
                _ => r.int(*[4u64, 70, 200].get((i % 9 / 3) as usize).unwrap()),
            })
            .collect();
        match i % 23 {
            // not pairwise coprime: consistent or not
            0 if k > 1 => {
                let f = BigInt::from(r.range(2, 30));
                let (a, b) = two(r, k);
                m[a] *= &f;
                m[b] *= &f;
                if r.chance(1, 2) {
                    u = m.iter().map(|mi| secret.mod_floor(&mi.abs())).collect();
                }
            }
            1 if k > 1 => {
                let (a, b) = two(r, k);
                m[a] = m[b].clone();
            }
            // different lengths
            2 => {
                u.pop();
            }
            3 => u.push(r.int(30)),
            _ => {}
        }
        c.push(Crt(u, m));
    }
}

fn beyond() -> Vec<BigInt> {
    let mut v = vec![];
    for k in [63usize, 64, 65, 127, 128, 129, 192, 256, 1000] {
        for d in 0..3u32 {
            v.push((BigInt::one() << k) + d);
        }
    }
    v.push(p10(20));
    v.push(p10(40));
    v
}

pub fn factorial(t: Tier, r: &mut Rng, c: &mut Vec<Case>) {
    let (ex, rnd, big): (u64, u64, &[u64]) = match t {
        Tier::Quick => (3000, 150, &[4095, 4096, 4097, 9999, 10000, 16383, 16384, 16385, 20000, 25_000, 30_000, 40_000, 45_678, 60_000, 80_000, 120_000, 150_000, 200_001, 32767, 32768, 50000, 65535, 65536, 65537, 65544, 70_001, 99_999, 131_072, 131_073]),
        Tier::Thorough => (8000, 600, &[16384, 32768, 65535, 65536, 65537, 100_000, 131_071, 131_072, 150_000, 200_001, 262_143, 262_144, 262_145, 300_000]),
        Tier::Tiny => (24, 0, &[40]),
    };
    for n in 0..=ex {
        c.push(FactU(n));
        c.push(FactI(BigInt::from(n)));
    }
    for n in big {
        c.push(FactU(*n));
        c.push(FactI(BigInt::from(*n)));
    }
    for _ in 0..rnd {
        let n = r.range(ex, 12_000);
        c.push(FactU(n));
        c.push(FactI(BigInt::from(r.range(ex, 12_000))));
    }
    for _ in 0..rnd / 5 {
        c.push(FactU(r.range(12_000, 45_000)));
        c.push(FactI(BigInt::from(r.range(12_000, 45_000))));
    }
    if t != Tier::Tiny {
        let (small, large): (Vec<u64>, Vec<u64>) = new_numbers(150_000).into_iter().partition(|n| *n < 20_000);
        for n in small.into_iter().chain(large.into_iter().take(14)) {
            c.push(FactU(n));
            c.push(FactI(BigInt::from(n)));
        }
        for n in (0..40).chain(new_numbers(u64::MAX)) {
            for x in aliases(&BigInt::from(n)) {
                if x.is_negative() || x.bits() > 63 {
                    c.push(FactI(x));
                }
            }
        }
    }
    for b in beyond() {
        c.push(FactI(-&b));
        c.push(FactI(&b * 2u32 + 1u32));
        c.push(FactI(b));
    }
    for n in 1..if t == Tier::Tiny { 20i64 } else { 2000 } {
        c.push(FactI(bi(-n)));
    }
    for _ in 0..rnd * 20 {
        c.push(FactI(-r.nonzero(300).abs()));
        c.push(FactI((BigInt::one() << 63) + r.nonzero(300).abs()));
    }
    for d in -3..=3i64 {
        c.push(FactI(BigInt::from(i64::MIN) + d));
        c.push(FactI(BigInt::from(i32::MIN) + d));
    }
}

pub fn fibonacci(t: Tier, r: &mut Rng, c: &mut Vec<Case>) {
    let (exq, exf, rnd, bigq, bigf): (u64, u64, u64, &[u64], &[u64]) = match t {
        Tier::Quick => (24_000, 6000, 6000, &[1 << 20, (1 << 20) + 1, 1_000_000, 1_234_567, 1 << 21, (1 << 21) - 1, 2_000_003, 3_000_000, 1 << 22, 4_194_305, 5_000_001], &[20_000, 40_000, 50_001, 32_768, 65_536, 65_537, 100_000]),
        Tier::Thorough => (60_000, 12_000, 10_000, &[1 << 22, (1 << 22) - 1, 5_000_000, 9_999_999, 10_000_000], &[100_000, 131_072, 250_000]),
        Tier::Tiny => (40, 40, 0, &[1000], &[100]),
    };
    for n in 0..=exq {
        c.push(FibFast(n));
        c.push(FibI(BigInt::from(n)));
        c.push(FibI(-BigInt::from(n)));
    }
    for n in 0..=exf {
        c.push(FibFold(n));
    }
    for n in bigq {
        c.push(FibFast(*n));
        c.push(FibI(-BigInt::from(*n)));
        c.push(FibI(BigInt::from(*n)));
    }
    for n in bigf {
        c.push(FibFold(*n));
        c.push(FibFast(*n));
    }
    if t != Tier::Tiny {
        for _ in 0..40 {
            let n = r.range(300_000, 3_000_000);
            c.push(FibFast(n));
            c.push(FibI(if r.chance(1, 2) { BigInt::from(n) } else { -BigInt::from(n) }));
        }
        // indices with few one bits
        for i in 0..18u64 {
            for j in i + 1..19 {
                c.push(FibFast((1 << i) + (1 << j)));
                c.push(FibI(-BigInt::from((1u64 << j) - (1 << i))));
            }
        }
        for k in 12..20u64 {
            for d in 0..9 {
                let n = (1u64 << k) + d - 4;
                c.push(FibFast(n));
                c.push(FibI(-BigInt::from(n)));
            }
        }
    }
    for _ in 0..rnd {
        let n = r.loguni(19);
        c.push(FibFast(n));
        c.push(FibFold(n % 10_000));
        let n = BigInt::from(r.loguni(18));
        c.push(FibI(if r.chance(1, 2) { -n } else { n }));
    }
    if t != Tier::Tiny {
        let (small, large): (Vec<u64>, Vec<u64>) = new_numbers(3_000_000).into_iter().partition(|n| *n < 50_000);
        for n in small.into_iter().chain(large.into_iter().take(14)) {
            c.push(FibFast(n));
            c.push(FibI(BigInt::from(n)));
            c.push(FibI(-BigInt::from(n)));
            if n <= 100_000 {
                c.push(FibFold(n));
            }
        }
        for n in (0..40).chain(new_numbers(u64::MAX)) {
            for x in aliases(&BigInt::from(n)) {
                if x.bits() > 64 {
                    c.push(FibI(x));
                }
            }
        }
    }
    for b in beyond() {
        if b > BigInt::from(u64::MAX) {
            c.push(FibI(-&b));
        }
        c.push(FibI(-&b * 3u32));
        c.push(FibI(b));
    }
}

pub fn prime_sum(t: Tier, r: &mut Rng, c: &mut Vec<Case>) {
    let (ex, rnd, rbits): (u64, u64, u64) = match t {
        Tier::Quick => (70_000, 1800, 28),
        Tier::Thorough => (250_000, 6000, 31),
        Tier::Tiny => (60, 0, 0),
    };
    for n in 0..=ex {
        c.push(PsumU(n));
        if n < 3000 || n % 16 == 0 {
            c.push(PsumI(BigInt::from(n)));
        }
    }
    let s = refs::Sieve::new(200_000);
    for _ in 0..rnd {
        let n = r.loguni(rbits);
        c.push(PsumU(n));
        let n = r.loguni(rbits);
        c.push(PsumI(BigInt::from(n)));
        // squares of primes and their neighbours, products of neighbouring primes
        let mut top = if t == Tier::Quick { 1800 } else { 3500 };
        for _ in 0..2 {
            top = r.range(1, top);
        }
        let p = s.primes[r.below(top) as usize];
        c.push(PsumU(p * p + r.below(3) - 1));
        let q = s.primes[r.below(s.primes.len() as u64) as usize];
        c.push(PsumU(q + r.below(3) - 1));
        let top = r.range(200, if t == Tier::Quick { 15_000 } else { 40_000 });
        let k = {
            let top = r.range(200, top);
            r.range(200, top)
        };
        c.push(PsumI(BigInt::from(k * k + r.below(3) - 1)));
        c.push(PsumU(k * (k + 1) + r.below(3) - 1));
    }
    if t != Tier::Tiny {
        for k in 16..=if t == Tier::Quick { 32 } else { 34 } {
            let mut ds = vec![0u64, 1];
            if k == 32 || k < 28 {
                ds.push(2);
            }
            for d in ds {
                c.push(PsumU((1u64 << k) + d - 1));
            }
            if k <= 33 {
                c.push(PsumI(BigInt::from((1u64 << k) + 1)));
            }
        }
        // where the quotients n / i change over from one to the other: roots of many one bits, of few, and round ones
        let roots = (2..=15u32).flat_map(|j| [(1u64 << j) - 1, (1 << j) + 1, (3 << j) >> 1, 5 << j >> 2]).chain((1..=4).flat_map(|j| [10u64.pow(j), 10u64.pow(j) - 1, 2 * 10u64.pow(j)]));
        for k in roots {
            for d in [0, k - 1, k, 2 * k] {
                c.push(PsumU(k * k + d));
            }
        }
        c.push(PsumU(65_535 * 65_535 + r.below(65_535)));
        c.push(PsumU(65_537 * 65_537 + r.below(65_537)));
        for k in 5..=9 {
            for d in -1..=1 {
                c.push(PsumI(p10(k) + d));
            }
            c.push(PsumU(10u64.pow(k as u32)));
        }
        c.push(PsumU(4_300_000_000));
        c.push(PsumU(6_074_001_000)); // n*n/2 crosses 2^64
        c.push(PsumI(BigInt::from(9_999_999_999u64)));
        c.push(PsumU(10_000_000_000));
        c.push(PsumU(r.range(1 << 32, 1 << 33)));
        c.push(PsumI(BigInt::from(r.range(1 << 32, 1 << 33))));
        // beyond 2^33, up to the largest whose sum fits 64 bits, and beyond with big results
        if t == Tier::Quick {
            for n in [16_777_216_007u64, 20_000_000_000, 25_769_803_776, 29_500_000_000] {
                c.push(PsumU(n));
            }
            for _ in 0..4 {
                c.push(PsumU(r.range(1 << 33, 29_500_000_000)));
                c.push(PsumI(BigInt::from(r.range(1 << 33, 45_000_000_000))));
            }
            c.push(PsumI(BigInt::from(30_000_000_000u64)));
            c.push(PsumI(BigInt::from(34_359_738_368u64)));
            c.push(PsumI(BigInt::from(50_000_000_000u64)));
            c.push(PsumI(BigInt::from(r.range(68_719_476_736, 75_000_000_000)))); // sieving primes beyond 2^18
            c.push(PsumI(BigInt::from(99_999_999_999u64)));
        }
        if t == Tier::Thorough {
            c.push(PsumU(29_000_000_000));
            c.push(PsumU(29_500_000_000));
            c.push(PsumI(BigInt::from(40_000_000_000u64)));
            c.push(PsumI(BigInt::from(99_999_999_999u64)));
            for _ in 0..40 {
                c.push(PsumU(r.range(1 << 32, 28_000_000_000)));
                c.push(PsumI(BigInt::from(r.range(1 << 32, 60_000_000_000))));
            }
        }
    }
    if t != Tier::Tiny {
        let (small, large): (Vec<u64>, Vec<u64>) = new_numbers(1 << 32).into_iter().partition(|n| *n < 1 << 26);
        for n in small.into_iter().chain(large.into_iter().take(10)) {
            c.push(PsumU(n));
            c.push(PsumI(BigInt::from(n)));
        }
        for n in (0..20).map(BigInt::from).chain((0..=27).map(p10)) {
            for x in aliases(&n) {
                if x.is_negative() || x.bits() > 64 {
                    c.push(PsumI(x));
                }
            }
        }
    }
    for k in 0..=25 {
        c.push(PsumI(p10(k)));
        c.push(PsumI(-p10(k)));
    }
    for k in 26..32 {
        c.push(PsumI(p10(k)));
    }
    for k in 20..=26 {
        for d in [-1i32, 1] {
            c.push(PsumI(p10(k) + d));
        }
    }
    for b in beyond() {
        if b >= BigInt::one() << 64 {
            c.push(PsumI(b.clone()));
        }
        c.push(PsumI(-b));
    }
    for n in 1..40 {
        c.push(PsumI(bi(-n)));
    }
    // the long ones first, so that none of them is left alone at the end
    c.sort_by_key(|x| std::cmp::Reverse(match x {
        PsumU(n) => n.checked_shr(30).unwrap_or(0),
        PsumI(n) => n.to_u64().map_or(0, |n| n >> 30),
        _ => 0,
    }));
}

pub fn prime_count(t: Tier, r: &mut Rng, c: &mut Vec<Case>) {
    let (ex, rnd) = match t {
        Tier::Quick => (150_000i64, 20_000),
        Tier::Thorough => (300_000, 60_000),
        Tier::Tiny => (12, 3),
    };
    for n in -40..=ex {
        c.push(Pcount(bi(n)));
    }
    for k in 0..=40 {
        let p = p10(k);
        for d in -2..=2i32 {
            c.push(Pcount(&p + d));
        }
        c.push(Pcount(-&p));
        for f in [2u32, 3, 5, 9, 11, 20] {
            c.push(Pcount(&p * f));
        }
        c.push(Pcount(&p / 2u32));
        for x in aliases(&p) {
            c.push(Pcount(x));
        }
    }
    for n in new_numbers(u64::MAX) {
        c.push(Pcount(BigInt::from(n)));
        c.push(Pcount(-BigInt::from(n)));
    }
    for b in beyond().into_iter().chain(edge_ints()) {
        c.push(Pcount(-&b));
        c.push(Pcount(b));
    }
    for _ in 0..rnd {
        c.push(Pcount(BigInt::from(r.loguni(if t == Tier::Thorough { 34 } else { 28 }))));
        c.push(Pcount(r.int(120)));
    }
}

/// hostile arguments for every entry point; each of them is answered within milliseconds by a reasonable implementation
pub fn hostile(t: Tier, r: &mut Rng, c: &mut Vec<Case>) {
    let e = edge_ints();
    let tiny = t == Tier::Tiny;
    let huge_bits: &[u64] = if tiny { &[200] } else { &[500, 2000, 8000, 20_000] };
    let mut wide = e.clone();
    for b in huge_bits {
        for _ in 0..if tiny { 1 } else { 3 } {
            wide.push(r.int(*b));
            wide.push(BigInt::from(r.bits(*b as usize)));
            wide.push(-BigInt::from(r.bits(*b as usize)));
        }
        wide.push(BigInt::one() << *b as usize);
    }
    let step = if tiny { 9 } else { 1 };
    for a in wide.iter().step_by(step) {
        for b in wide.iter().step_by(step) {
            c.push(Egcd(a.clone(), b.clone()));
            c.push(Coprime(a.clone(), b.clone()));
            if !b.is_zero() {
                c.push(Inv(a.clone(), b.clone()));
                c.push(Div(r.pick(&wide).clone(), a.clone(), b.clone()));
                c.push(Crt(vec![a.clone()], vec![b.clone()]));
                let x = r.pick(&wide).clone();
                c.push(Crt(vec![a.clone(), x.clone()], vec![b.clone(), x.abs() + 1u32]));
            }
        }
        // exponents: small, at the boundary for bases of magnitude 0 and 1, beyond it for all
        for k in [32usize, 63, 64, 65, 128, 1000] {
            c.push(Power(a.clone(), BigUint::one() << k));
            c.push(Power(a.clone(), (BigUint::one() << k) + 1u32));
        }
        if a.bits() < 300 {
            c.push(Power(a.clone(), BigUint::from(r.below(200))));
        }
        c.push(Power(a.clone(), BigUint::zero()));
        c.push(Power(a.clone(), BigUint::one()));
        let out = a.abs() > BigInt::from(u64::MAX);
        if a.is_negative() || out {
            c.push(FactI(a.clone()));
            c.push(PsumI(a.clone()));
        }
        if out {
            c.push(FibI(a.clone()));
        }
        if a.abs() < BigInt::from(70_000) {
            c.push(FibI(a.clone()));
            c.push(PsumI(a.clone()));
        }
        c.push(Pcount(a.clone()));
    }
    for a in [-1i64, 0, 1] {
        for e in [u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) + 1, 3_000_000_001] {
            c.push(Power(bi(a), BigUint::from(e)));
        }
    }
    if !tiny {
        for k in [16usize, 17, 18, 19, 20] {
            c.push(Power(bi(2), BigUint::from(1u32 << k)));
            c.push(Power(bi(-3), BigUint::from((1u32 << k) - 1)));
            c.push(FibFast(1 << k));
            c.push(FibI(BigInt::from(-(1i64 << k) + 1)));
        }
        c.push(Power(bi(2), BigUint::from(16_000_000u32)));
        for n in [1000u64, 5000, 10_000, 20_000] {
            c.push(FactU(n));
            c.push(FactI(BigInt::from(n)));
            c.push(FibFold(n));
        }
        for n in [1u64 << 20, 10_000_019, 100_000_007, 999_999_937, (1 << 32) - 1, 1 << 32, 5_000_000_029] {
            c.push(PsumU(n));
        }
        c.push(PsumU(10_000_000_000));
        // long systems
        let primes = refs::Sieve::new(6000).primes;
        for k in [50usize, 100, 200] {
            let m: Vec<BigInt> = primes[..k].iter().map(|p| BigInt::from(*p)).collect();
            let u: Vec<BigInt> = m.iter().map(|_| r.int(64)).collect();
            c.push(Crt(u.clone(), m.clone()));
            c.push(Crt(u[..k - 1].to_vec(), m.clone()));
            let mut m2 = m.clone();
            m2[k - 1] = m2[0].clone();
            c.push(Crt(u, m2));
        }
    }
    for k in 0..=5u64 {
        c.push(PsumU(k));
        c.push(FibFast(k));
        c.push(FibFold(k));
        c.push(FactU(k));
        c.push(FibI(BigInt::from(k)));
        c.push(FibI(-BigInt::from(k)));
        c.push(PsumI(BigInt::from(k)));
    }
    for k in 0..=30 {
        c.push(PsumI(-p10(k)));
        c.push(Pcount(p10(k)));
        c.push(Pcount(p10(k) + 1));
        if k < 10 || k > 19 {
            c.push(PsumI(p10(k)));
        }
    }
    c.push(Crt(vec![], vec![]));
    for a in 0..4usize {
        for b in 0..4usize {
            c.push(Crt((0..a).map(|i| bi(i as i64)).collect(), [2i64, 3, 5, 7][..b].iter().map(|x| bi(*x)).collect()));
        }
    }
}

/// a bit of everything, for cross-build comparison and for stress
pub fn mixed(t: Tier, seed: u64, per_op: usize) -> Vec<Case> {
    let mut out = Vec::new();
    let mut r = Rng::new(seed, 77);
    for g in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"] {
        let v = cases(g, t, seed);
        // keep only cases a slow build answers in reasonable time
        let lim: u64 = match t {
            Tier::Tiny => 3_000,
            _ => 6_000_000,
        };
        let cheap: Vec<Case> = v
            .into_iter()
            .filter(|c| match c {
                PsumU(n) => *n <= lim,
                PsumI(n) => {
                    n.is_negative() || n > &BigInt::from(u64::MAX) || n <= &BigInt::from(lim) || refs::log10_exact(n).is_some()
                }
                FactU(n) | FibFold(n) => *n <= 2500,
                FactI(n) => n.is_negative() || n > &BigInt::from(u64::MAX / 2) || n <= &BigInt::from(2500),
                FibFast(n) => *n <= 70_000,
                FibI(n) => n.abs() > BigInt::from(u64::MAX) || n.abs() <= BigInt::from(70_000),
                Power(a, b) => a.abs() <= BigInt::one() || b > &BigUint::from(u32::MAX) || BigUint::from(a.bits() as u64) * b < BigUint::from(100_000u32),
                Egcd(a, b) | Coprime(a, b) | Inv(a, b) => a.bits() + b.bits() < 3000,
                Div(a, b, m) => a.bits() + b.bits() + m.bits() < 3000,
                Crt(u, m) => m.len() < 60 && u.iter().chain(m).all(|x| x.bits() < 1000),
                Pcount(_) => true,
            })
            .collect();
        // as many of every function, whatever the numbers generated
        let mut by: std::collections::BTreeMap<String, Vec<Case>> = Default::default();
        for x in cheap {
            let name = x.to_string().split(' ').next().unwrap_or("").to_string();
            by.entry(name).or_default().push(x);
        }
        for (_, v) in by {
            if v.len() <= per_op {
                out.extend(v);
            } else {
                for _ in 0..per_op {
                    out.push(r.pick(&v).clone());
                }
            }
        }
    }
    // shuffle
    for i in (1..out.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        out.swap(i, j);
    }
    out
}

pub fn cases(prop: &str, t: Tier, seed: u64) -> Vec<Case> {
    let mut c = Vec::new();
    let n: u64 = prop[1..].parse().unwrap();
    let mut r = Rng::new(seed, n);
    match prop {
        "C01" => power(t, &mut r, &mut c),
        "C02" => {
            gcdlike(t, &mut r, &mut c, &Egcd, true);
            gcdlike(t, &mut r, &mut c, &Coprime, true);
        }
        "C03" => inverse(t, &mut r, &mut c),
        "C04" => division(t, &mut r, &mut c),
        "C05" => crt(t, &mut r, &mut c),
        "C06" => factorial(t, &mut r, &mut c),
        "C07" => fibonacci(t, &mut r, &mut c),
        "C08" => prime_sum(t, &mut r, &mut c),
        "C09" => prime_count(t, &mut r, &mut c),
        "C10" => hostile(t, &mut r, &mut c),
        _ => panic!("no generator for {}", prop),
    }
    c
}
