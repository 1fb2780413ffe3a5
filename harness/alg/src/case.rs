use crate::refs;
use num::bigint::{BigInt, BigUint};
use num::{Integer, One, Signed, ToPrimitive, Zero};
use std::fmt;
use std::str::FromStr;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Case {
    Power(BigInt, BigUint),
    Egcd(BigInt, BigInt),
    Coprime(BigInt, BigInt),
    Inv(BigInt, BigInt),
    Div(BigInt, BigInt, BigInt),
    Crt(Vec<BigInt>, Vec<BigInt>),
    FactU(u64),
    FactI(BigInt),
    FibFold(u64),
    FibFast(u64),
    FibI(BigInt),
    PsumU(u64),
    PsumI(BigInt),
    Pcount(BigInt),
}
use Case::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Int(BigInt),
    Pair(BigInt, Vec<BigInt>),
    Bool(bool),
    None,
    Err(String),
    Panic(String),
}

fn list(v: &[BigInt]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",")
}
fn unlist(s: &str) -> Option<Vec<BigInt>> {
    if s == "-" {
        return Some(vec![]);
    }
    s.split(',').map(|x| BigInt::from_str(x).ok()).collect()
}

impl fmt::Display for Case {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Power(a, b) => write!(f, "power {} {}", a, b),
            Egcd(a, b) => write!(f, "egcd {} {}", a, b),
            Coprime(a, b) => write!(f, "coprime {} {}", a, b),
            Inv(a, m) => write!(f, "inv {} {}", a, m),
            Div(a, b, m) => write!(f, "div {} {} {}", a, b, m),
            Crt(u, m) => write!(f, "crt {} {}", list(u), list(m)),
            FactU(n) => write!(f, "fact_u {}", n),
            FactI(n) => write!(f, "fact_i {}", n),
            FibFold(n) => write!(f, "fib_fold {}", n),
            FibFast(n) => write!(f, "fib_fast {}", n),
            FibI(n) => write!(f, "fib_i {}", n),
            PsumU(n) => write!(f, "psum_u {}", n),
            PsumI(n) => write!(f, "psum_i {}", n),
            Pcount(n) => write!(f, "pcount {}", n),
        }
    }
}

impl fmt::Display for Out {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Out::Int(i) => write!(f, "{}", i),
            Out::Pair(g, v) => write!(f, "({}; {})", g, list(v)),
            Out::Bool(b) => write!(f, "{}", b),
            Out::None => write!(f, "none"),
            Out::Err(e) => write!(f, "error {}", e),
            Out::Panic(e) => write!(f, "PANIC {}", e),
        }
    }
}
impl Out {
    /// short form for reports and for cross-build comparison of big results
    pub fn brief(&self) -> String {
        if let Out::Int(i) = self {
            if i.bits() > 600 {
                let r: Vec<String> = refs::FP.iter().map(|p| refs::residue(i, *p).to_string()).collect();
                return format!("{}bits{} mod {}", if i.is_negative() { "-" } else { "" }, i.bits(), r.join("/"));
            }
        }
        self.to_string()
    }
    pub fn kind(&self) -> String {
        match self {
            Out::Int(i) if i.is_negative() => "negative".into(),
            Out::Int(i) if i.is_zero() => "zero".into(),
            Out::Int(_) => "positive".into(),
            Out::Pair(..) => "pair".into(),
            Out::Bool(b) => b.to_string(),
            Out::None => "none".into(),
            Out::Err(e) => format!("error:{}", e.split('(').next().unwrap()),
            Out::Panic(_) => "panic".into(),
        }
    }
    pub fn bits(&self) -> usize {
        match self {
            Out::Int(i) => i.bits() as usize,
            Out::Pair(g, v) => g.bits() as usize + v.iter().map(|x| x.bits() as usize).sum::<usize>(),
            _ => 0,
        }
    }
}

impl Case {
    pub fn parse(s: &str) -> Option<Case> {
        let w: Vec<&str> = s.split_whitespace().collect();
        let i = |k: usize| w.get(k).and_then(|x| BigInt::from_str(x).ok());
        let u = |k: usize| w.get(k).and_then(|x| x.parse::<u64>().ok());
        Some(match *w.first()? {
            "power" => Power(i(1)?, BigUint::from_str(w.get(2)?).ok()?),
            "egcd" => Egcd(i(1)?, i(2)?),
            "coprime" => Coprime(i(1)?, i(2)?),
            "inv" => Inv(i(1)?, i(2)?),
            "div" => Div(i(1)?, i(2)?, i(3)?),
            "crt" => Crt(unlist(w.get(1)?)?, unlist(w.get(2)?)?),
            "fact_u" => FactU(u(1)?),
            "fact_i" => FactI(i(1)?),
            "fib_fold" => FibFold(u(1)?),
            "fib_fast" => FibFast(u(1)?),
            "fib_i" => FibI(i(1)?),
            "psum_u" => PsumU(u(1)?),
            "psum_i" => PsumI(i(1)?),
            "pcount" => Pcount(i(1)?),
            _ => return None,
        })
    }
    pub fn op(&self) -> &'static str {
        match self {
            Power(..) => "power",
            Egcd(..) => "egcd",
            Coprime(..) => "coprime",
            Inv(..) => "inv",
            Div(..) => "div",
            Crt(..) => "crt",
            FactU(..) => "fact_u",
            FactI(..) => "fact_i",
            FibFold(..) => "fib_fold",
            FibFast(..) => "fib_fast",
            FibI(..) => "fib_i",
            PsumU(..) => "psum_u",
            PsumI(..) => "psum_i",
            Pcount(..) => "pcount",
        }
    }
    /// non-trivial: not answered by the first special case any implementation starts with
    pub fn nontrivial(&self) -> bool {
        let big = |a: &BigInt| a.abs() > BigInt::one();
        match self {
            Power(a, b) => big(a) && b > &BigUint::one(),
            Egcd(a, b) | Coprime(a, b) => big(a) && big(b) && a.abs() != b.abs(),
            Inv(a, m) => big(a) && big(m),
            Div(a, b, m) => !a.is_zero() && big(b) && big(m),
            Crt(u, m) => u.len() > 1 && m.iter().filter(|x| big(x)).count() > 1,
            FactU(n) | FibFold(n) | FibFast(n) => *n > 2,
            FactI(n) | FibI(n) | PsumI(n) | Pcount(n) => n.abs() > BigInt::from(2),
            PsumU(n) => *n > 2,
        }
    }
    pub fn in_bits(&self) -> usize {
        match self {
            Power(a, b) => a.bits() as usize + b.bits() as usize,
            Egcd(a, b) | Coprime(a, b) | Inv(a, b) => a.bits() as usize + b.bits() as usize,
            Div(a, b, m) => a.bits() as usize + b.bits() as usize + m.bits() as usize,
            Crt(u, m) => u.iter().chain(m).map(|x| x.bits() as usize + 64).sum(),
            FactU(_) | FibFold(_) | FibFast(_) | PsumU(_) => 64,
            FactI(n) | FibI(n) | PsumI(n) | Pcount(n) => n.bits() as usize,
        }
    }

    /// the observed call
    pub fn run(&self) -> Out {
        fn res(r: sm_algorithm::Result<BigInt>) -> Out {
            match r {
                Ok(i) => Out::Int(i),
                Err(e) => Out::Err(format!("{:?}", e)),
            }
        }
        fn opt(r: Option<BigInt>) -> Out {
            match r {
                Some(i) => Out::Int(i),
                None => Out::None,
            }
        }
        match self {
            Power(a, b) => res(sm_algorithm::power_iu(a, b)),
            Egcd(a, b) => {
                let (g, v) = sm_algorithm::extended_gcd2(a, b);
                Out::Pair(g, v)
            }
            Coprime(a, b) => Out::Bool(sm_algorithm::is_coprime(a.clone(), b.clone())),
            Inv(a, m) => opt(sm_algorithm::modulo_inverse(a, m)),
            Div(a, b, m) => opt(sm_algorithm::modulo_division(a, b, m)),
            Crt(u, m) => opt(sm_algorithm::chinese_remainder(u, m)),
            FactU(n) => Out::Int(BigInt::from(sm_algorithm::factorial_fold_u(*n as usize))),
            FactI(n) => res(sm_algorithm::factorial_i(n)),
            FibFold(n) => Out::Int(BigInt::from(sm_algorithm::fibonacci_fold_u(*n as usize))),
            FibFast(n) => Out::Int(BigInt::from(sm_algorithm::fibonacci_fast_u(*n as usize))),
            FibI(n) => res(sm_algorithm::fibonacci_i(n)),
            PsumU(n) => Out::Int(BigInt::from(sm_algorithm::prime_sum_u64(*n))),
            PsumI(n) => res(sm_algorithm::prime_sum_i(n)),
            Pcount(n) => res(sm_algorithm::prime_count_i(n)),
        }
    }
    pub fn run_caught(&self) -> Out {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run())) {
            Ok(o) => o,
            Err(e) => Out::Panic(
                e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
            ),
        }
    }

    /// the oracle: Ok or what is wrong with the observed outcome
    pub fn judge(&self, o: &Out) -> Result<(), String> {
        if let Out::Panic(m) = o {
            return Err(format!("panicked: {}", m));
        }
        let zero = BigInt::zero();
        let isize_max = BigInt::from(isize::MAX);
        match (self, o) {
            (Power(a, b), _) => {
                if a.is_zero() && b.is_zero() {
                    return want_err(o, "Indeterminate");
                }
                if b.is_zero() || a.is_one() {
                    return want(o, &BigInt::one());
                }
                if a.is_zero() {
                    return want(o, &zero);
                }
                match b.to_u32() {
                    Some(e) => want_pow(o, a, e),
                    None if a.abs().is_one() => match o {
                        Out::Err(s) if s == "OverFlow" => Ok(()),
                        _ => want(o, &if b.is_even() { BigInt::one() } else { a.clone() }),
                    },
                    None => want_err(o, "OverFlow"),
                }
            }
            (Egcd(a, b), Out::Pair(g, v)) => {
                let r = refs::gcd(a, b);
                if *g != r {
                    return Err(format!("gcd is {}, got {}", r, g));
                }
                if v.len() != 2 {
                    return Err(format!("{} coefficients instead of 2", v.len()));
                }
                let s = a * &v[0] + b * &v[1];
                if s != r { Err(format!("a*x+b*y = {} but gcd = {}", s, r)) } else { Ok(()) }
            }
            (Coprime(a, b), Out::Bool(v)) => {
                let r = refs::gcd(a, b);
                if r.is_one() == *v { Ok(()) } else { Err(format!("gcd is {}, answered {}", r, v)) }
            }
            (Inv(a, m), _) => {
                let g = refs::gcd(a, m);
                match o {
                    Out::None if g.is_one() => Err("a is a unit modulo m, but no inverse returned".into()),
                    Out::None => Ok(()),
                    Out::Int(x) if !g.is_one() => Err(format!("gcd(a, m) = {} but {} returned as inverse", g, x)),
                    Out::Int(x) if (a * x - 1u32).mod_floor(&m.abs()).is_zero() => Ok(()),
                    Out::Int(x) => Err(format!("a*{} is not 1 modulo m", x)),
                    _ => Err(format!("unexpected outcome {}", o)),
                }
            }
            (Div(a, b, m), _) => {
                let g = refs::gcd(b, m);
                let solvable = (a % &g).is_zero();
                match o {
                    Out::None if solvable => Err("solvable congruence answered with none".into()),
                    Out::None => Ok(()),
                    Out::Int(x) if (b * x - a).mod_floor(&m.abs()).is_zero() => Ok(()),
                    Out::Int(x) => Err(format!("b*{} is not congruent to a modulo m", x)),
                    _ => Err(format!("unexpected outcome {}", o)),
                }
            }
            (Crt(u, m), _) => {
                if u.len() != m.len() {
                    return if *o == Out::None { Ok(()) } else { Err(format!("lists of different lengths answered with {}", o)) };
                }
                match o {
                    Out::Int(x) => {
                        for (u_i, m_i) in u.iter().zip(m) {
                            if !(x - u_i).mod_floor(&m_i.abs()).is_zero() {
                                return Err(format!("{} is not congruent to {} modulo {}", x, u_i, m_i));
                            }
                        }
                        Ok(())
                    }
                    Out::None => {
                        for i in 0..m.len() {
                            for j in 0..i {
                                if !refs::gcd(&m[i], &m[j]).is_one() {
                                    return Ok(());
                                }
                            }
                        }
                        Err("pairwise coprime moduli answered with none".into())
                    }
                    _ => Err(format!("unexpected outcome {}", o)),
                }
            }
            (FactU(n), _) => want_u(o, &refs::factorial(*n)),
            (FactI(n), _) => {
                if n.is_negative() {
                    want_err(o, "ComplexInfinity")
                } else if n > &isize_max {
                    want_err(o, "OverFlow")
                } else {
                    want_u(o, &refs::factorial(n.to_u64().unwrap()))
                }
            }
            (FibFold(n), _) | (FibFast(n), _) => want_u(o, &refs::fibonacci(*n)),
            (FibI(n), _) => {
                if n > &isize_max || n < &(-&isize_max - 1) {
                    return want_err(o, "OverFlow");
                }
                let f = BigInt::from(refs::fibonacci(n.abs().to_u64().unwrap()));
                want(o, &if n.is_negative() && n.is_even() { -f } else { f })
            }
            (PsumU(n), _) => match sums(*n) {
                Some((s, _)) => want(o, &BigInt::from(s)),
                None => Ok(()),
            },
            (PsumI(n), _) => number_theoretic(n, o, true),
            (Pcount(n), _) => number_theoretic(n, o, false),
            _ => Err(format!("unexpected outcome {}", o)),
        }
    }
}

/// largest bound the reference sums are computed for
pub const SUM_LIMIT: u64 = 300_000_000_000;

static TABLE: OnceLock<(Vec<u128>, Vec<u64>)> = OnceLock::new();
pub fn sums(n: u64) -> Option<(u128, u64)> {
    let t = TABLE.get_or_init(|| refs::Sieve::new(if cfg!(miri) { 3_000 } else { 2_000_000 }).prefix());
    if (n as usize) < t.0.len() {
        return Some((t.0[n as usize], t.1[n as usize]));
    }
    if n <= SUM_LIMIT { Some(refs::lucy(n)) } else { None }
}

/// prime_sum_i / prime_count_i
fn number_theoretic(n: &BigInt, o: &Out, sum: bool) -> Result<(), String> {
    if n.is_negative() {
        return match o {
            Out::Err(_) => Ok(()),
            _ => Err(format!("negative bound answered with {}", o)),
        };
    }
    let table: &[&str] = if sum { &refs::SUM10 } else { &refs::PI10 };
    if let Some(k) = refs::log10_exact(n) {
        if k < table.len() {
            return want(o, &BigInt::from_str(table[k]).unwrap());
        }
    }
    if let Out::Err(e) = o {
        // sums below 2^64 are computed, not refused
        return match n.to_u64() {
            Some(_) if sum => Err(format!("bound within the machine word refused with {}", e)),
            _ => Ok(()),
        };
    }
    let v = match o {
        Out::Int(v) => v,
        _ => return Err(format!("unexpected outcome {}", o)),
    };
    if let Some((s, c)) = n.to_u64().and_then(sums) {
        return want(o, &if sum { BigInt::from(s) } else { BigInt::from(c) });
    }
    // a number beyond the reference range: at least within the published values around it
    let k = n.to_string().len() - 1;
    let lo = table.get(k).map(|s| BigInt::from_str(s).unwrap());
    let hi = table.get(k + 1).map(|s| BigInt::from_str(s).unwrap());
    if lo.map_or(v < &BigInt::zero(), |l| v < &l) || hi.map_or(false, |h| v > &h) {
        return Err(format!("{} is outside the published values at the powers of ten around {}", v, n));
    }
    Ok(())
}

fn want(o: &Out, v: &BigInt) -> Result<(), String> {
    match o {
        Out::Int(x) if x == v => Ok(()),
        _ => Err(format!("expected {}, got {}", Out::Int(v.clone()).brief(), o.brief())),
    }
}
fn want_u(o: &Out, v: &BigUint) -> Result<(), String> {
    want(o, &BigInt::from(v.clone()))
}
fn want_err(o: &Out, e: &str) -> Result<(), String> {
    match o {
        Out::Err(x) if x == e => Ok(()),
        _ => Err(format!("expected the error {}, got {}", e, o.brief())),
    }
}
fn want_pow(o: &Out, a: &BigInt, e: u32) -> Result<(), String> {
    let est = a.bits() as u64 * e as u64;
    if est < 1 << 19 || a.abs().is_one() {
        return want(o, &if a.abs().is_one() { refs::pow(a, 2 + (e as u64 & 1)) } else { refs::pow(a, e as u64) });
    }
    // too big to recompute on every case: sign, size and residues
    let v = match o {
        Out::Int(v) => v,
        _ => return Err(format!("expected a number of about {} bits, got {}", est, o.brief())),
    };
    if v.is_negative() != (a.is_negative() && e & 1 == 1) {
        return Err("wrong sign".into());
    }
    let lo = (a.bits() as u64 - 1) * e as u64;
    if (v.bits() as u64) < lo || v.bits() as u64 > est + 1 {
        return Err(format!("{} bits, expected between {} and {}", v.bits(), lo, est));
    }
    let eb = BigUint::from(e);
    for p in &refs::FP {
        let w = refs::powmod(refs::residue(a, *p), &eb, *p);
        if refs::residue(v, *p) != w {
            return Err(format!("wrong residue modulo {}", p));
        }
    }
    Ok(())
}
