//! Offline stand-in for `bigdecimal` 0.1.2 (not in the sandbox's cargo cache).
//! value = int_val * 10^-scale, with the published crate's parsing and printing rules.
use num::{bigint::ParseBigIntError, BigInt, Num, One, Signed, ToPrimitive, Zero};
use std::{
    cmp::Ordering,
    error::Error,
    fmt,
    hash::{Hash, Hasher},
    iter::Sum,
    num::{ParseFloatError, ParseIntError},
    ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Rem, Sub, SubAssign},
    str::FromStr,
};

#[derive(Clone, Debug)]
pub struct BigDecimal {
    int_val: BigInt,
    scale: i64,
}

#[derive(Debug, PartialEq)]
pub enum ParseBigDecimalError {
    ParseDecimal(ParseFloatError),
    ParseInt(ParseIntError),
    ParseBigInt(ParseBigIntError),
    Empty,
    Other(String),
}

impl fmt::Display for ParseBigDecimalError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl Error for ParseBigDecimalError {}

fn ten_pow(n: u64) -> BigInt {
    num::pow::pow(BigInt::from(10), n as usize)
}

impl BigDecimal {
    pub fn new(digits: BigInt, scale: i64) -> BigDecimal {
        BigDecimal { int_val: digits, scale }
    }
    pub fn as_bigint_and_exponent(&self) -> (BigInt, i64) {
        (self.int_val.clone(), self.scale)
    }
    pub fn into_bigint_and_exponent(self) -> (BigInt, i64) {
        (self.int_val, self.scale)
    }
    pub fn sign(&self) -> num::bigint::Sign {
        self.int_val.sign()
    }
    pub fn is_integer(&self) -> bool {
        self.scale <= 0 || (&self.int_val % ten_pow(self.scale as u64)).is_zero()
    }
    pub fn with_scale(&self, new: i64) -> BigDecimal {
        if self.int_val.is_zero() {
            return BigDecimal::new(BigInt::zero(), new);
        }
        let v = match new.cmp(&self.scale) {
            Ordering::Greater => &self.int_val * ten_pow((new - self.scale) as u64),
            Ordering::Less => &self.int_val / ten_pow((self.scale - new) as u64),
            Ordering::Equal => self.int_val.clone(),
        };
        BigDecimal::new(v, new)
    }
    pub fn digits(&self) -> u64 {
        if self.int_val.is_zero() { 1 } else { self.int_val.abs().to_str_radix(10).len() as u64 }
    }
    pub fn normalized(&self) -> BigDecimal {
        if self.int_val.is_zero() {
            return BigDecimal::zero();
        }
        let (mut v, mut s) = (self.int_val.clone(), self.scale);
        let ten = BigInt::from(10);
        while (&v % &ten).is_zero() {
            v = v / &ten;
            s -= 1;
        }
        BigDecimal::new(v, s)
    }
    pub fn abs(&self) -> BigDecimal {
        BigDecimal::new(self.int_val.abs(), self.scale)
    }
    pub fn to_bigint(&self) -> Option<BigInt> {
        Some(self.with_scale(0).int_val)
    }
    pub fn is_negative(&self) -> bool {
        self.int_val.is_negative()
    }
    pub fn is_positive(&self) -> bool {
        self.int_val.is_positive()
    }
    fn align(a: &BigDecimal, b: &BigDecimal) -> (BigInt, BigInt, i64) {
        let s = a.scale.max(b.scale);
        (a.with_scale(s).int_val, b.with_scale(s).int_val, s)
    }
}

impl FromStr for BigDecimal {
    type Err = ParseBigDecimalError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        BigDecimal::from_str_radix(s, 10)
    }
}

impl Num for BigDecimal {
    type FromStrRadixErr = ParseBigDecimalError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, Self::FromStrRadixErr> {
        if radix != 10 {
            return Err(ParseBigDecimalError::Other(String::from("The radix for decimal MUST be 10")));
        }
        let (base, exp) = match s.find(|c| c == 'e' || c == 'E') {
            None => (s, 0i64),
            Some(i) => {
                let e = &s[i + 1..];
                let e = if e.starts_with('+') { &e[1..] } else { e };
                (&s[..i], e.parse().map_err(ParseBigDecimalError::ParseInt)?)
            }
        };
        if base.is_empty() {
            return Err(ParseBigDecimalError::Empty);
        }
        let (digits, off) = match base.find('.') {
            None => (base.to_string(), 0i64),
            Some(i) => {
                let (lead, trail) = (&base[..i], &base[i + 1..]);
                (format!("{}{}", lead, trail), trail.len() as i64)
            }
        };
        let v = BigInt::from_str_radix(&digits, 10).map_err(ParseBigDecimalError::ParseBigInt)?;
        Ok(BigDecimal::new(v, off - exp))
    }
}

impl fmt::Display for BigDecimal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let abs_int = self.int_val.abs().to_str_radix(10);
        let (before, after) = if self.scale >= abs_int.len() as i64 {
            let zeros = self.scale as usize - abs_int.len();
            let mut after = "0".repeat(zeros);
            after.push_str(&abs_int);
            ("0".to_string(), after)
        }
        else if self.scale <= 0 {
            let zeros = if self.int_val.is_zero() { 0 } else { (-self.scale) as usize };
            (abs_int + &"0".repeat(zeros), String::new())
        }
        else {
            let at = abs_int.len() - self.scale as usize;
            (abs_int[..at].to_string(), abs_int[at..].to_string())
        };
        let s = if after.is_empty() { before } else { format!("{}.{}", before, after) };
        f.pad_integral(!self.int_val.is_negative(), "", &s)
    }
}

impl PartialEq for BigDecimal {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for BigDecimal {}
impl PartialOrd for BigDecimal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigDecimal {
    fn cmp(&self, o: &Self) -> Ordering {
        let (a, b, _) = BigDecimal::align(self, o);
        a.cmp(&b)
    }
}
impl Hash for BigDecimal {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let n = self.normalized();
        n.int_val.hash(h);
        n.scale.hash(h);
    }
}
impl Zero for BigDecimal {
    fn zero() -> Self {
        BigDecimal::new(BigInt::zero(), 0)
    }
    fn is_zero(&self) -> bool {
        self.int_val.is_zero()
    }
}
impl One for BigDecimal {
    fn one() -> Self {
        BigDecimal::new(BigInt::one(), 0)
    }
}
impl Default for BigDecimal {
    fn default() -> Self {
        Zero::zero()
    }
}

fn add(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, s) = BigDecimal::align(a, b);
    BigDecimal::new(x + y, s)
}
fn sub(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, s) = BigDecimal::align(a, b);
    BigDecimal::new(x - y, s)
}
fn mul(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    BigDecimal::new(&a.int_val * &b.int_val, a.scale + b.scale)
}
fn rem(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, s) = BigDecimal::align(a, b);
    BigDecimal::new(x % y, s)
}
/// exact when the quotient terminates within 100 extra digits, truncated there otherwise
fn div(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, _) = BigDecimal::align(a, b);
    if x.is_zero() {
        return BigDecimal::zero();
    }
    BigDecimal::new(x * ten_pow(100) / y, 100).normalized()
}

macro_rules! ops {
    ($($tr:ident $m:ident $f:ident),*) => {$(
        impl $tr<BigDecimal> for BigDecimal { type Output = BigDecimal; fn $m(self, o: BigDecimal) -> BigDecimal { $f(&self, &o) } }
        impl<'a> $tr<&'a BigDecimal> for BigDecimal { type Output = BigDecimal; fn $m(self, o: &BigDecimal) -> BigDecimal { $f(&self, o) } }
        impl<'a> $tr<BigDecimal> for &'a BigDecimal { type Output = BigDecimal; fn $m(self, o: BigDecimal) -> BigDecimal { $f(self, &o) } }
        impl<'a, 'b> $tr<&'b BigDecimal> for &'a BigDecimal { type Output = BigDecimal; fn $m(self, o: &BigDecimal) -> BigDecimal { $f(self, o) } }
        impl $tr<BigInt> for BigDecimal { type Output = BigDecimal; fn $m(self, o: BigInt) -> BigDecimal { $f(&self, &BigDecimal::new(o, 0)) } }
        impl<'a> $tr<&'a BigInt> for &'a BigDecimal { type Output = BigDecimal; fn $m(self, o: &BigInt) -> BigDecimal { $f(self, &BigDecimal::new(o.clone(), 0)) } }
    )*};
}
ops!(Add add add, Sub sub sub, Mul mul mul, Div div div, Rem rem rem);

impl AddAssign for BigDecimal {
    fn add_assign(&mut self, o: BigDecimal) {
        *self = add(self, &o)
    }
}
impl SubAssign for BigDecimal {
    fn sub_assign(&mut self, o: BigDecimal) {
        *self = sub(self, &o)
    }
}
impl MulAssign for BigDecimal {
    fn mul_assign(&mut self, o: BigDecimal) {
        *self = mul(self, &o)
    }
}
impl Neg for BigDecimal {
    type Output = BigDecimal;
    fn neg(self) -> BigDecimal {
        BigDecimal::new(-self.int_val, self.scale)
    }
}
impl<'a> Neg for &'a BigDecimal {
    type Output = BigDecimal;
    fn neg(self) -> BigDecimal {
        -self.clone()
    }
}
impl Sum for BigDecimal {
    fn sum<I: Iterator<Item = BigDecimal>>(it: I) -> BigDecimal {
        it.fold(Zero::zero(), |a: BigDecimal, b| a + b)
    }
}
impl Signed for BigDecimal {
    fn abs(&self) -> Self {
        BigDecimal::new(self.int_val.abs(), self.scale)
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o { Zero::zero() } else { sub(self, o) }
    }
    fn signum(&self) -> Self {
        BigDecimal::new(self.int_val.signum(), 0)
    }
    fn is_positive(&self) -> bool {
        self.int_val.is_positive()
    }
    fn is_negative(&self) -> bool {
        self.int_val.is_negative()
    }
}
impl ToPrimitive for BigDecimal {
    fn to_i64(&self) -> Option<i64> {
        self.with_scale(0).int_val.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.with_scale(0).int_val.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.to_string().parse().ok()
    }
}
impl From<BigInt> for BigDecimal {
    fn from(i: BigInt) -> Self {
        BigDecimal::new(i, 0)
    }
}
macro_rules! from_int {
    ($($t:ty),*) => {$( impl From<$t> for BigDecimal { fn from(i: $t) -> Self { BigDecimal::new(BigInt::from(i), 0) } } )*};
}
from_int!(u8, u16, u32, u64, i8, i16, i32, i64);
macro_rules! from_float {
    ($($t:ty),*) => {$( impl From<$t> for BigDecimal { fn from(i: $t) -> Self { BigDecimal::from_str(&format!("{:e}", i)).unwrap() } } )*};
}
from_float!(f32, f64);
