//! Stand-in for the part of bigdecimal 0.1.2 that sm_ast uses.
use num::{BigInt, Num, One, Signed, Zero};
use std::{fmt, ops::*};
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct BigDecimal { digits: BigInt, scale: usize }
impl BigDecimal {
    fn at(&self, scale: usize) -> BigInt { &self.digits * num::pow(BigInt::from(10), scale - self.scale) }
    fn pair(a: &Self, b: &Self) -> (BigInt, BigInt, usize) { let s = a.scale.max(b.scale); (a.at(s), b.at(s), s) }
}
impl From<BigInt> for BigDecimal { fn from(digits: BigInt) -> Self { BigDecimal { digits, scale: 0 } } }
impl Add for BigDecimal { type Output = Self; fn add(self, o: Self) -> Self { let (a, b, scale) = Self::pair(&self, &o); BigDecimal { digits: a + b, scale } } }
impl Sub for BigDecimal { type Output = Self; fn sub(self, o: Self) -> Self { let (a, b, scale) = Self::pair(&self, &o); BigDecimal { digits: a - b, scale } } }
impl Mul for BigDecimal { type Output = Self; fn mul(self, o: Self) -> Self { BigDecimal { digits: self.digits * o.digits, scale: self.scale + o.scale } } }
impl Div for BigDecimal { type Output = Self; fn div(self, _: Self) -> Self { unimplemented!() } }
impl Rem for BigDecimal { type Output = Self; fn rem(self, _: Self) -> Self { unimplemented!() } }
impl Neg for BigDecimal { type Output = Self; fn neg(self) -> Self { BigDecimal { digits: -self.digits, scale: self.scale } } }
impl Signed for BigDecimal {
    fn abs(&self) -> Self { BigDecimal { digits: self.digits.abs(), scale: self.scale } }
    fn abs_sub(&self, o: &Self) -> Self { if self <= o { Self::zero() } else { self.clone() - o.clone() } }
    fn signum(&self) -> Self { self.digits.signum().into() }
    fn is_positive(&self) -> bool { self.digits.is_positive() }
    fn is_negative(&self) -> bool { self.digits.is_negative() }
}
impl Zero for BigDecimal { fn zero() -> Self { BigInt::zero().into() } fn is_zero(&self) -> bool { self.digits.is_zero() } }
impl One for BigDecimal { fn one() -> Self { BigInt::one().into() } }
impl Num for BigDecimal {
    type FromStrRadixErr = num::bigint::ParseBigIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        let scale = s.find('.').map_or(0, |i| s.len() - i - 1);
        Ok(BigDecimal { digits: BigInt::from_str_radix(&s.replacen('.', "", 1), r)?, scale })
    }
}
impl fmt::Display for BigDecimal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.scale == 0 { return write!(f, "{}", self.digits); }
        let t = format!("{:0>1$}", self.digits.to_string().trim_start_matches('-'), self.scale + 1);
        let (a, b) = t.split_at(t.len() - self.scale);
        write!(f, "{}{}.{}", if self.digits < BigInt::zero() { "-" } else { "" }, a, b)
    }
}
