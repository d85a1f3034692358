//! Executable statement of the contract ASSUMED for the git dependency
//! `decimal` 0.4.0 (solana-decimal), which cannot be fetched offline.
//!
//! `Decimal` is a non-negative fixed point number with 18 decimal places held
//! in 192 bits.  Every operation either returns the exact mathematical result
//! rounded DOWN to 18 places, or an error if that result does not fit.
//! The deductive checks use the very same contract (see /verif/engine/models).
use anchor_lang::prelude::*;
use std::cmp::Ordering;
use std::fmt;

const W: usize = 9; // 576 bits of head room for intermediate results
type Wide = [u64; W];

#[error_code]
pub enum DecimalError {
    #[msg("Operation would result in an overflow")]
    MathOverflow,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct U192(pub [u64; 3]);

impl U192 {
    fn wide(&self) -> Wide {
        let mut w = [0; W];
        w[..3].copy_from_slice(&self.0);
        w
    }
}

fn cmp(a: &Wide, b: &Wide) -> Ordering {
    for i in (0..W).rev() {
        match a[i].cmp(&b[i]) {
            Ordering::Equal => (),
            o => return o,
        }
    }
    Ordering::Equal
}
fn add(a: &Wide, b: &Wide) -> Wide {
    let mut r = [0; W];
    let mut c = 0u128;
    for i in 0..W {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    assert!(c == 0);
    r
}
/// requires a >= b
fn sub(a: &Wide, b: &Wide) -> Wide {
    let mut r = [0; W];
    let mut br = 0u128;
    for i in 0..W {
        let x = a[i] as u128;
        let y = b[i] as u128 + br;
        if x >= y {
            r[i] = (x - y) as u64;
            br = 0;
        } else {
            r[i] = ((1u128 << 64) + x - y) as u64;
            br = 1;
        }
    }
    assert!(br == 0);
    r
}
fn mul(a: &Wide, b: &Wide) -> Wide {
    let mut r = [0; W];
    for i in 0..W {
        if a[i] == 0 {
            continue;
        }
        let mut c = 0u128;
        for j in 0..W {
            if i + j >= W {
                assert!(b[j] == 0 && c == 0);
                continue;
            }
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        assert!(c == 0);
    }
    r
}
fn bits(a: &Wide) -> usize {
    for i in (0..W).rev() {
        if a[i] != 0 {
            return i * 64 + 64 - a[i].leading_zeros() as usize;
        }
    }
    0
}
fn shl1(a: &Wide) -> Wide {
    let mut r = [0; W];
    let mut c = 0;
    for i in 0..W {
        r[i] = (a[i] << 1) | c;
        c = a[i] >> 63;
    }
    r
}
/// floor(a / b), requires b != 0
fn div(a: &Wide, b: &Wide) -> Wide {
    let mut q = [0; W];
    let mut rem = [0; W];
    for i in (0..bits(a)).rev() {
        rem = shl1(&rem);
        rem[0] |= (a[i / 64] >> (i % 64)) & 1;
        if cmp(&rem, b) != Ordering::Less {
            rem = sub(&rem, b);
            q[i / 64] |= 1 << (i % 64);
        }
    }
    q
}
fn small(v: u64) -> Wide {
    let mut w = [0; W];
    w[0] = v;
    w
}
fn narrow(a: &Wide) -> Result<Decimal> {
    if a[3..].iter().any(|l| *l != 0) {
        return Err(error!(DecimalError::MathOverflow));
    }
    Ok(Decimal(U192([a[0], a[1], a[2]])))
}
fn to_u64(a: &Wide) -> Result<u64> {
    if a[1..].iter().any(|l| *l != 0) {
        return Err(error!(DecimalError::MathOverflow));
    }
    Ok(a[0])
}

pub const WAD: u64 = 1_000_000_000_000_000_000;

#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct Decimal(pub U192);

/// Named by the AMM's re-exports only.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct LargeDecimal(pub [u64; 5]);

impl Decimal {
    pub fn one() -> Self {
        Self(U192([WAD, 0, 0]))
    }
    pub fn zero() -> Self {
        Self(U192([0, 0, 0]))
    }
    pub fn from_scaled_val(v: u128) -> Self {
        Self(U192([v as u64, (v >> 64) as u64, 0]))
    }
    pub fn from_permillion(v: u64) -> Self {
        narrow(&mul(&small(v), &small(1_000_000_000_000))).unwrap()
    }
    pub fn from_percent(v: u64) -> Self {
        narrow(&mul(&small(v), &small(10_000_000_000_000_000))).unwrap()
    }
}

impl fmt::Debug for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut digits = vec![];
        let mut v = self.0.wide();
        while v != [0; W] || digits.len() < 19 {
            let q = div(&v, &small(10));
            digits.push((sub(&v, &mul(&q, &small(10)))[0] as u8 + b'0') as char);
            v = q;
        }
        digits.insert(18, '.');
        digits.reverse();
        f.write_str(&digits.into_iter().collect::<String>())
    }
}
impl PartialOrd for Decimal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Decimal {
    fn cmp(&self, o: &Self) -> Ordering {
        cmp(&self.0.wide(), &o.0.wide())
    }
}
impl From<u64> for Decimal {
    fn from(v: u64) -> Self {
        Self::from(v as u128)
    }
}
impl From<u128> for Decimal {
    fn from(v: u128) -> Self {
        let w = U192([v as u64, (v >> 64) as u64, 0]).wide();
        narrow(&mul(&w, &small(WAD))).unwrap()
    }
}

pub trait ScaledVal {
    fn to_scaled_val(&self) -> Result<u128>;
}
impl ScaledVal for Decimal {
    fn to_scaled_val(&self) -> Result<u128> {
        if self.0 .0[2] != 0 {
            return Err(error!(DecimalError::MathOverflow));
        }
        Ok(self.0 .0[0] as u128 | (self.0 .0[1] as u128) << 64)
    }
}
pub trait AlmostEq {
    fn almost_eq(&self, other: &Self, precision: u32) -> bool;
}
impl AlmostEq for Decimal {
    fn almost_eq(&self, o: &Self, precision: u32) -> bool {
        let (hi, lo) = if self > o { (self, o) } else { (o, self) };
        let d = sub(&hi.0.wide(), &lo.0.wide());
        let mut bound = small(1);
        for _ in 0..precision {
            bound = mul(&bound, &small(10));
        }
        cmp(&d, &bound) == Ordering::Less
    }
}

pub trait TryAdd<RHS = Self>: Sized {
    fn try_add(self, rhs: RHS) -> Result<Self>;
}
pub trait TrySub<RHS = Self>: Sized {
    fn try_sub(self, rhs: RHS) -> Result<Self>;
}
pub trait TryMul<RHS = Self>: Sized {
    fn try_mul(self, rhs: RHS) -> Result<Self>;
}
pub trait TryDiv<RHS = Self>: Sized {
    fn try_div(self, rhs: RHS) -> Result<Self>;
}
pub trait TryPow<RHS = Self>: Sized {
    fn try_pow(self, rhs: RHS) -> Result<Self>;
}
pub trait TrySqrt: Sized {
    fn try_sqrt(self) -> Result<Self>;
}
pub trait TryRound<T> {
    fn try_floor(&self) -> Result<T>;
    fn try_ceil(&self) -> Result<T>;
    fn try_round(&self) -> Result<T>;
}

impl TryAdd for Decimal {
    fn try_add(self, rhs: Self) -> Result<Self> {
        narrow(&add(&self.0.wide(), &rhs.0.wide()))
    }
}
impl TrySub for Decimal {
    fn try_sub(self, rhs: Self) -> Result<Self> {
        if self < rhs {
            return Err(error!(DecimalError::MathOverflow));
        }
        narrow(&sub(&self.0.wide(), &rhs.0.wide()))
    }
}
impl TryMul for Decimal {
    fn try_mul(self, rhs: Self) -> Result<Self> {
        narrow(&div(&mul(&self.0.wide(), &rhs.0.wide()), &small(WAD)))
    }
}
impl TryMul<u64> for Decimal {
    fn try_mul(self, rhs: u64) -> Result<Self> {
        narrow(&mul(&self.0.wide(), &small(rhs)))
    }
}
impl TryDiv for Decimal {
    fn try_div(self, rhs: Self) -> Result<Self> {
        if rhs == Self::zero() {
            return Err(error!(DecimalError::MathOverflow));
        }
        narrow(&div(&mul(&self.0.wide(), &small(WAD)), &rhs.0.wide()))
    }
}
impl TryDiv<u64> for Decimal {
    fn try_div(self, rhs: u64) -> Result<Self> {
        if rhs == 0 {
            return Err(error!(DecimalError::MathOverflow));
        }
        narrow(&div(&self.0.wide(), &small(rhs)))
    }
}
impl TryPow<u64> for Decimal {
    fn try_pow(self, exp: u64) -> Result<Self> {
        let mut acc = Self::one();
        for _ in 0..exp {
            acc = acc.try_mul(self)?;
        }
        Ok(acc)
    }
}
impl TrySqrt for Decimal {
    fn try_sqrt(self) -> Result<Self> {
        let n = mul(&self.0.wide(), &small(WAD));
        let mut r = [0; W];
        for i in (0..(bits(&n) + 1) / 2).rev() {
            let mut t = r;
            t[i / 64] |= 1 << (i % 64);
            if cmp(&mul(&t, &t), &n) != Ordering::Greater {
                r = t;
            }
        }
        narrow(&r)
    }
}
impl TryRound<u64> for Decimal {
    fn try_floor(&self) -> Result<u64> {
        to_u64(&div(&self.0.wide(), &small(WAD)))
    }
    fn try_ceil(&self) -> Result<u64> {
        to_u64(&div(&add(&self.0.wide(), &small(WAD - 1)), &small(WAD)))
    }
    fn try_round(&self) -> Result<u64> {
        to_u64(&div(&add(&self.0.wide(), &small(WAD / 2)), &small(WAD)))
    }
}
