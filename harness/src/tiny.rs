//! Tiny prime fields and tiny prime-order curves y^2 = x^3 + b implementing the
//! library's public `Field` and `Curve` traits, so that the library's generic
//! code runs over domains small enough to be enumerated completely.
//!
//! Everything here is written against integer arithmetic and brute force,
//! independently of the library.
use halo::{Curve, Field};
use std::fmt;
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

/// Integers modulo P. `V & 1` selects which element of order 3 is BETA;
/// `V & 2` makes every
/// addition and subtraction a scheduling point (multiplications are left out
/// because exponentiation makes hundreds of them).
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct T<const P: u64, const V: u8>(pub u64);

impl<const P: u64, const V: u8> fmt::Debug for T<P, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub const fn pow_mod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
const fn two_adicity(p: u64) -> u32 {
    (p - 1).trailing_zeros()
}
/// An element of order 2^s.
const fn alpha(p: u64) -> u64 {
    let s = two_adicity(p);
    let t = (p - 1) >> s;
    let mut x = 2;
    loop {
        if x >= p {
            return p - 1;
        }
        let c = pow_mod(x, t, p);
        // order of c is 2^s iff c^(2^(s-1)) != 1
        let mut y = c;
        let mut i = 1;
        while i < s {
            y = y * y % p;
            i += 1;
        }
        if y == p - 1 {
            return c;
        }
        x += 1;
    }
}
const fn beta(p: u64, second: bool) -> u64 {
    let mut x = 2;
    let mut seen = false;
    while x < p {
        if x * x % p * x % p == 1 {
            if !second || seen {
                return x;
            }
            seen = true;
        }
        x += 1;
    }
    1
}
const fn inv5(p: u64) -> u64 {
    let m = p - 1;
    let mut x = 1;
    while x < m {
        if 5 * x % m == 1 {
            return x;
        }
        x += 1;
    }
    0
}
const fn bits(p: u64) -> u32 {
    64 - p.leading_zeros()
}

#[inline]
fn point<const V: u8>() {
    if V & 2 != 0 {
        crossbeam_utils::mc::yield_point();
    }
}

macro_rules! op {
    ($y:expr, $tr:ident, $f:ident, $atr:ident, $af:ident, |$a:ident, $b:ident| $e:expr) => {
        impl<const P: u64, const V: u8> $tr for T<P, V> {
            type Output = Self;
            #[inline]
            fn $f(self, o: Self) -> Self {
                if $y {
                    point::<V>();
                }
                let ($a, $b) = (self.0, o.0);
                T($e)
            }
        }
        impl<'a, const P: u64, const V: u8> $tr<&'a Self> for T<P, V> {
            type Output = Self;
            #[inline]
            fn $f(self, o: &'a Self) -> Self {
                $tr::$f(self, *o)
            }
        }
        impl<const P: u64, const V: u8> $atr for T<P, V> {
            #[inline]
            fn $af(&mut self, o: Self) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<'a, const P: u64, const V: u8> $atr<&'a Self> for T<P, V> {
            #[inline]
            fn $af(&mut self, o: &'a Self) {
                *self = $tr::$f(*self, *o)
            }
        }
    };
}
op!(true, Add, add, AddAssign, add_assign, |a, b| (a + b) % P);
op!(true, Sub, sub, SubAssign, sub_assign, |a, b| (a + P - b) % P);
op!(false, Mul, mul, MulAssign, mul_assign, |a, b| a * b % P);
impl<const P: u64, const V: u8> Neg for T<P, V> {
    type Output = Self;
    #[inline]
    fn neg(self) -> Self {
        point::<V>();
        T((P - self.0) % P)
    }
}
impl<const P: u64, const V: u8> From<bool> for T<P, V> {
    fn from(b: bool) -> Self {
        T(b as u64)
    }
}
impl<const P: u64, const V: u8> ConditionallySelectable for T<P, V> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.into() {
            *b
        } else {
            *a
        }
    }
}
impl<const P: u64, const V: u8> ConstantTimeEq for T<P, V> {
    fn ct_eq(&self, o: &Self) -> Choice {
        ((self.0 == o.0) as u8).into()
    }
}
impl<const P: u64, const V: u8> T<P, V> {
    pub fn all() -> impl Iterator<Item = Self> + Clone {
        (0..P).map(T)
    }
}

impl<const P: u64, const V: u8> Field for T<P, V> {
    const NUM_BITS: u32 = bits(P);
    const CAPACITY: u32 = bits(P) - 1;
    const S: u32 = two_adicity(P);
    const ALPHA: Self = T(alpha(P));
    const RESCUE_ALPHA: u64 = 5;
    const RESCUE_INVALPHA: [u64; 4] = [inv5(P), 0, 0, 0];
    const BETA: Self = T(beta(P, V & 1 != 0));

    fn is_zero(&self) -> Choice {
        ((self.0 == 0) as u8).into()
    }
    fn from_u64(v: u64) -> Self {
        T(v % P)
    }
    fn from_u128(v: u128) -> Self {
        T((v % P as u128) as u64)
    }
    fn sqrt(&self) -> CtOption<Self> {
        // the even one
        for x in (0..P).step_by(2) {
            if x * x % P == self.0 {
                return CtOption::new(T(x), 1.into());
            }
        }
        CtOption::new(T(0), 0.into())
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(T(pow_mod(self.0, P - 2, P)), ((self.0 != 0) as u8).into())
    }
    fn zero() -> Self {
        T(0)
    }
    fn one() -> Self {
        T(1)
    }
    fn square(&self) -> Self {
        T(self.0 * self.0 % P)
    }
    fn to_bytes(&self) -> [u8; 32] {
        let mut b = [0; 32];
        b[..8].copy_from_slice(&self.0.to_le_bytes());
        b
    }
    fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
        let v = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
        let ok = b[8..].iter().all(|x| *x == 0) && v < P;
        CtOption::new(T(if ok { v } else { 0 }), (ok as u8).into())
    }
    fn get_lower_128(&self) -> u128 {
        self.0 as u128
    }
}

/// y^2 = x^3 + B over F_P with N points (N prime), generator (GX, smallest y).
/// W packs the variants of the two fields: bits 0..4 base, bits 4..8 scalar.
/// The representation is affine with an explicit point at infinity.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct E<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> {
    pub x: u64,
    pub y: u64,
    pub inf: bool,
}

impl<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> E<P, N, B, VB, VS> {
    pub const INF: Self = E { x: 0, y: 0, inf: true };
    pub fn gen() -> Self {
        for x in 0..P {
            for y in 1..P {
                if y * y % P == (x * x % P * x + B) % P {
                    return E { x, y, inf: false };
                }
            }
        }
        unreachable!()
    }
    /// Every point of the group, `k`-th entry is `[k] gen`.
    pub fn all() -> Vec<Self> {
        let mut v = vec![Self::INF];
        let g = Self::gen();
        let mut p = g;
        while !p.inf {
            v.push(p);
            p = p.plus(&g);
        }
        v
    }
    /// Checks that the parameters describe what they should.
    pub fn check_params() -> bool {
        let all = Self::all();
        let mut count = 1;
        for x in 0..P {
            for y in 0..P {
                if y * y % P == (x * x % P * x + B) % P {
                    count += 1;
                }
            }
        }
        if all.len() as u64 != N || count != N {
            return false;
        }
        // the endomorphism x -> beta x is multiplication by BETA_SCALAR
        let bs = beta(N, VS & 1 != 0);
        let bb = beta(P, VB & 1 != 0);
        all.iter().enumerate().all(|(k, p)| {
            let q = all[(k as u64 * bs % N) as usize];
            p.inf || (q.x == p.x * bb % P && q.y == p.y)
        }) && bs != 1
    }
    pub fn minus(&self) -> Self {
        E { x: self.x, y: (P - self.y) % P, inf: self.inf }
    }
    pub fn plus(&self, o: &Self) -> Self {
        if self.inf {
            return *o;
        }
        if o.inf {
            return *self;
        }
        let inv = |v: u64| pow_mod(v, P - 2, P);
        let l = if self.x == o.x {
            if (self.y + o.y) % P == 0 {
                return Self::INF;
            }
            3 * self.x % P * self.x % P * inv(2 * self.y % P) % P
        } else {
            (o.y + P - self.y) % P * inv((o.x + P - self.x) % P) % P
        };
        let x = (l * l + 2 * P - self.x - o.x) % P;
        let y = (l * ((self.x + P - x) % P) + P - self.y) % P;
        E { x, y, inf: false }
    }
    pub fn times(&self, k: u64) -> Self {
        let mut r = Self::INF;
        for i in (0..64).rev() {
            r = r.plus(&r);
            if (k >> i) & 1 == 1 {
                r = r.plus(self);
            }
        }
        r
    }
}
impl<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> Default for E<P, N, B, VB, VS> {
    fn default() -> Self {
        Self::INF
    }
}
impl<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> ConditionallySelectable for E<P, N, B, VB, VS> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.into() {
            *b
        } else {
            *a
        }
    }
}
impl<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> ConstantTimeEq for E<P, N, B, VB, VS> {
    fn ct_eq(&self, o: &Self) -> Choice {
        ((self == o) as u8).into()
    }
}
macro_rules! cop {
    ($tr:ident, $f:ident, $atr:ident, $af:ident, $o:ty, |$a:ident, $b:ident| $e:expr) => {
        impl<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> $tr<$o> for E<P, N, B, VB, VS> {
            type Output = Self;
            fn $f(self, o: $o) -> Self {
                point::<VB>();
                let ($a, $b) = (&self, &o);
                $e
            }
        }
        impl<'a, const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> $tr<&'a $o> for E<P, N, B, VB, VS> {
            type Output = Self;
            fn $f(self, o: &'a $o) -> Self {
                $tr::$f(self, *o)
            }
        }
        impl<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> $atr<$o> for E<P, N, B, VB, VS> {
            fn $af(&mut self, o: $o) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<'a, const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> $atr<&'a $o> for E<P, N, B, VB, VS> {
            fn $af(&mut self, o: &'a $o) {
                *self = $tr::$f(*self, *o)
            }
        }
    };
}
cop!(Add, add, AddAssign, add_assign, E<P, N, B, VB, VS>, |a, b| a.plus(b));
cop!(Sub, sub, SubAssign, sub_assign, E<P, N, B, VB, VS>, |a, b| a.plus(&b.minus()));
cop!(Mul, mul, MulAssign, mul_assign, T<N, VS>, |a, b| a.times(b.0));
impl<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> Neg for E<P, N, B, VB, VS> {
    type Output = Self;
    fn neg(self) -> Self {
        self.minus()
    }
}
impl<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> Curve for E<P, N, B, VB, VS> {
    type Scalar = T<N, VS>;
    type Base = T<P, VB>;
    const BETA_SCALAR: T<N, VS> = <T<N, VS> as Field>::BETA;
    const BETA_BASE: T<P, VB> = <T<P, VB> as Field>::BETA;
    fn zero() -> Self {
        Self::INF
    }
    fn one() -> Self {
        Self::gen()
    }
    fn is_zero(&self) -> Choice {
        (self.inf as u8).into()
    }
    fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
        let all = b.iter().all(|x| *x == 0);
        if all {
            return CtOption::new(Self::INF, 1.into());
        }
        let mut c = *b;
        let sign = c[31] >> 7;
        c[31] &= 0x7f;
        let x = T::<P, VB>::from_bytes(&c);
        if bool::from(x.is_some()) {
            let x = x.unwrap().0;
            for y in 1..P {
                if y * y % P == (x * x % P * x + B) % P && (y & 1) as u8 == sign {
                    return CtOption::new(E { x, y, inf: false }, 1.into());
                }
            }
        }
        CtOption::new(Self::INF, 0.into())
    }
    fn to_bytes(&self) -> [u8; 32] {
        if self.inf {
            return [0; 32];
        }
        let mut b = T::<P, VB>(self.x).to_bytes();
        b[31] |= ((self.y & 1) as u8) << 7;
        b
    }
    fn get_xy(&self) -> CtOption<(T<P, VB>, T<P, VB>)> {
        CtOption::new((T(self.x), T(self.y)), (!self.inf as u8).into())
    }
    fn get_xyz(&self) -> (T<P, VB>, T<P, VB>, T<P, VB>) {
        if self.inf {
            (T(0), T(1), T(0))
        } else {
            (T(self.x), T(self.y), T(1))
        }
    }
    fn from_xy(x: T<P, VB>, y: T<P, VB>) -> CtOption<Self> {
        if x.0 == 0 && y.0 == 0 {
            return CtOption::new(Self::INF, 1.into());
        }
        let p = E { x: x.0, y: y.0, inf: false };
        CtOption::new(p, (p.is_on_curve() as u8).into())
    }
    fn from_xy_unchecked(x: T<P, VB>, y: T<P, VB>) -> Self {
        if x.0 == 0 && y.0 == 0 {
            return Self::INF;
        }
        E { x: x.0, y: y.0, inf: false }
    }
    fn double(&self) -> Self {
        self.plus(self)
    }
    fn b() -> T<P, VB> {
        T(B)
    }
    fn is_on_curve(&self) -> bool {
        self.inf || self.y * self.y % P == (self.x * self.x % P * self.x + B) % P
    }
}
