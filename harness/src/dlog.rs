//! The production curves with points held as their discrete logarithms.
//!
//! `D<C>` is the same group as `C`: every point made from the generator is kept
//! as its multiple, so that group arithmetic is field arithmetic and protocols
//! of production size run in seconds; coordinates are computed by `C` when they
//! are asked for. A point that comes in by coordinates is kept as a `C`.
use halo::{Curve, Field};
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::*;
use std::sync::RwLock;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy)]
pub enum D<C: Curve> {
    Known(C::Scalar),
    Real(C),
}
use D::*;

type Tables = RwLock<Option<HashMap<TypeId, &'static (dyn Any + Send + Sync)>>>;
static TABLES: Tables = RwLock::new(None);
fn table<C: Curve>() -> &'static Vec<[C; 16]> {
    let id = TypeId::of::<C>();
    if let Some(t) = TABLES.read().unwrap().as_ref().and_then(|m| m.get(&id)) {
        return t.downcast_ref().unwrap();
    }
    let mut v = vec![];
    let mut g = C::one();
    for _ in 0..64 {
        let mut row = [C::zero(); 16];
        for i in 1..16 {
            row[i] = row[i - 1] + g;
        }
        g = row[15] + g;
        v.push(row);
    }
    let t: &'static Vec<[C; 16]> = Box::leak(Box::new(v));
    TABLES.write().unwrap().get_or_insert_with(HashMap::new).insert(id, t);
    t
}

thread_local! {
    /// (point, what it claims to be, how often): for building inconsistent witnesses
    static LIES: RefCell<Vec<([u8; 32], [u8; 32], [u8; 32], usize)>> = const { RefCell::new(vec![]) };
}
/// Like `lie`, with coordinates that need not be those of a point.
pub fn lie_xy<C: Curve>(p: D<C>, x: C::Base, y: C::Base, times: usize) {
    LIES.with(|l| l.borrow_mut().push((p.real().to_bytes(), x.to_bytes(), y.to_bytes(), times)));
}
/// The next `times` times the coordinates of `p` are asked for on this thread,
/// those of `q` are given.
pub fn lie<C: Curve>(p: D<C>, q: D<C>, times: usize) {
    let (x, y) = q.real().get_xy().unwrap();
    LIES.with(|l| l.borrow_mut().push((p.real().to_bytes(), x.to_bytes(), y.to_bytes(), times)));
}
/// Forgets all lies; how many were not told?
pub fn honest() -> usize {
    LIES.with(|l| l.borrow_mut().drain(..).map(|x| x.3).sum())
}

impl<C: Curve> D<C> {
    pub fn real(&self) -> C {
        match self {
            Real(p) => *p,
            Known(s) => {
                let t = table::<C>();
                let mut r = C::zero();
                for (i, b) in s.to_bytes().iter().enumerate() {
                    for (j, n) in [b & 15, b >> 4].into_iter().enumerate() {
                        if n != 0 {
                            r = r + t[2 * i + j][n as usize];
                        }
                    }
                }
                r
            }
        }
    }
    fn plus(&self, o: &Self) -> Self {
        match (self, o) {
            (Known(a), Known(b)) => Known(*a + *b),
            _ => Real(self.real() + o.real()),
        }
    }
    fn minus(&self) -> Self {
        match self {
            Known(a) => Known(-*a),
            Real(p) => Real(-*p),
        }
    }
    fn times(&self, k: &C::Scalar) -> Self {
        match self {
            Known(a) => Known(*a * *k),
            Real(p) => Real(*p * *k),
        }
    }
}
impl<C: Curve> Default for D<C> {
    fn default() -> Self {
        Known(C::Scalar::zero())
    }
}
impl<C: Curve> std::fmt::Debug for D<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.real())
    }
}
impl<C: Curve> PartialEq for D<C> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Known(a), Known(b)) => a == b,
            _ => self.real() == o.real(),
        }
    }
}
impl<C: Curve> Eq for D<C> {}
impl<C: Curve> ConditionallySelectable for D<C> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.into() {
            *b
        } else {
            *a
        }
    }
}
impl<C: Curve> ConstantTimeEq for D<C> {
    fn ct_eq(&self, o: &Self) -> Choice {
        ((self == o) as u8).into()
    }
}
macro_rules! op {
    ($tr:ident, $f:ident, $atr:ident, $af:ident, $o:ty, |$a:ident, $b:ident| $e:expr) => {
        impl<C: Curve> $tr<$o> for D<C> {
            type Output = Self;
            #[inline]
            fn $f(self, o: $o) -> Self {
                let ($a, $b) = (&self, &o);
                $e
            }
        }
        impl<'a, C: Curve> $tr<&'a $o> for D<C> {
            type Output = Self;
            #[inline]
            fn $f(self, o: &'a $o) -> Self {
                let ($a, $b) = (&self, o);
                $e
            }
        }
        impl<C: Curve> $atr<$o> for D<C> {
            #[inline]
            fn $af(&mut self, o: $o) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<'a, C: Curve> $atr<&'a $o> for D<C> {
            #[inline]
            fn $af(&mut self, o: &'a $o) {
                *self = $tr::$f(*self, o)
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign, D<C>, |a, b| a.plus(b));
op!(Sub, sub, SubAssign, sub_assign, D<C>, |a, b| a.plus(&b.minus()));
impl<C: Curve> Neg for D<C> {
    type Output = Self;
    fn neg(self) -> Self {
        self.minus()
    }
}
macro_rules! curve {
    ($c:ty, $f:ty) => {
        impl Mul<$f> for D<$c> {
            type Output = Self;
            fn mul(self, o: $f) -> Self {
                self.times(&o)
            }
        }
        impl<'a> Mul<&'a $f> for D<$c> {
            type Output = Self;
            fn mul(self, o: &'a $f) -> Self {
                self.times(o)
            }
        }
        impl MulAssign<$f> for D<$c> {
            fn mul_assign(&mut self, o: $f) {
                *self = self.times(&o)
            }
        }
        impl<'a> MulAssign<&'a $f> for D<$c> {
            fn mul_assign(&mut self, o: &'a $f) {
                *self = self.times(o)
            }
        }
        impl Curve for D<$c> {
            type Scalar = <$c as Curve>::Scalar;
            type Base = <$c as Curve>::Base;
            const BETA_SCALAR: <$c as Curve>::Scalar = <$c as Curve>::BETA_SCALAR;
            const BETA_BASE: <$c as Curve>::Base = <$c as Curve>::BETA_BASE;
            fn zero() -> Self {
                Known(<$c as Curve>::Scalar::zero())
            }
            fn one() -> Self {
                Known(<$c as Curve>::Scalar::one())
            }
            fn is_zero(&self) -> Choice {
                match self {
                    Known(s) => s.is_zero(),
                    Real(p) => p.is_zero(),
                }
            }
            fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
                let p = <$c as Curve>::from_bytes(b);
                CtOption::new(Real(p.unwrap_or_else(<$c as Curve>::zero)), p.is_some())
            }
            fn to_bytes(&self) -> [u8; 32] {
                self.real().to_bytes()
            }
            fn get_xy(&self) -> CtOption<(<$c as Curve>::Base, <$c as Curve>::Base)> {
                {
                    let told = LIES.with(|l| {
                        let mut l = l.borrow_mut();
                        if l.is_empty() {
                            return None;
                        }
                        let s = self.real().to_bytes();
                        let e = l.iter_mut().find(|e| e.0 == s && e.3 > 0)?;
                        e.3 -= 1;
                        Some((<$c as Curve>::Base::from_bytes(&e.1).unwrap(), <$c as Curve>::Base::from_bytes(&e.2).unwrap()))
                    });
                    if let Some(xy) = told {
                        return CtOption::new(xy, 1.into());
                    }
                }
                self.real().get_xy()
            }
            fn get_xyz(&self) -> (<$c as Curve>::Base, <$c as Curve>::Base, <$c as Curve>::Base) {
                self.real().get_xyz()
            }
            fn from_xy(x: <$c as Curve>::Base, y: <$c as Curve>::Base) -> CtOption<Self> {
                let p = <$c as Curve>::from_xy(x, y);
                CtOption::new(Real(p.unwrap_or_else(<$c as Curve>::zero)), p.is_some())
            }
            fn from_xy_unchecked(x: <$c as Curve>::Base, y: <$c as Curve>::Base) -> Self {
                Real(<$c as Curve>::from_xy_unchecked(x, y))
            }
            fn double(&self) -> Self {
                match self {
                    Known(a) => Known(*a + *a),
                    Real(p) => Real(p.double()),
                }
            }
            fn b() -> <$c as Curve>::Base {
                <$c as Curve>::b()
            }
            fn is_on_curve(&self) -> bool {
                self.real().is_on_curve()
            }
        }
    };
}
curve!(halo::Ec0, halo::Fp);
curve!(halo::Ec1, halo::Fq);
