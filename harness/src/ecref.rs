//! Affine chord-and-tangent arithmetic on y^2 = x^3 + b over big integers.
use crate::big::*;
use halo::{Curve, Ec0, Ec1};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Aff {
    pub x: U256,
    pub y: U256,
    pub inf: bool,
}
pub const O: Aff = Aff { x: [0; 4], y: [0; 4], inf: true };

pub trait RealCurve: Curve {
    const NAME: &'static str;
    /// base field modulus, group order, constant of the curve equation
    const P: U256;
    const N: U256;
    const B: u64;
    fn ops_add(a: &Self, b: &Self) -> Vec<Self>;
    fn ops_sub(a: &Self, b: &Self) -> Vec<Self>;
    fn ops_neg(a: &Self) -> Vec<Self>;
    fn ops_mul(a: &Self, s: &Self::Scalar) -> Vec<Self>;
}
macro_rules! rc {
    ($t:ident, $p:expr, $n:expr, $b:expr) => {
        impl RealCurve for $t {
            const NAME: &'static str = stringify!($t);
            const P: U256 = $p;
            const N: U256 = $n;
            const B: u64 = $b;
            fn ops_add(a: &Self, b: &Self) -> Vec<Self> {
                let (mut c, mut d) = (*a, *a);
                c += *b;
                d += b;
                vec![a + b, *a + *b, a + *b, *a + b, c, d]
            }
            fn ops_sub(a: &Self, b: &Self) -> Vec<Self> {
                let (mut c, mut d) = (*a, *a);
                c -= *b;
                d -= b;
                vec![a - b, *a - *b, a - *b, *a - b, c, d]
            }
            fn ops_neg(a: &Self) -> Vec<Self> {
                vec![-a, -*a]
            }
            fn ops_mul(a: &Self, s: &Self::Scalar) -> Vec<Self> {
                let (mut c, mut d) = (*a, *a);
                c *= *s;
                d *= s;
                vec![a * s, *a * *s, a * *s, *a * s, c, d]
            }
        }
    };
}
rc!(Ec0, MOD_Q, MOD_P, 5);
rc!(Ec1, MOD_P, MOD_Q, 7);

pub fn neg<C: RealCurve>(a: &Aff) -> Aff {
    if a.inf {
        return *a;
    }
    Aff { x: a.x, y: negmod(&a.y, &C::P), inf: false }
}
pub fn add<C: RealCurve>(a: &Aff, b: &Aff) -> Aff {
    let m = &C::P;
    if a.inf {
        return *b;
    }
    if b.inf {
        return *a;
    }
    let l = if a.x == b.x {
        if is_zero(&addmod(&a.y, &b.y, m)) {
            return O;
        }
        let xx = mulmod(&a.x, &a.x, m);
        let n = addmod(&xx, &addmod(&xx, &xx, m), m);
        mulmod(&n, &invmod(&addmod(&a.y, &a.y, m), m), m)
    } else {
        mulmod(&submod(&b.y, &a.y, m), &invmod(&submod(&b.x, &a.x, m), m), m)
    };
    let x = submod(&submod(&mulmod(&l, &l, m), &a.x, m), &b.x, m);
    let y = submod(&mulmod(&l, &submod(&a.x, &x, m), m), &a.y, m);
    Aff { x, y, inf: false }
}
pub fn times<C: RealCurve>(k: &U256, p: &Aff) -> Aff {
    let mut r = O;
    for i in (0..256).rev() {
        r = add::<C>(&r, &r);
        if (k[i / 64] >> (i % 64)) & 1 == 1 {
            r = add::<C>(&r, p);
        }
    }
    r
}
pub fn on_curve<C: RealCurve>(x: &U256, y: &U256) -> bool {
    let m = &C::P;
    mulmod(y, y, m) == addmod(&mulmod(&mulmod(x, x, m), x, m), &[C::B, 0, 0, 0], m)
}
pub fn gen<C: RealCurve>() -> Aff {
    coords(&C::one())
}
/// What the library says the point's coordinates are.
pub fn coords<C: Curve>(p: &C) -> Aff {
    let xy = p.get_xy();
    if bool::from(xy.is_none()) {
        return O;
    }
    let (x, y) = xy.unwrap();
    Aff { x: crate::realf::val(&x), y: crate::realf::val(&y), inf: false }
}
pub fn fe<F: halo::Field>(v: &U256) -> F {
    F::from_bytes(&to_bytes(v)).unwrap()
}
/// The library point with these coordinates.
pub fn point<C: RealCurve>(a: &Aff) -> C {
    if a.inf {
        C::zero()
    } else {
        C::from_xy(fe(&a.x), fe(&a.y)).unwrap()
    }
}
