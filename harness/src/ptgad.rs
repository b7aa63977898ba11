//! Points as gadget inputs, on tiny and on production curves.
use crate::gad::*;
use crate::r1cs::*;
use crate::tiny::{E, T};
use halo::{Boolean, Curve, CurvePoint, Ec0, Ec1, Field};

pub trait Group: Curve {
    fn label() -> String;
    /// reference group law and affine coordinates ((0,0) for the identity)
    fn r_add(&self, o: &Self) -> Self;
    fn r_neg(&self) -> Self;
    fn r_xy(&self) -> (Self::Base, Self::Base);
    fn r_is_id(&self) -> bool;
    fn r_endo(&self) -> Self;
    fn r_times(&self, k: u64) -> Self {
        let mut r = Self::zero();
        for i in (0..64).rev() {
            r = r.r_add(&r);
            if (k >> i) & 1 == 1 {
                r = r.r_add(self);
            }
        }
        r
    }
    fn same(&self, o: &Self) -> bool {
        self.r_xy() == o.r_xy() && self.r_is_id() == o.r_is_id()
    }
}
impl<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> Group for E<P, N, B, VB, VS> {
    fn label() -> String {
        format!("E{}/{}", P, N)
    }
    fn r_add(&self, o: &Self) -> Self {
        self.plus(o)
    }
    fn r_neg(&self) -> Self {
        self.minus()
    }
    fn r_xy(&self) -> (T<P, VB>, T<P, VB>) {
        if self.inf {
            (T(0), T(0))
        } else {
            (T(self.x), T(self.y))
        }
    }
    fn r_is_id(&self) -> bool {
        self.inf
    }
    fn r_endo(&self) -> Self {
        if self.inf {
            *self
        } else {
            E { x: self.x * <Self as Curve>::Base::BETA.0 % P, y: self.y, inf: false }
        }
    }
}
macro_rules! real {
    ($t:ident) => {
        impl Group for $t {
            fn label() -> String {
                stringify!($t).into()
            }
            fn r_add(&self, o: &Self) -> Self {
                // affine chord and tangent over the base field
                if self.r_is_id() {
                    return *o;
                }
                if o.r_is_id() {
                    return *self;
                }
                let ((x1, y1), (x2, y2)) = (self.r_xy(), o.r_xy());
                let l = if x1 == x2 {
                    if y1 == -y2 {
                        return Self::zero();
                    }
                    let d: <Self as Curve>::Base = (y1 + y1).invert().unwrap();
                    (x1 * x1 + x1 * x1 + x1 * x1) * d
                } else {
                    let d: <Self as Curve>::Base = (x2 - x1).invert().unwrap();
                    (y2 - y1) * d
                };
                let x = l * l - x1 - x2;
                let y = l * (x1 - x) - y1;
                Self::from_xy(x, y).unwrap()
            }
            fn r_neg(&self) -> Self {
                if self.r_is_id() {
                    return *self;
                }
                let (x, y) = self.r_xy();
                Self::from_xy(x, -y).unwrap()
            }
            fn r_xy(&self) -> (<Self as Curve>::Base, <Self as Curve>::Base) {
                if self.r_is_id() {
                    return (Field::zero(), Field::zero());
                }
                self.get_xy().unwrap()
            }
            fn r_is_id(&self) -> bool {
                bool::from(self.is_zero())
            }
            fn r_endo(&self) -> Self {
                if self.r_is_id() {
                    return *self;
                }
                let (x, y) = self.r_xy();
                Self::from_xy(x * <<Self as Curve>::Base as Field>::BETA, y).unwrap()
            }
        }
    };
}
real!(Ec0);
real!(Ec1);

/// A point as gadget input. kind 0: constant, 1: witnessed, 2: a negated
/// witness, 3: a sum of two witnesses.
pub fn point<C: Group>(g: &mut G<C::Base>, kind: u8, p: &C) -> CurvePoint<C> {
    match kind {
        0 => {
            if p.r_is_id() {
                CurvePoint::identity()
            } else {
                let (x, y) = p.r_xy();
                CurvePoint::constant(x, y)
            }
        }
        1 => {
            let v = g.w(*p);
            CurvePoint::witness(&mut g.cs, || v).unwrap()
        }
        2 => {
            let n = point(g, 1, &p.r_neg());
            n.conditional_neg(&mut g.cs, &Boolean::constant(true)).unwrap()
        }
        _ => {
            let o = C::one();
            let a = point(g, 1, &p.r_add(&o));
            let b = point(g, 0, &o.r_neg());
            a.add(&mut g.cs, &b).unwrap()
        }
    }
}
pub fn xy_outs<C: Group>(g: &mut G<C::Base>, p: &CurvePoint<C>) -> Vec<Out<C::Base>> {
    let (x, y) = p.get_xy();
    vec![g.out_num(&x), g.out_num(&y)]
}
/// Coordinates of p, and of p + probe (which shows whether p counts as the identity).
pub fn probed<C: Group>(g: &mut G<C::Base>, p: &CurvePoint<C>, probe: &C) -> Res<Vec<Out<C::Base>>> {
    let mut o = xy_outs(g, p);
    let t = point(g, 0, probe);
    let s = p.add(&mut g.cs, &t)?;
    o.extend(xy_outs(g, &s));
    Ok(o)
}
pub fn xy_want<C: Group>(p: &C) -> Vec<C::Base> {
    let (x, y) = p.r_xy();
    vec![x, y]
}
pub fn probed_want<C: Group>(p: &C, probe: &C) -> Vec<C::Base> {
    let mut v = xy_want(p);
    v.extend(xy_want(&p.r_add(probe)));
    v
}
