//! C01: the group law on both production curves.
use halo::{Ec0, Ec1, Field};
use halo_mc::big::*;
use halo_mc::ecref::*;
use halo_mc::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

/// Representations of one point: fresh affine, and results of different
/// operation histories (which leave different projective coordinates).
fn reps<C: RealCurve>(a: &Aff, g: &C, h: &C) -> Vec<C> {
    let p: C = point(a);
    let mut v = vec![p, (p + *g) - *g, (p - *h) + *h, (p.double() + *g) - (p + *g), p + C::zero(), C::zero() + p, -(-p)];
    if a.inf {
        v.extend([C::default(), *g - *g, *g + (-*g), C::zero().double(), (*g - *g).double(), *g * C::Scalar::zero(), -(*h - *h)]);
    }
    v
}
fn same<C: RealCurve>(what: &str, got: &C, want: &Aff) -> Result<(), String> {
    let c = coords(got);
    ensure!(c == *want, "{} {}: gives ({}, {}) inf {}, expected ({}, {}) inf {}", C::NAME, what, hex(&c.x), hex(&c.y), c.inf, hex(&want.x), hex(&want.y), want.inf);
    ensure!(bool::from(got.is_zero()) == want.inf, "{} {}: identity flag is wrong", C::NAME, what);
    ensure!(got.is_on_curve(), "{} {}: the result is reported off the curve", C::NAME, what);
    Ok(())
}

fn curve<C: RealCurve>(c: &mut Ctx) {
    let g = gen::<C>();
    let th = c.thorough;
    // labels k: point [k]G, plus endomorphism images
    let maxk: i64 = if th { 40 } else { 16 };
    let mut table = vec![];
    let mut p = O;
    for _ in 0..=4 * maxk {
        table.push(p);
        p = add::<C>(&p, &g);
    }
    let at = |k: i64| -> Aff {
        let t = table[k.unsigned_abs() as usize];
        if k < 0 {
            neg::<C>(&t)
        } else {
            t
        }
    };
    let beta: U256 = realf::val(&C::BETA_BASE);
    let phi = |a: &Aff| if a.inf { *a } else { Aff { x: mulmod(&a.x, &beta, &C::P), ..*a } };
    c.case(&format!("{} constants", C::NAME), |_| {
        ensure!(!g.inf && on_curve::<C>(&g.x, &g.y), "the generator is not on the curve");
        ensure!(realf::val(&C::b()) == [C::B, 0, 0, 0], "curve constant");
        ensure!(coords(&C::zero()).inf && bool::from(C::zero().is_zero()), "zero is not the identity");
        ensure!(mulmod(&mulmod(&beta, &beta, &C::P), &beta, &C::P) == [1, 0, 0, 0] && beta != [1, 0, 0, 0], "cube root of unity");
        ensure!(times::<C>(&C::N, &g).inf, "the generator's order is not the scalar modulus");
        states(1);
        transitions(1);
        Ok(())
    });
    let mut pts: Vec<(String, Aff)> = (-maxk..=maxk).map(|k| (format!("[{}]G", k), at(k))).collect();
    for k in [1i64, -1, 2, 3] {
        pts.push((format!("phi[{}]G", k), phi(&at(k))));
        pts.push((format!("phi2[{}]G", k), phi(&phi(&at(k)))));
    }
    for (i, k) in [[1u64 << 63, 0, 0, 0], [0, 0, 0, 1 << 60], [0xdead_beef, 0xcafe, 5, 0x1234_5678]].iter().enumerate() {
        let q = times::<C>(k, &g);
        pts.push((format!("big{}", i), q));
        pts.push((format!("-big{}", i), neg::<C>(&q)));
    }
    let (lg, lh): (C, C) = (point(&g), point(&at(7)));
    c.case(&format!("{} representations", C::NAME), |c| {
        c.sample(format!("{}: {} points, up to 14 representations each", C::NAME, pts.len()));
        for (n, a) in &pts {
            ensure!(a.inf || on_curve::<C>(&a.x, &a.y), "reference");
            for (i, r) in reps::<C>(a, &lg, &lh).iter().enumerate() {
                same(&format!("{} representation {}", n, i), r, a)?;
                same(&format!("double of {} representation {}", n, i), &r.double(), &add::<C>(a, a))?;
                for q in C::ops_neg(r) {
                    same(&format!("negation of {} representation {}", n, i), &q, &neg::<C>(a))?;
                }
                states(1);
                transitions(4);
                validated(4);
            }
        }
        Ok(())
    });
    c.case(&format!("{} pairs", C::NAME), |_| {
        let all: Vec<(String, Aff, Vec<C>)> = pts.iter().map(|(n, a)| (n.clone(), *a, reps::<C>(a, &lg, &lh))).collect();
        let idx: Vec<usize> = (0..all.len()).collect();
        par(&idx, |i| {
            let (n1, a1, r1) = &all[*i];
            for (n2, a2, r2) in &all {
                let (sum, dif) = (add::<C>(a1, a2), add::<C>(a1, &neg::<C>(a2)));
                let eq = a1 == a2;
                for (i1, p) in r1.iter().enumerate() {
                    for (i2, q) in r2.iter().enumerate() {
                        let w = |s: &str| format!("{} of {} (rep {}) and {} (rep {})", s, n1, i1, n2, i2);
                        if i1 == 0 && i2 == 0 || (i1 + i2) % 5 == 1 {
                            for (k, r) in C::ops_add(p, q).iter().enumerate() {
                                same(&w(&format!("sum form {}", k)), r, &sum)?;
                            }
                            for (k, r) in C::ops_sub(p, q).iter().enumerate() {
                                same(&w(&format!("difference form {}", k)), r, &dif)?;
                            }
                        } else {
                            same(&w("sum"), &(*p + *q), &sum)?;
                            same(&w("difference"), &(*p - *q), &dif)?;
                        }
                        ensure!((p == q) == eq && (p != q) != eq && bool::from(p.ct_eq(q)) == eq, "{} {} is wrong", C::NAME, w("equality"));
                        for ch in 0..2u8 {
                            let s = C::conditional_select(p, q, Choice::from(ch));
                            ensure!(coords(&s) == if ch == 1 { *a2 } else { *a1 }, "{} {} is wrong", C::NAME, w("selection"));
                        }
                        states(1);
                        transitions(5);
                        validated(5);
                    }
                }
            }
            Ok(())
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    // histories: labels tracked as integers
    let depth = if th { 6 } else { 5 };
    c.case(&format!("{} histories", C::NAME), |c| {
        // enough reference multiples
        let max = 64i64 << depth;
        let mut t = vec![];
        let mut p = O;
        for _ in 0..=max {
            t.push(p);
            p = add::<C>(&p, &g);
        }
        let at = |k: i64| {
            let a = t[k.unsigned_abs() as usize];
            if k < 0 {
                neg::<C>(&a)
            } else {
                a
            }
        };
        c.sample(format!("{}: all histories of {} operations out of 10 from 4 starting points", C::NAME, depth));
        let consts: Vec<C> = [1i64, 2, 3].iter().map(|k| point(&at(*k))).collect();
        let starts: Vec<(i64, C)> = vec![(0, C::zero()), (1, C::one()), (-1, -C::one()), (3, C::one().double() + C::one())];
        let items: Vec<(usize, usize)> = (0..starts.len()).flat_map(|s| (0..10).map(move |o| (s, o))).collect();
        fn step<C: RealCurve>(op: usize, k: i64, p: C, prev: (i64, C), c: &[C]) -> (i64, C) {
            match op {
                0 => (k + 1, p + c[0]),
                1 => (k - 1, p - c[0]),
                2 => (2 * k, p.double()),
                3 => (-k, -p),
                4 => (2 * k, p + p),
                5 => (0, p - p),
                6 => (k + prev.0, p + prev.1),
                7 => (prev.0 - k, prev.1 - p),
                8 => (2 - k, c[1] - p),
                _ => (k + 3, c[2] + p),
            }
        }
        fn rec<C: RealCurve>(d: u32, k: i64, p: C, prev: (i64, C), first: Option<usize>, c: &[C], at: &dyn Fn(i64) -> Aff, path: &mut Vec<usize>) -> Result<(), String> {
            if coords(&p) != at(k) || bool::from(p.is_zero()) != (k == 0) {
                return Err(format!("{}: history {:?} should give [{}]G", C::NAME, path, k));
            }
            if (p == prev.1) != (k == prev.0) {
                return Err(format!("{}: equality after history {:?} ([{}]G vs [{}]G)", C::NAME, path, k, prev.0));
            }
            states(1);
            validated(1);
            if d == 0 {
                return Ok(());
            }
            for op in 0..10 {
                if first.map(|f| f != op).unwrap_or(false) {
                    continue;
                }
                transitions(1);
                let (k2, p2) = step(op, k, p, prev, c);
                path.push(op);
                rec(d - 1, k2, p2, (k, p), None, c, at, path)?;
                path.pop();
            }
            Ok(())
        }
        par(&items, |(s, o)| rec(depth, starts[*s].0, starts[*s].1, (0, C::zero()), Some(*o), &consts, &at, &mut vec![]))
            .into_iter()
            .collect::<Result<Vec<_>, _>>()
            .map(|_| ())
    });
}

fn main() {
    let mut c = Ctx::new("C01", "model_checking");
    c.rule("a state is an ordered pair of point representations or the point reached by an operation history; every operator form applied there must give the coordinates of the affine chord-and-tangent reference over integers");
    c.bound("points [k]G for small k, their endomorphism images and large multiples; 7 to 14 projective representations each; all operation histories up to the stated depth");
    curve::<Ec0>(&mut c);
    curve::<Ec1>(&mut c);
    c.finish()
}
