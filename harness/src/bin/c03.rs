//! C03: point encodings and coordinates.
use halo::{Curve, Ec0, Ec1, Field};
use halo_mc::big::*;
use halo_mc::ecref::*;
use halo_mc::realf::*;
use halo_mc::*;
use std::collections::BTreeMap;

/// Square root by the reference: Tonelli-Shanks over integers.
fn sqrt(a: &U256, m: &U256) -> Option<U256> {
    let one = [1, 0, 0, 0];
    if is_zero(a) {
        return Some(*a);
    }
    let (mut q, _) = sub256(m, &one);
    let h = shr(&q, 1);
    if powmod(a, &h, m) != one {
        return None;
    }
    let mut s = 0;
    while q[0] & 1 == 0 {
        q = shr(&q, 1);
        s += 1;
    }
    let mut z = [2, 0, 0, 0];
    while powmod(&z, &h, m) == one {
        z[0] += 1;
    }
    let mut mm = s;
    let mut c = powmod(&z, &q, m);
    let mut t = powmod(a, &q, m);
    let (q1, _) = sub256(&q, &one);
    let mut r = powmod(a, &addmod(&shr(&q1, 1), &one, m), m);
    while t != one {
        let mut i = 0;
        let mut u = t;
        while u != one {
            u = mulmod(&u, &u, m);
            i += 1;
        }
        let mut b = c;
        for _ in 0..mm - i - 1 {
            b = mulmod(&b, &b, m);
        }
        mm = i;
        c = mulmod(&b, &b, m);
        t = mulmod(&t, &c, m);
        r = mulmod(&r, &b, m);
    }
    Some(r)
}
/// Reference decoding.
fn decode<C: RealCurve>(b: &[u8; 32]) -> Option<Aff> {
    let sign = b[31] >> 7;
    let mut c = *b;
    c[31] &= 0x7f;
    let x = from_bytes(&c);
    if cmp(&x, &C::P) != std::cmp::Ordering::Less {
        return None;
    }
    let m = &C::P;
    if is_zero(&x) && sign == 0 {
        return Some(O);
    }
    let y = sqrt(&addmod(&mulmod(&mulmod(&x, &x, m), &x, m), &[C::B, 0, 0, 0], m), m)?;
    let y = if (y[0] & 1) as u8 == sign { y } else { negmod(&y, m) };
    Some(Aff { x, y, inf: false })
}
fn one<C: RealCurve>(b: &[u8; 32]) -> Result<bool, String> {
    let want = decode::<C>(b);
    let got = C::from_bytes(b);
    states(1);
    transitions(1);
    validated(1);
    match want {
        None => {
            ensure!(bool::from(got.is_none()), "{}: {} is not the encoding of a point but is accepted", C::NAME, hexb(b));
            Ok(false)
        }
        Some(a) => {
            ensure!(bool::from(got.is_some()), "{}: the encoding {} of a point is rejected", C::NAME, hexb(b));
            let p = got.unwrap();
            ensure!(coords(&p) == a, "{}: {} decodes to another point", C::NAME, hexb(b));
            ensure!(p.is_on_curve() && bool::from(p.is_zero()) == a.inf, "{}: {} decodes to a point off the curve", C::NAME, hexb(b));
            ensure!(p.to_bytes() == *b, "{}: {} re-encodes as {}", C::NAME, hexb(b), hexb(&p.to_bytes()));
            // another representation of the point encodes alike
            let q = (p + C::one()) - C::one();
            ensure!(q.to_bytes() == *b, "{}: a projective representation of {} encodes as {}", C::NAME, hexb(b), hexb(&q.to_bytes()));
            let n = -p;
            if !a.inf {
                let mut f = *b;
                f[31] ^= 0x80;
                ensure!(n.to_bytes() == f, "{}: the negation of {} encodes as {}", C::NAME, hexb(b), hexb(&n.to_bytes()));
            }
            Ok(true)
        }
    }
}
fn all<T>(r: Vec<Result<T, String>>) -> Result<Vec<T>, String> {
    r.into_iter().collect()
}

fn curve<C: RealCurve>(c: &mut Ctx)
where
    C::Base: RealField,
{
    let th = c.thorough;
    let mut xs: Vec<U256> = landmarks::<C::Base>().into_iter().step_by(if th { 1 } else { 3 }).collect();
    xs.extend((0..if th { 3000 } else { 300 }).map(|k| [k, 0, 0, 0]));
    xs.extend(digits::<C::Base>(if th { &[0, 1, !0, 1 << 63] } else { &[0, !0] }, true));
    // at and above the modulus
    for k in 0..16u64 {
        let s = add256(&C::P, &[k, 0, 0, 0]);
        xs.push([s[0], s[1], s[2], s[3]]);
        let (d, _) = sub256(&C::P, &[k + 1, 0, 0, 0]);
        xs.push(d);
    }
    xs.push([!0, !0, !0, !0 >> 1]);
    xs.push([0, 0, 0, !0 >> 1]);
    // multiples of the generator and every one-bit change of their x
    let g = gen::<C>();
    let mut p = g;
    for k in 0..if th { 16 } else { 3 } {
        xs.push(p.x);
        for i in 0..255 {
            let mut x = p.x;
            x[i / 64] ^= 1 << (i % 64);
            xs.push(x);
        }
        p = add::<C>(&p, &g);
        let _ = k;
    }
    for x in &mut xs {
        x[3] &= !0 >> 1;
    }
    xs.sort();
    xs.dedup();
    c.case(&format!("{} encodings", C::NAME), |c| {
        let r = all(par(&xs, |x| {
            let mut n = 0;
            for sign in 0..2u8 {
                let mut b = to_bytes(x);
                b[31] |= sign << 7;
                n += one::<C>(&b)? as u64;
            }
            Ok(n)
        }))?;
        let n: u64 = r.iter().sum();
        c.sample(format!("{}: {} x coordinates with both signs, {} valid encodings", C::NAME, xs.len(), n));
        ensure!(n > 100, "too few valid encodings");
        Ok(())
    });
    c.case(&format!("{} distinct encodings", C::NAME), |_| {
        let mut seen: BTreeMap<[u8; 32], u64> = BTreeMap::new();
        let mut p = O;
        for k in 0..2000u64 {
            let q: C = point(&p);
            let b = q.to_bytes();
            if let Some(o) = seen.insert(b, k) {
                return Err(format!("[{}]G and [{}]G have the same encoding", o, k));
            }
            if !p.inf {
                ensure!(seen.insert((-q).to_bytes(), k).is_none(), "[-{}]G encodes like another point", k);
            }
            ensure!(coords(&C::from_bytes(&b).unwrap()) == p, "[{}]G does not round-trip", k);
            states(1);
            transitions(2);
            validated(1);
            p = add::<C>(&p, &g);
        }
        Ok(())
    });
    c.case(&format!("{} coordinates", C::NAME), |_| {
        let m = &C::P;
        let items: Vec<U256> = xs.iter().filter(|x| cmp(*x, m) == std::cmp::Ordering::Less).cloned().collect();
        all(par(&items, |x| {
            let x3 = addmod(&mulmod(&mulmod(x, x, m), x, m), &[C::B, 0, 0, 0], m);
            let y = sqrt(&x3, m);
            let mut ys = vec![[0, 0, 0, 0], [1, 0, 0, 0], *x, x3];
            if let Some(y) = y {
                ys.extend([y, negmod(&y, m), addmod(&y, &[1, 0, 0, 0], m), submod(&y, &[1, 0, 0, 0], m)]);
            }
            for y in ys {
                let ok = on_curve::<C>(x, &y);
                let id = is_zero(x) && is_zero(&y);
                let r = C::from_xy(fe(x), fe(&y));
                states(1);
                transitions(1);
                validated(1);
                ensure!(bool::from(r.is_some()) == (ok || id), "{}: ({}, {}) is {}", C::NAME, hex(x), hex(&y), if ok || id { "rejected" } else { "accepted" });
                if ok || id {
                    let p = r.unwrap();
                    let a = if id { O } else { Aff { x: *x, y, inf: false } };
                    ensure!(coords(&p) == a && bool::from(p.is_zero()) == id && p.is_on_curve(), "{}: ({}, {}) reads back differently", C::NAME, hex(x), hex(&y));
                    let (px, py, pz) = p.get_xyz();
                    let zi = pz.invert();
                    ensure!(bool::from(zi.is_none()) == id, "{}: projective coordinates", C::NAME);
                    if !id {
                        let zi: C::Base = zi.unwrap();
                        ensure!(val(&(px * zi)) == *x && val(&(py * zi)) == y, "{}: projective coordinates", C::NAME);
                        let u = C::from_xy_unchecked(fe(x), fe(&y));
                        ensure!(u == p && coords(&u) == a, "{}: unchecked construction differs", C::NAME);
                        let q = p.double() - p;
                        ensure!(coords(&q) == a, "{}: coordinates of a projective representation", C::NAME);
                    }
                } else if !id {
                    ensure!(!C::from_xy_unchecked(fe(x), fe(&y)).is_on_curve(), "{}: ({}, {}) is reported on the curve", C::NAME, hex(x), hex(&y));
                }
            }
            Ok(())
        }))?;
        Ok(())
    });
}

fn main() {
    let mut c = Ctx::new("C03", "model_checking");
    c.rule("a state is one 32-byte string or coordinate pair; acceptance and the decoded point must match the integer reference, and accepted strings must re-encode identically from every representation");
    c.bound("x: zero, powers of two and neighbours, modulus neighbourhood below and above, limb patterns, small values, generator multiples with every one-bit change; both signs");
    curve::<Ec0>(&mut c);
    curve::<Ec1>(&mut c);
    c.finish()
}
