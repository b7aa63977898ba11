//! G08: scalar multiplication gadgets.
use halo::{AllocatedBit, Curve, Ec0, Ec1, Field};
use halo_mc::gad::*;
use halo_mc::ptgad::*;
use halo_mc::tiny::E;
use halo_mc::*;

fn bits<F: Field>(g: &mut G<F>, b: &[bool]) -> Vec<AllocatedBit> {
    b.iter().map(|x| g.bit(*x)).collect()
}
/// [k] p for little-endian bits
fn mul_bits<C: Group>(p: &C, b: &[bool]) -> C {
    let mut r = C::zero();
    for x in b.iter().rev() {
        r = r.r_add(&r);
        if *x {
            r = r.r_add(p);
        }
    }
    r
}
fn same_x<C: Group>(a: &C, b: &C) -> bool {
    a.r_is_id() || b.r_is_id() || a.r_xy().0 == b.r_xy().0
}
/// (2 acc + q), if no intermediate addition is exceptional
fn daa<C: Group>(acc: &C, q: &C) -> Option<C> {
    if same_x(acc, q) {
        return None;
    }
    let s = acc.r_add(q);
    if same_x(&s, acc) {
        return None;
    }
    Some(s.r_add(acc))
}
/// the double-and-add ladder of a scalar with its top bit set; None when a
/// step would add equal or opposite points (outside the domain)
fn fast<C: Group>(p: &C, b: &[bool]) -> Option<C> {
    if b.len() == 1 {
        return Some(*p);
    }
    let d = p.r_add(p);
    if same_x(&d, p) {
        return None;
    }
    let mut acc = d.r_add(p);
    for i in (1..b.len() - 1).rev() {
        acc = daa(&acc, &if b[i] { *p } else { p.r_neg() })?;
    }
    if same_x(&acc, p) {
        return None;
    }
    Some(if b[0] { acc } else { acc.r_add(&p.r_neg()) })
}
/// the walk a challenge stands for
fn endo<C: Group>(p: &C, b: &[bool]) -> Option<C> {
    let d = p.r_add(p);
    if same_x(&d, p) {
        return None;
    }
    let mut acc = d.r_add(p);
    for i in 1..64 {
        acc = daa(&acc, &if b[2 * i] { p.r_neg() } else { *p })?;
        if b[2 * i + 1] {
            acc = acc.r_endo();
        }
    }
    Some(acc)
}
fn expand(k: u128, n: usize) -> Vec<bool> {
    (0..n).map(|i| (k >> i) & 1 == 1).collect()
}
fn name(b: &[bool]) -> String {
    b.iter().rev().map(|x| if *x { '1' } else { '0' }).collect()
}

fn complete<C: Group>(p: &C, b: &[bool], kind: u8, probe: &C, all: &[C]) -> Result<(), String> {
    let w = |s: &str| format!("{} of {:?} kind {} by {} on {}", s, p.r_xy(), kind, name(b), C::label());
    gadget::<C::Base>(&w("multiple"), Expect::Is(probed_want(&mul_bits(p, b), probe)), &|g| {
        let a = point(g, kind, p);
        let s = bits(g, b);
        g.cs.fix();
        let r = a.multiply(&mut g.cs, &s)?;
        probed(g, &r, probe)
    })?;
    // every point whose multiple is p (all: candidates)
    let pre: Vec<Vec<C::Base>> = all.iter().filter(|q| mul_bits(*q, b).same(p)).map(|q| probed_want(q, probe)).collect();
    let ok = |o: &[C::Base]| pre.iter().any(|w| &w[..] == o);
    let expect = if pre.is_empty() { Expect::Unsat } else { Expect::Where(&ok) };
    gadget::<C::Base>(&w("inverse multiple"), expect, &|g| {
        let a = point(g, kind, p);
        let s = bits(g, b);
        g.cs.fix();
        let r = a.multiply_inv(&mut g.cs, &s)?;
        probed(g, &r, probe)
    })?;
    Ok(())
}

fn quick<C: Group>(p: &C, b: &[bool], kind: u8, probe: &C, all: &[C]) -> Result<bool, String> {
    let w = |s: &str| format!("{} of {:?} kind {} by {} on {}", s, p.r_xy(), kind, name(b), C::label());
    let id = p.r_is_id();
    let want = if id { Some(C::zero()) } else { fast(p, b) };
    if let Some(want) = &want {
        ensure!(want.same(&mul_bits(p, b)), "{}: ladder and multiple differ", w("fast multiple"));
        gadget_with::<C::Base>(&w("fast multiple"), Expect::Is(probed_want(want, probe)), !id || b.len() < 3, &|g| {
            let a = point(g, kind, p);
            let s = bits(g, b);
            g.cs.fix();
            let r = a.multiply_fast(&mut g.cs, &s)?;
            probed(g, &r, probe)
        })?;
    }
    // inverse: q with [k]q = p, when q's own ladder is in the domain
    let pre: Vec<C> = all.iter().filter(|q| mul_bits(*q, b).same(p)).cloned().collect();
    if pre.len() != 1 {
        return Ok(want.is_some());
    }
    let q = pre[0];
    if q.r_is_id() || fast(&q, b).is_some() {
        // other candidates must be in the domain as well to speak of uniqueness
        let dom = all.iter().all(|t| t.r_is_id() || fast(t, b).is_some());
        gadget_with::<C::Base>(&w("fast inverse multiple"), Expect::Is(probed_want(&q, probe)), dom && !id && C::label() == "E7/13" && b.len() < 3, &|g| {
            let a = point(g, kind, p);
            let s = bits(g, b);
            g.cs.fix();
            let r = a.multiply_inv_fast(&mut g.cs, &s)?;
            probed(g, &r, probe)
        })?;
    }
    Ok(want.is_some())
}

fn walk<C: Group>(p: &C, k: u128, kind: u8, inverse: bool, probe: &C) -> Result<bool, String> {
    let b = expand(k, 128);
    let w = |s: &str| format!("{} of {:?} kind {} by {:032x} on {}", s, p.r_xy(), kind, k, C::label());
    let id = p.r_is_id();
    let want = if id {
        C::zero()
    } else {
        match endo(p, &b) {
            None => return Ok(false),
            Some(x) => x,
        }
    };
    let scalar: C::Scalar = halo::get_challenge_scalar::<C::Scalar, C::Scalar>(C::Scalar::from_u128(k));
    let big = <C::Scalar as Field>::NUM_BITS > 128;
    if big {
        ensure!(want.same(&(*p * scalar)), "{}: the walk is not the multiple by the challenge scalar", w("endo"));
    }
    if !inverse {
        gadget_with::<C::Base>(&w("endo multiple"), Expect::Is(probed_want(&want, probe)), !id, &|g| {
            let a = point(g, kind, p);
            let s = bits(g, &b);
            g.cs.fix();
            let r = a.multiply_endo(&mut g.cs, &s)?;
            probed(g, &r, probe)
        })?;
        return Ok(true);
    }
    if !big {
        return Ok(false);
    }
    // divide the walk's end point again
    gadget_with::<C::Base>(&w("endo inverse"), Expect::Is(probed_want(p, probe)), false, &|g| {
        let a = point(g, kind, &want);
        let s = bits(g, &b);
        g.cs.fix();
        let r = a.multiply_inv_endo(&mut g.cs, &s)?;
        probed(g, &r, probe)
    })?;
    // the dividend is forced by the quotient: any other dividend is refused
    let mut g = G::<C::Base>::new(false);
    let a = point(&mut g, 1, &want);
    let s = bits(&mut g, &b);
    let (x, y) = a.get_xy();
    a.multiply_inv_endo(&mut g.cs, &s).map_err(|e| format!("{}: {:?}", w("endo inverse"), e))?;
    for n in [x, y] {
        let (lc, v) = g.out_num(&n);
        let var = lc.as_ref()[0].0;
        g.cs.set(var, v.unwrap() + C::Base::one());
        ensure!(g.cs.honest().is_err(), "{}: another dividend is accepted", w("endo inverse"));
        g.cs.set(var, v.unwrap());
    }
    Ok(true)
}

fn tiny<C: Group>(c: &mut Ctx, all: &[C], maxlen: usize, kinds: u8) {
    let n = C::label();
    let probe = all[1];
    let mut scalars = vec![];
    for len in 0..=maxlen {
        for k in 0..1u128 << len {
            scalars.push(expand(k, len));
        }
    }
    c.case(&format!("{} complete", n), |c| {
        c.sample(format!("{}: all {} points by all {} bit strings up to length {}", n, all.len(), scalars.len(), maxlen));
        let items: Vec<_> = all.iter().flat_map(|p| scalars.iter().map(move |s| (*p, s.clone()))).collect();
        par(&items, |(p, s)| (0..kinds).try_for_each(|k| complete(p, s, k, &probe, all))).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} fast", n), |_| {
        let items: Vec<_> = all.iter().flat_map(|p| scalars.iter().filter(|s| s.last() == Some(&true)).map(move |s| (*p, s.clone()))).collect();
        let r = par(&items, |(p, s)| {
            let mut n = 0;
            for k in 0..kinds {
                n += quick(p, s, k, &probe, all)? as usize;
            }
            Ok(n)
        });
        let r: usize = r.into_iter().collect::<Result<Vec<_>, _>>()?.into_iter().sum();
        ensure!(r > 0, "no scalar in the domain");
        Ok(())
    });
}

fn real<C: Group>(c: &mut Ctx) {
    let n = C::label();
    let o = C::one();
    let probe = o.r_times(11).r_neg();
    let pts = [C::zero(), o, o.r_neg(), o.r_endo(), o.r_times(7)];
    let len = c.tier(4, 6);
    c.case(&format!("{} complete", n), |_| {
        let mut items = vec![];
        for (i, p) in pts.iter().enumerate() {
            for l in 0..=len {
                for k in 0..1u128 << l {
                    if i < 2 || l < 3 {
                        items.push((*p, expand(k, l)));
                    }
                }
            }
        }
        // long scalars: every position
        for l in [64usize, 128] {
            for i in (0..l).step_by(if l == 64 { 9 } else { 17 }) {
                items.push((o, expand(1 << i, l)));
                items.push((o, expand(!(1 << i), l)));
            }
        }
        par(&items, |(p, b)| {
            for kind in 0..2 {
                let w = format!("multiple of {:?} kind {} by {} on {}", p.r_xy(), kind, name(b), C::label());
                gadget::<C::Base>(&w, Expect::Is(probed_want(&mul_bits(p, b), &probe)), &|g| {
                    let a = point(g, kind, p);
                    let s = bits(g, b);
                    g.cs.fix();
                    let r = a.multiply(&mut g.cs, &s)?;
                    probed(g, &r, &probe)
                })?;
                if b.contains(&true) {
                    // p = [k] q
                    let w = format!("inverse multiple of {:?} kind {} by {} on {}", p.r_xy(), kind, name(b), C::label());
                    let m = mul_bits(p, b);
                    gadget_with::<C::Base>(&w, Expect::Is(probed_want(p, &probe)), false, &|g| {
                        let a = point(g, kind, &m);
                        let s = bits(g, b);
                        g.cs.fix();
                        let r = a.multiply_inv(&mut g.cs, &s)?;
                        probed(g, &r, &probe)
                    })?;
                }
            }
            Ok(())
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    c.case(&format!("{} fast", n), |_| {
        let mut items = vec![];
        for p in &pts {
            for l in 1..=len {
                for k in 0..1u128 << (l - 1) {
                    items.push((*p, expand(k | 1 << (l - 1), l)));
                }
            }
            for l in [64usize, 127, 128] {
                for i in (0..l).step_by(23) {
                    items.push((*p, expand(1 << i | 1 << (l - 1), l)));
                }
                items.push((*p, expand(!0, l)));
            }
        }
        par(&items, |(p, b)| {
            for kind in 0..2 {
                quick(p, b, kind, &probe, &[])?;
                let w = format!("fast inverse multiple of {:?} kind {} by {} on {}", p.r_xy(), kind, name(b), C::label());
                let m = mul_bits(p, b);
                gadget_with::<C::Base>(&w, Expect::Is(probed_want(p, &probe)), false, &|g| {
                    let a = point(g, kind, &m);
                    let s = bits(g, b);
                    g.cs.fix();
                    let r = a.multiply_inv_fast(&mut g.cs, &s)?;
                    probed(g, &r, &probe)
                })?;
            }
            Ok(())
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    let step = c.tier(1, 1);
    c.case(&format!("{} endo", n), |c| {
        let mut items = vec![];
        for i in (0..128).step_by(step) {
            items.push((1u128 << i, 1u8, o));
            items.push((!(1u128 << i), 1, o));
        }
        for (j, k) in [0u128, !0, !0 / 3, !0 / 3 * 2, 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210, 1 << 127 | 5].into_iter().enumerate() {
            for p in &pts {
                for kind in 0..3 {
                    items.push((k, kind, *p));
                }
            }
            if j == 0 && c.thorough {
                for i in 0..127 {
                    items.push((3u128 << i, 1, pts[4]));
                    items.push((!(3u128 << i), 1, pts[4]));
                }
            }
        }
        c.sample(format!("{}: {} challenge patterns incl. every single-bit pattern and its complement", n, items.len()));
        par(&items, |(k, kind, p)| {
            ensure!(walk(p, *k, *kind, false, &probe)?, "walk {:x} is exceptional on a production curve", k);
            walk(p, *k, *kind, true, &probe)?;
            Ok(())
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
}

fn main() {
    let mut c = Ctx::new("G08", "model_checking");
    c.rule("a state is a node of the search for satisfying assignments of the constraints a multiplication gadget emitted with point and bits fixed; each must carry the multiple computed by repeated addition");
    c.bound("tiny curves: all points times all bit strings up to the stated length; production curves: short bit strings, single-bit patterns and complements of 64..128 bit scalars");
    c.assume("incomplete variants are judged only where no intermediate addition is exceptional (as documented); identity operands of the incomplete variants are checked for the honest assignment only");
    let l = c.tier(4, 6);
    tiny(&mut c, &E::<7, 13, 3, 0, 0>::all(), l + 1, 2);
    tiny(&mut c, &E::<13, 7, 6, 0, 0>::all(), l, 2);
    tiny(&mut c, &E::<19, 13, 2, 0, 1>::all(), l, 2);
    let m = c.tier(4, 7);
    tiny(&mut c, &E::<43, 31, 7, 0, 0>::all(), m, 2);
    tiny(&mut c, &E::<97, 79, 5, 0, 1>::all(), m - 1, 2);
    real::<Ec0>(&mut c);
    real::<Ec1>(&mut c);
    ensure_complete_all(&mut c);
    c.finish()
}
fn ensure_complete_all(c: &mut Ctx) {
    halo_mc::r1cs::ensure_complete(c);
}
