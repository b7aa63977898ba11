//! G07: curve point gadgets.
use halo::{Boolean, Curve, CurvePoint, Ec0, Ec1};
use halo_mc::gad::*;
use halo_mc::ptgad::*;
use halo_mc::r1cs::*;
use halo_mc::tiny::E;
use halo_mc::*;

/// conditions: constant, allocated and negated bits
const CONDS: [(u8, bool); 6] = [(0, false), (0, true), (1, false), (1, true), (2, false), (2, true)];

fn one<C: Group>(p: &C, kind: u8, probe: &C) -> Result<(), String> {
    let w = |s: &str| format!("{} of {:?} kind {} on {}", s, p.r_xy(), kind, C::label());
    gadget::<C::Base>(&w("coordinates"), Expect::Is(probed_want(p, probe)), &|g| {
        let a = point(g, kind, p);
        g.cs.fix();
        probed(g, &a, probe)
    })?;
    gadget::<C::Base>(&w("double"), Expect::Is(probed_want(&p.r_add(p), probe)), &|g| {
        let a = point(g, kind, p);
        g.cs.fix();
        let r = a.double(&mut g.cs)?;
        probed(g, &r, probe)
    })?;
    for (ck, cv) in CONDS {
        let n = if cv { p.r_neg() } else { *p };
        gadget::<C::Base>(&w(&format!("negation ({} {})", ck, cv)), Expect::Is(probed_want(&n, probe)), &|g| {
            let a = point(g, kind, p);
            let c = g.boolean(ck, cv);
            g.cs.fix();
            let r = a.conditional_neg(&mut g.cs, &c)?;
            probed(g, &r, probe)
        })?;
        let n = if cv { p.r_endo() } else { *p };
        gadget::<C::Base>(&w(&format!("endomorphism ({} {})", ck, cv)), Expect::Is(probed_want(&n, probe)), &|g| {
            let a = point(g, kind, p);
            let c = g.boolean(ck, cv);
            g.cs.fix();
            let r = a.conditional_endo(&mut g.cs, &c)?;
            probed(g, &r, probe)
        })?;
    }
    Ok(())
}

fn two<C: Group>(p: &C, q: &C, kp: u8, kq: u8, probe: &C) -> Result<(), String> {
    let w = |s: &str| format!("{} of {:?} kind {} and {:?} kind {} on {}", s, p.r_xy(), kp, q.r_xy(), kq, C::label());
    let sum = p.r_add(q);
    let (pi, qi) = (p.r_is_id(), q.r_is_id());
    let distinct = p.r_xy().0 != q.r_xy().0;
    let generic = !pi && !qi && distinct;
    gadget::<C::Base>(&w("sum"), Expect::Is(probed_want(&sum, probe)), &|g| {
        let a = point(g, kp, p);
        let b = point(g, kq, q);
        g.cs.fix();
        let r = a.add(&mut g.cs, &b)?;
        probed(g, &r, probe)
    })?;
    for (ck, cv) in CONDS {
        let r = if cv { sum } else { *p };
        gadget::<C::Base>(&w(&format!("conditional ({} {}) sum", ck, cv)), Expect::Is(probed_want(&r, probe)), &|g| {
            let a = point(g, kp, p);
            let b = point(g, kq, q);
            let c = g.boolean(ck, cv);
            g.cs.fix();
            let r = a.add_conditionally(&mut g.cs, &b, &c)?;
            probed(g, &r, probe)
        })?;
        if generic {
            gadget::<C::Base>(&w(&format!("incomplete conditional ({} {}) sum", ck, cv)), Expect::Is(probed_want(&r, probe)), &|g| {
                let a = point(g, kp, p);
                let b = point(g, kq, q);
                let c = g.boolean(ck, cv);
                g.cs.fix();
                let r = a.add_conditionally_incomplete(&mut g.cs, &b, &c)?;
                probed(g, &r, probe)
            })?;
        }
    }
    if generic {
        gadget::<C::Base>(&w("incomplete sum"), Expect::Is(probed_want(&sum, probe)), &|g| {
            let a = point(g, kp, p);
            let b = point(g, kq, q);
            g.cs.fix();
            let r = a.add_incomplete(&mut g.cs, &b)?;
            probed(g, &r, probe)
        })?;
        let s = sum.r_add(p);
        if !s.r_is_id() {
            gadget::<C::Base>(&w("double and add"), Expect::Is(probed_want(&s, probe)), &|g| {
                let a = point(g, kp, p);
                let b = point(g, kq, q);
                g.cs.fix();
                let r = a.double_and_add_incomplete(&mut g.cs, &b)?;
                probed(g, &r, probe)
            })?;
        }
    }
    if pi && qi {
        // only satisfiability is promised
        for op in 0..2 {
            let mut g = G::<C::Base>::new(false);
            let a = point(&mut g, kp, p);
            let b = point(&mut g, kq, q);
            let r = guard(|| if op == 0 { a.add_incomplete(&mut g.cs, &b) } else { a.double_and_add_incomplete(&mut g.cs, &b) });
            let r = r.map_err(|e| format!("{}: {}", w("incomplete sum of identities"), e))?;
            ensure!(r.is_ok(), "{}: {:?}", w("incomplete sum of identities"), r.err());
            g.cs.honest().map_err(|e| format!("{}: {}", w("incomplete sum of identities"), e))?;
        }
    }
    Ok(())
}

/// All operation histories over complete operations.
fn chain<C: Group>(p: &C, q: &C, prog: usize, depth: u32, probe: &C) -> Result<(), String> {
    let mut want = *p;
    let flags = (prog / 8usize.pow(depth)) & 1 == 1;
    for i in 0..depth {
        want = match prog / 8usize.pow(i) % 8 {
            0 => want.r_add(q),
            1 => want.r_add(&want),
            2 => want.r_neg(),
            3 => want.r_endo(),
            4 => {
                if flags {
                    want.r_add(q)
                } else {
                    want
                }
            }
            5 => want.r_add(&q.r_neg()),
            6 => {
                if flags {
                    want.r_add(&want)
                } else {
                    want
                }
            }
            _ => q.r_add(&want.r_neg()),
        };
    }
    let what = format!("history {} of length {} on {:?}, {:?} over {}", prog, depth, p.r_xy(), q.r_xy(), C::label());
    gadget::<C::Base>(&what, Expect::Is(probed_want(&want, probe)), &|g| {
        let mut cur = point(g, 1, p);
        let q = point(g, 1, q);
        let f = g.boolean(1, flags);
        g.cs.fix();
        let t = Boolean::constant(true);
        for i in 0..depth {
            let cs = &mut g.cs;
            cur = match prog / 8usize.pow(i) % 8 {
                0 => cur.add(cs, &q)?,
                1 => cur.double(cs)?,
                2 => cur.conditional_neg(cs, &t)?,
                3 => cur.conditional_endo(cs, &t)?,
                4 => cur.add_conditionally(cs, &q, &f)?,
                5 => {
                    let n = q.conditional_neg(&mut *cs, &t)?;
                    cur.add(cs, &n)?
                }
                6 => {
                    let c2 = cur.conditional_neg(&mut *cs, &Boolean::constant(false))?;
                    cur.add_conditionally(cs, &c2, &f)?
                }
                _ => {
                    let n = cur.conditional_neg(&mut *cs, &t)?;
                    q.add(cs, &n)?
                }
            };
        }
        probed(g, &cur, probe)
    })?;
    Ok(())
}

fn curve<C: Group>(c: &mut Ctx, pts: &[C], kinds: u8, depth: u32, npairs: usize) {
    let name = C::label();
    let probe = C::one();
    c.case(&format!("{} unary", name), |c| {
        c.sample(format!("{}: {} points, {} representations each", name, pts.len(), kinds));
        let rs = par(pts, |p| (0..kinds).try_for_each(|k| one(p, k, &probe)));
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} binary", name), |_| {
        let pairs: Vec<(C, C)> = pts.iter().flat_map(|p| pts.iter().map(move |q| (*p, *q))).collect();
        let rs = par(&pairs, |(p, q)| {
            for kp in 0..kinds.min(3) {
                for kq in 0..kinds.min(3) {
                    two(p, q, kp, kq, &probe)?;
                }
            }
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} histories", name), |c| {
        c.sample(format!("{}: histories of length {} over 8 operations", name, depth));
        let n = 8usize.pow(depth) * 2;
        let mut pairs = vec![];
        for (i, p) in pts.iter().enumerate() {
            for (j, q) in pts.iter().enumerate() {
                if i * pts.len() + j < npairs || i == j {
                    pairs.push((*p, *q));
                }
            }
        }
        pairs.truncate(npairs);
        let progs: Vec<usize> = (0..n).collect();
        let rs = par(&progs, |k| pairs.iter().try_for_each(|(p, q)| chain(p, q, *k, depth, &probe)));
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
}

/// Every assignment a witnessed point can take.
fn witness<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8>(c: &mut Ctx) {
    type C<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> = E<P, N, B, VB, VS>;
    assert!(C::<P, N, B, VB, VS>::check_params());
    c.case(&format!("E{}/{} witnessed points", P, N), |_| {
        let pts = C::<P, N, B, VB, VS>::all();
        let probe = pts[1];
        for p in &pts {
            let mut g = G::new(false);
            let w = CurvePoint::<C<P, N, B, VB, VS>>::witness(&mut g.cs, || Ok(*p)).map_err(|e| format!("{:?}", e))?;
            let outs = probed(&mut g, &w, &probe).map_err(|e| format!("{:?}", e))?;
            g.cs.honest().map_err(|e| format!("witness of {:?}: {}", p, e))?;
            let lcs: Vec<_> = outs.iter().map(|o| o.0.clone()).collect();
            let n = g.cs.sound(&lcs, "witnessed point", &|o| pts.iter().any(|t| o == &probed_want(t, &probe)[..]))?;
            ensure!(n == pts.len(), "only {} of {} points can be witnessed", n, pts.len());
        }
        Ok(())
    });
}

fn main() {
    let mut c = Ctx::new("G07", "model_checking");
    c.rule("a state is a node of the search for satisfying assignments of the constraints a point gadget emitted with operands and conditions fixed; every assignment found must carry the coordinates given by the group law, and adding a probe point must give the sum with the probe");
    c.bound("all points, pairs and conditions on curves over F_7, F_13, F_19, F_43, in constant, witnessed, negated and computed representations; landmark points of both production curves; all histories of 8 complete operations up to the stated length");
    witness::<7, 13, 3, 0, 0>(&mut c);
    witness::<13, 7, 6, 0, 0>(&mut c);
    witness::<19, 13, 2, 0, 1>(&mut c);
    witness::<43, 31, 7, 0, 0>(&mut c);
    let d = c.tier(2, 3);
    curve(&mut c, &E::<7, 13, 3, 0, 0>::all(), 4, d, 169);
    curve(&mut c, &E::<7, 13, 3, 1, 1>::all(), 4, d, 169);
    curve(&mut c, &E::<13, 7, 6, 0, 0>::all(), 4, d + 1, 49);
    curve(&mut c, &E::<19, 13, 2, 0, 1>::all(), 4, 2, 169);
    if c.thorough {
        curve(&mut c, &E::<43, 31, 7, 0, 0>::all(), 4, 2, 100);
        curve(&mut c, &E::<67, 79, 7, 0, 0>::all(), 2, 1, 100);
    }
    real_curve::<Ec0>(&mut c);
    real_curve::<Ec1>(&mut c);
    ensure_complete(&mut c);
    c.finish()
}

fn real_curve<C: Group>(c: &mut Ctx) {
    let o = C::one();
    let mut pts = vec![C::zero(), o, o.r_neg(), o.r_add(&o), o.r_endo(), o.r_times(7), o.r_endo().r_endo(), o.r_endo().r_neg(), o.r_times(0xffff_ffff_ffff)];
    if c.thorough {
        for k in [3, 5, 1 << 20, 1 << 63] {
            pts.push(o.r_times(k));
            pts.push(o.r_times(k).r_endo());
        }
    }
    curve(c, &pts, 3, 2, 4);
}
