//! P04: the state accumulated between proofs verifies exactly when it is correct.
use halo::*;
use halo_mc::prog::*;
use halo_mc::proofref::*;
use halo_mc::tiny::{E, T};
use halo_mc::*;

fn leftovers_ok<C: Curve>(l: &Leftovers<C>, params: &Params<C>, ops: &[Op]) -> bool {
    if l.challenges_sq_packed_new.len() != params.k {
        return false;
    }
    let Some(ch) = roots(&l.challenges_sq_packed_new) else { return false };
    let Some(w) = weights(&ch) else { return false };
    l.g_new == msm(&w, &params.generators) && l.s_new_commitment == msm(&Model::<C::Scalar>::new(ops).sx(l.y_new, params.n), &params.generators)
}
fn check_leftovers<C: Curve>(what: &str, l: &Leftovers<C>, params: &Params<C>, ops: &[Op]) -> Result<bool, String> {
    let got = guard(|| l.verify::<_, Basic>(params, &Prog { ops, witness: false })).map_err(|e| format!("{}: verifying leftovers crashes: {}", what, e))?;
    let got = matches!(got, Ok(true));
    let want = leftovers_ok(l, params, ops);
    ensure!(got == want, "{}: leftovers that are {} are {}", what, if want { "correct" } else { "wrong" }, if got { "accepted" } else { "rejected" });
    states(1);
    validated(1);
    Ok(want)
}
fn deferred_ok<F: Field>(d: &Deferred<F>, k: usize) -> bool {
    if d.challenges_sq_packed_old.len() != k || d.challenges_sq_packed_new.len() != k {
        return false;
    }
    let (Some(o), Some(n)) = (roots(&d.challenges_sq_packed_old), roots(&d.challenges_sq_packed_new)) else { return false };
    let (Some(wo), Some(wn)) = (weights(&o), weights(&n)) else { return false };
    let rel = relation((1 << k) / 4, d.x, d.y_cur, d.ky_opening, d.tx_positive_opening, d.tx_negative_opening, d.sx_cur_opening, d.rx_opening, d.rxy_opening);
    rel == Some(true)
        && d.gx_old_opening == evalp(&wo, d.x)
        && d.b_x == evalp(&wn, d.x)
        && d.b_xy == evalp(&wn, d.x * d.y_cur)
        && d.b_y_old == evalp(&wn, d.y_old)
        && d.b_y_cur == evalp(&wn, d.y_cur)
        && d.b_y_new == evalp(&wn, d.y_new)
}
fn check_deferred<F: Field>(what: &str, d: &Deferred<F>, k: usize) -> Result<bool, String> {
    let got = guard(|| d.verify(k)).map_err(|e| format!("{}: verifying deferred data crashes: {}", what, e))?;
    let want = deferred_ok(d, k);
    ensure!(got == want, "{}: deferred data that are {} are {}", what, if want { "correct" } else { "wrong" }, if got { "accepted" } else { "rejected" });
    states(1);
    validated(1);
    Ok(want)
}
const SCALARS: usize = 16;
const NAMES: [&str; SCALARS] = ["x", "y_old", "y_cur", "y_new", "ky", "tx+", "tx-", "sx_cur", "rx", "rxy", "gx_old", "b_x", "b_xy", "b_y_old", "b_y_cur", "b_y_new"];
fn field<F: Field>(d: &mut Deferred<F>, i: usize) -> &mut F {
    match i {
        0 => &mut d.x,
        1 => &mut d.y_old,
        2 => &mut d.y_cur,
        3 => &mut d.y_new,
        4 => &mut d.ky_opening,
        5 => &mut d.tx_positive_opening,
        6 => &mut d.tx_negative_opening,
        7 => &mut d.sx_cur_opening,
        8 => &mut d.rx_opening,
        9 => &mut d.rxy_opening,
        10 => &mut d.gx_old_opening,
        11 => &mut d.b_x,
        12 => &mut d.b_xy,
        13 => &mut d.b_y_old,
        14 => &mut d.b_y_cur,
        _ => &mut d.b_y_new,
    }
}
/// Correct deferred data with the given free values; None if x or y is zero or
/// a challenge is no nonzero square.
fn correct<F: Field>(k: usize, free: [F; 10], old: &[F], new: &[F]) -> Option<Deferred<F>> {
    let [x, y_old, y_cur, y_new, ky, _, tn, sx, rx, rxy] = free;
    let (wo, wn) = (weights(&roots(old)?)?, weights(&roots(new)?)?);
    let n = (1usize << k) / 4;
    // the relation is linear in tx+: solve for it
    let zero = F::zero();
    relation(n, x, y_cur, ky, zero, tn, sx, rx, rxy)?;
    let mut lo = Deferred {
        x, y_old, y_cur, y_new, ky_opening: ky, tx_positive_opening: zero, tx_negative_opening: tn, sx_cur_opening: sx, rx_opening: rx, rxy_opening: rxy,
        challenges_sq_packed_old: old.to_vec(), gx_old_opening: evalp(&wo, x), challenges_sq_packed_new: new.to_vec(),
        b_x: evalp(&wn, x), b_xy: evalp(&wn, x * y_cur), b_y_old: evalp(&wn, y_old), b_y_cur: evalp(&wn, y_cur), b_y_new: evalp(&wn, y_new),
    };
    // t x = lhs - tn x^{-4n}, recomputed here in full
    let xi: F = x.invert().unwrap();
    let yi: F = y_cur.invert().unwrap();
    let pw = |b: F, e: usize| (0..e).fold(F::one(), |a, _| a * b);
    let mut sp = sx * pw(xi, n) * pw(y_cur, n);
    for i in 1..=n {
        sp = sp - (pw(y_cur, i) + pw(yi, i)) * pw(x, n + i);
    }
    let t = rx * pw(xi, 3 * n - 1) * (rxy * pw(xi * yi, 3 * n - 1) + sp) - pw(y_cur, n) * ky;
    lo.tx_positive_opening = (t - tn * pw(xi, 4 * n)) * xi;
    Some(lo)
}
fn mutate_deferred<F: Field>(what: &str, d: &Deferred<F>, k: usize, vals: &dyn Fn(F) -> Vec<F>) -> Result<(), String> {
    ensure!(check_deferred(what, d, k)?, "{}: the reference rejects correct deferred data", what);
    for i in 0..SCALARS {
        let mut e = d.clone();
        let old = *field(&mut e, i);
        for v in vals(old) {
            *field(&mut e, i) = v;
            check_deferred(&format!("{}, {} changed from {:?} to {:?}", what, NAMES[i], old, v), &e, k)?;
        }
    }
    for which in 0..2 {
        for j in 0..k {
            let mut e = d.clone();
            for v in vals(d.challenges_sq_packed_old[j]) {
                if which == 0 {
                    e.challenges_sq_packed_old[j] = v;
                } else {
                    e.challenges_sq_packed_new[j] = v;
                }
                check_deferred(&format!("{}, {} challenge {} changed to {:?}", what, ["old", "new"][which], j, v), &e, k)?;
            }
        }
        for len in 0..k + 3 {
            let mut e = d.clone();
            let v = if which == 0 { &mut e.challenges_sq_packed_old } else { &mut e.challenges_sq_packed_new };
            let f = v[0];
            v.resize(len, f);
            check_deferred(&format!("{}, {} {} challenges for k={}", what, len, ["old", "new"][which], k), &e, k)?;
        }
    }
    // swaps of any two scalars
    for i in 0..SCALARS {
        for j in 0..i {
            let mut e = d.clone();
            let (a, b) = (*field(&mut e, i), *field(&mut e, j));
            *field(&mut e, i) = b;
            *field(&mut e, j) = a;
            check_deferred(&format!("{}, {} and {} swapped", what, NAMES[i], NAMES[j]), &e, k)?;
        }
    }
    Ok(())
}
fn some_vals<F: Field>(v: F) -> Vec<F> {
    vec![F::zero(), F::one(), -v, v + F::one(), v + v, v * F::BETA, v * v, F::from_u64(12), F::from_u128(1 << 127), F::from_u64(13), F::from_u64(7)]
}
fn mutate_leftovers<C: Curve>(what: &str, l: &Leftovers<C>, params: &Params<C>, ops: &[Op], pts: &dyn Fn(C) -> Vec<C>, vals: &dyn Fn(C::Scalar) -> Vec<C::Scalar>) -> Result<(), String> {
    ensure!(check_leftovers(what, l, params, ops)?, "{}: the reference rejects correct leftovers", what);
    let mut jobs: Vec<(String, Leftovers<C>)> = vec![];
    for v in pts(l.s_new_commitment) {
        jobs.push((format!("{}, s commitment changed to {:?}", what, v), Leftovers { s_new_commitment: v, ..l.clone() }));
    }
    for v in pts(l.g_new) {
        jobs.push((format!("{}, g changed to {:?}", what, v), Leftovers { g_new: v, ..l.clone() }));
    }
    for v in vals(l.y_new) {
        jobs.push((format!("{}, y changed to {:?}", what, v), Leftovers { y_new: v, ..l.clone() }));
    }
    for j in 0..params.k {
        for v in vals(l.challenges_sq_packed_new[j]) {
            let mut e = l.clone();
            e.challenges_sq_packed_new[j] = v;
            jobs.push((format!("{}, challenge {} changed to {:?}", what, j, v), e));
        }
        for i in 0..j {
            let mut e = l.clone();
            e.challenges_sq_packed_new.swap(i, j);
            jobs.push((format!("{}, challenges {} and {} swapped", what, i, j), e));
        }
    }
    for len in 0..params.k + 3 {
        let mut e = l.clone();
        let f = e.challenges_sq_packed_new[0];
        e.challenges_sq_packed_new.resize(len, f);
        jobs.push((format!("{}, {} challenges", what, len), e));
    }
    jobs.push((format!("{}, s commitment and g swapped", what), Leftovers { s_new_commitment: l.g_new, g_new: l.s_new_commitment, ..l.clone() }));
    par(&jobs, |(w, e)| check_leftovers(w, e, params, ops)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
}

/// Serialized forms: all different states give different bytes of one length.
fn bytes<T>(what: &str, items: &[(String, T)], ser: impl Fn(&T) -> Vec<u8>) -> Result<(), String> {
    let mut seen: std::collections::BTreeMap<Vec<u8>, &str> = Default::default();
    let mut len = None;
    for (n, t) in items {
        let b = ser(t);
        ensure!(*len.get_or_insert(b.len()) == b.len(), "{}: {} serializes to {} bytes, not {}", what, n, b.len(), len.unwrap());
        if let Some(o) = seen.insert(b, n) {
            return Err(format!("{}: {} and {} serialize to the same bytes", what, o, n));
        }
        states(1);
    }
    Ok(())
}
fn serialization<C: Curve>(name: &str, k: usize) -> Result<(), String> {
    let params = fixed_params::<C>(k, 1);
    let base = Leftovers::dummy(&params);
    let u = |v: u128| C::Scalar::from_u128(v);
    let small: Vec<u128> = vec![0, 1, 2, 255, 256, 1 << 63, 1 << 64, (1 << 64) + 1, 1 << 120, 1 << 127, (1 << 127) | 5, u128::MAX];
    let p = |i: u64| C::one() * C::Scalar::from_u64(i);
    let mut v = vec![];
    for i in 1..6 {
        v.push((format!("s={}", i), Leftovers { s_new_commitment: p(i), ..base.clone() }));
        v.push((format!("s=-{}", i), Leftovers { s_new_commitment: -p(i), ..base.clone() }));
        v.push((format!("s=endo {}", i), Leftovers { s_new_commitment: p(i) * C::BETA_SCALAR, ..base.clone() }));
        v.push((format!("g={}", i), Leftovers { g_new: p(i), ..base.clone() }));
        v.push((format!("g=-{}", i), Leftovers { g_new: -p(i), ..base.clone() }));
        v.push((format!("g=endo {}", i), Leftovers { g_new: p(i) * C::BETA_SCALAR, ..base.clone() }));
        v.push((format!("both {}", i), Leftovers { s_new_commitment: p(i), g_new: p(i), ..base.clone() }));
    }
    v.push(("g=identity".into(), Leftovers { g_new: C::zero(), ..base.clone() }));
    for x in &small {
        if *x != 0 {
            v.push((format!("y={}", x), Leftovers { y_new: u(*x), ..base.clone() }));
        }
        for j in 0..k {
            let mut e = base.clone();
            e.challenges_sq_packed_new[j] = u(*x);
            v.push((format!("c{}={}", j, x), e));
        }
    }
    v.push(("base".into(), base));
    bytes(&format!("{}, leftovers", name), &v, |l| l.to_bytes())?;
    let base = Deferred::<C::Scalar>::dummy(k);
    let mut v = vec![("base".to_string(), base.clone())];
    for i in 0..SCALARS {
        let mut b = base.clone();
        let cur = *field(&mut b, i);
        let mut vals: Vec<C::Scalar> = small.iter().map(|x| u(*x)).collect();
        if i >= 4 {
            vals.extend([-C::Scalar::one(), -u(1 << 64), C::BETA_SCALAR, u(1 << 127) + u(1 << 127), u(u128::MAX) * u(3)]);
        }
        for x in vals {
            if x != cur {
                let mut e = base.clone();
                *field(&mut e, i) = x;
                v.push((format!("{}={:?}", NAMES[i], x), e));
            }
        }
    }
    for j in 0..k {
        for x in &small {
            let mut e = base.clone();
            e.challenges_sq_packed_old[j] = u(*x);
            v.push((format!("old {} = {}", j, x), e));
            let mut e = base.clone();
            e.challenges_sq_packed_new[j] = u(*x);
            v.push((format!("new {} = {}", j, x), e));
        }
    }
    bytes(&format!("{}, deferred", name), &v, |l| l.to_bytes())
}

/// A fault at every link of a chain: some later check has to fail.
fn faults<C: Curve>(name: &str, links: usize) -> Result<usize, String> {
    let params = fixed_params::<C>(4, 2);
    let ops = vec![Op::Mult(3, 5, 0), Op::Input(15), Op::Lin(vec![(K::One, R::Back(0)), (K::Neg, R::Back(1))])];
    let inputs = Model::<C::Scalar>::new(&ops).public();
    let prove = |old: &Leftovers<C>| guard(|| Proof::new::<_, Basic>(&params, &Prog { ops: &ops, witness: true }, old));
    let mut jobs = vec![];
    for link in 0..links {
        for f in 0..3 + 4 {
            for v in 0..3 {
                // 0: prover and verifier both use the altered state; 1: only the verifier; 2: only the prover
                // (the prover never uses the commitments themselves, so those faults do not reach its proof)
                for who in 0..if f < 2 { 2 } else { 3 } {
                    jobs.push((link, f, v, who));
                }
            }
        }
    }
    let spoil = |l: &Leftovers<C>, f: usize, v: usize| {
        let mut l = l.clone();
        let pt = |p: C| [p + C::one(), -p, p * C::BETA_SCALAR][v];
        match f {
            0 => l.s_new_commitment = if l.s_new_commitment == C::zero() { C::one() * C::Scalar::from_u64(v as u64 + 1) } else { pt(l.s_new_commitment) },
            1 => l.g_new = pt(l.g_new),
            2 => l.y_new = [l.y_new + C::Scalar::one(), -l.y_new - C::Scalar::one(), C::Scalar::from_u64(77)][v],
            j => {
                let c = &mut l.challenges_sq_packed_new[j - 3];
                // the next values with a square root
                for _ in 0..=v {
                    loop {
                        *c = *c + C::Scalar::from_u64(4);
                        if roots(&[*c]).is_some() {
                            break;
                        }
                    }
                }
            }
        }
        l
    };
    let honest = {
        let mut v = vec![start(&params)];
        for i in 0..links {
            let Ok(Ok((_, l))) = prove(&v[i]) else { return Err(format!("{}: an honest chain fails at proof {}", name, i + 1)) };
            v.push(l);
        }
        v
    };
    par(&jobs, |(link, f, v, who)| {
        let what = format!("{}, fault {} value {} after {} proofs ({})", name, ["s", "g", "y", "c0", "c1", "c2", "c3"][*f], v, link, ["prover and verifier", "verifier only", "prover only"][*who]);
        let good = &honest[*link];
        let bad = spoil(good, *f, *v);
        ensure!(bad != *good, "{}: no fault", what);
        let (used, checked) = [(&bad, &bad), (good, &bad), (&bad, good)][*who];
        let Ok(Ok((proof, mut carried))) = prove(used) else { return Ok(0) };
        transitions(1);
        let said = guard(|| library(&proof, checked, &params, &ops, &inputs)).map_err(|e| format!("{}: {}", what, e))?;
        let mut ok = match &said {
            Ok(s) => s.accept() && s.leftovers == carried,
            Err(_) => false,
        };
        // the carried state of a rejected proof is worthless; if it was accepted, go on
        let mut steps = 0;
        while ok && steps < 1 {
            let Ok(Ok((p2, c2))) = prove(&carried) else {
                ok = false;
                break;
            };
            ok &= matches!(guard(|| library(&p2, &carried, &params, &ops, &inputs)), Ok(Ok(s)) if s.accept());
            carried = c2;
            steps += 1;
        }
        ensure!(!ok, "{}: a chain with a fault is accepted in full", what);
        states(1);
        Ok(1)
    })
    .into_iter()
    .sum()
}

fn main() {
    let mut c = Ctx::new("P04", "model_checking");
    c.rule("every field of the accumulated state replaced by every value of a tiny field (and by an alphabet over the real ones), judged by the plain evaluation the accumulation stands for; faults injected at every link of a chain; serialized forms of all states in a family compared pairwise");
    num_cpus::mc_set(1);
    type A = E<613, 577, 5, 0, 0>;
    type B = E<103, 97, 5, 0, 1>;
    assert!(A::check_params() && B::check_params());
    let ops = vec![Op::Mult(7, 6, 0), Op::Input(42), Op::Lin(vec![(K::One, R::Back(0)), (K::Neg, R::Back(1))])];
    c.case("leftovers, every value, tiny curves", |_| {
        fn run<C: Curve>(name: &str, ops: &[Op], k: usize, pts: &[C], all: &[C::Scalar], links: usize) -> Result<(), String> {
            let params = fixed_params::<C>(k, 3);
            let mut l = start(&params);
            for i in 0..=links {
                mutate_leftovers(&format!("{} k={} after {} proofs", name, k, i), &l, &params, ops, &|_| pts.to_vec(), &|_| all.to_vec())?;
                if i < links {
                    l = Proof::new::<_, Basic>(&params, &Prog { ops, witness: true }, &l).unwrap().1;
                }
            }
            // a state that no proof produced: every challenge different
            let sq: Vec<C::Scalar> = all.iter().filter(|v| roots(&[**v]).is_some() && roots(&[**v]).and_then(|r| weights(&r)).is_some()).cloned().collect();
            let ch: Vec<C::Scalar> = (0..k).map(|i| sq[(i * 5 + 3) % sq.len()]).collect();
            let y = all[all.len() / 3];
            let l = Leftovers { s_new_commitment: msm(&Model::<C::Scalar>::new(ops).sx(y, params.n), &params.generators), y_new: y, g_new: msm(&weights(&roots(&ch).unwrap()).unwrap(), &params.generators), challenges_sq_packed_new: ch };
            mutate_leftovers(&format!("{} k={} synthetic", name, k), &l, &params, ops, &|_| pts.to_vec(), &|_| all.to_vec())
        }
        let fa: Vec<T<577, 0>> = T::all().collect();
        let fb: Vec<T<97, 1>> = T::all().collect();
        run("577", &ops, 4, &A::all(), &fa, 2)?;
        run("97", &ops, 4, &B::all(), &fb, 0)?;
        run("97", &ops, 5, &B::all(), &fb, 0)?;
        run("97", &[], 6, &B::all(), &fb, 0)
    });
    let deep = c.tier(1u64, 6);
    c.case("deferred data, every value, tiny fields", |c| {
        let mut jobs: Vec<(usize, [u64; 10], usize)> = vec![];
        for k in 2..=6usize {
            for s in 0..(40 * deep) {
                let r = |i: u64| (s * (7 + 2 * i) + i * i + 1) * (i + 3) + s * s * 11;
                jobs.push((k, [r(0), r(1), r(2), r(3), r(4), 0, r(5), r(6), r(7), r(8)], s as usize));
            }
        }
        fn one<F: Field>(name: &str, all: &[F], k: usize, free: &[u64; 10], s: usize) -> Result<usize, String> {
            let sq: Vec<F> = all.iter().filter(|v| roots(&[**v]).and_then(|r| weights(&r)).is_some()).cloned().collect();
            let pick = |o: usize| (0..k).map(|i| sq[(i * 7 + o * 3 + s) % sq.len()]).collect::<Vec<_>>();
            let Some(d) = correct(k, free.map(|v| F::from_u64(v)), &pick(0), &pick(1)) else { return Ok(0) };
            mutate_deferred(&format!("{} k={} state {}", name, k, s), &d, k, &|_| all.to_vec())?;
            Ok(1)
        }
        let f1: Vec<T<97, 0>> = T::all().collect();
        let f2: Vec<T<13, 0>> = T::all().collect();
        let f3: Vec<T<577, 0>> = T::all().collect();
        let n: usize = par(&jobs, |(k, f, s)| Ok::<_, String>(one("97", &f1, *k, f, *s)? + one("13", &f2, *k, f, *s)? + if s % 8 == 0 { one("577", &f3, *k, f, *s)? } else { 0 })).into_iter().sum::<Result<usize, String>>()?;
        c.sample(format!("{} correct states, every field replaced by every value", n));
        Ok(())
    });
    c.case("deferred data of real proofs and the dummy", |c| {
        fn run<C: Curve>(name: &str, ops: &[Op], links: usize) -> Result<(), String> {
            for k in 4..=7 {
                mutate_deferred(&format!("{} dummy k={}", name, k), &Deferred::<C::Scalar>::dummy(k), k, &some_vals)?;
            }
            let params = fixed_params::<C>(4, 3);
            let mut l = Leftovers::dummy(&params);
            let inputs = Model::<C::Scalar>::new(ops).public();
            for i in 0..links {
                mutate_leftovers(&format!("{} after {} proofs", name, i), &l, &params, ops, &|p: C| vec![C::zero(), C::one(), -p, p + C::one(), p * C::BETA_SCALAR, p + p], &some_vals)?;
                let (p, l2) = Proof::new::<_, Basic>(&params, &Prog { ops, witness: true }, &l).unwrap();
                let s = library(&p, &l, &params, ops, &inputs).map_err(|e| format!("{:?}", e))?;
                mutate_deferred(&format!("{} proof {}", name, i), &s.deferred, 4, &some_vals)?;
                l = l2;
            }
            Ok(())
        }
        let n = c.tier(2, 4);
        run::<Ec1>("first curve", &ops, n)?;
        run::<Ec0>("second curve", &ops, n)
    });
    c.case("serialized forms", |_| {
        for k in 4..=6 {
            serialization::<Ec1>("first curve", k)?;
            serialization::<Ec0>("second curve", k)?;
        }
        Ok(())
    });
    c.case("faults in chains", |c| {
        let n = faults::<Ec1>("first curve", c.tier(2, 4))?;
        let m = if c.tier(0, 1) == 1 { faults::<Ec0>("second curve", 3)? } else { 0 };
        c.sample(format!("{} faulty chains", n + m));
        Ok(())
    });
    c.bound("tiny fields of 13, 97 and 577 elements, k from 2 to 6; real curves k = 4..7; chains of up to 4 proofs with one fault");
    c.assume("P04: y and the packed challenges are 128-bit values (this is what the protocol draws and what the serialized form carries)");
    c.finish()
}
