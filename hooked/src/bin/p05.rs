//! P05: commitments are the weighted sum of the generators, openings are the
//! polynomial's value, and the opening argument accepts exactly the value and
//! the commitment of the polynomial it was made for (needs the hook that
//! builds openings).
use halo::rescue::Rescue;
use halo::*;
use halo_mc::proofref::{evalp, fixed_params, msm, roots, weights};
use halo_mc::tiny::{E, T};
use halo_mc::*;

/// What `commit` and `compute_opening` place where: coefficient i of a left
/// aligned polynomial at i, of a right aligned one at d - len + i.
fn placed<F: Field>(v: &[F], d: usize, right: bool) -> Vec<F> {
    let mut w = vec![F::zero(); d];
    let at = if right { d - v.len() } else { 0 };
    w[at..at + v.len()].copy_from_slice(v);
    w
}

fn vectors<F: Field>(len: usize, marks: &[F], th: bool) -> Vec<Vec<F>> {
    let (z, o) = (F::zero(), F::one());
    let mut out = vec![vec![z; len], vec![o; len], vec![-o; len]];
    // every single coefficient, every pair of positions
    for i in 0..len {
        for m in marks {
            let mut v = vec![z; len];
            v[i] = *m;
            out.push(v);
        }
        for j in 0..i {
            let mut v = vec![z; len];
            v[i] = o;
            v[j] = -o;
            out.push(v);
        }
        // all zero from here on, or up to here
        let mut v: Vec<F> = (0..len).map(|j| marks[(i + j) % marks.len()]).collect();
        for x in v.iter_mut().skip(i) {
            *x = z;
        }
        out.push(v);
        let mut v: Vec<F> = (0..len).map(|j| marks[(i + 2 * j) % marks.len()]).collect();
        for x in v.iter_mut().take(i) {
            *x = z;
        }
        out.push(v);
    }
    for s in 0..if th { marks.len() } else { 3 } {
        out.push((0..len).map(|j| marks[(s + j * j) % marks.len()]).collect());
    }
    out
}

fn commitments<C: Curve>(c: &mut Ctx, name: &str, k: usize, marks: &[C::Scalar], points: &[C::Scalar], cpus: &[usize]) {
    c.case(&format!("{}: commitments and openings, k = {}", name, k), |c| {
        let p = fixed_params::<C>(k, 1);
        let d = p.d;
        let th = c.thorough;
        let mut n = 0;
        for &cpu in cpus {
            num_cpus::mc_set(cpu);
            let lens: Vec<usize> = (0..=d).collect();
            let r = par(&lens, |len| {
                let vs = vectors::<C::Scalar>(*len, marks, th);
                for v in &vs {
                    for right in [false, true] {
                        let w = placed(v, d, right);
                        let want = msm(&w, &p.generators);
                        let got = p.commit(v, right);
                        ensure!(got == want, "{}, {} CPUs: the commitment of {:?} (right edge: {}) is {:?}, expected {:?}", name, cpu, v, right, got, want);
                        states(1);
                        if cpu == cpus[0] {
                            for x in points {
                                let got = p.compute_opening(v, *x, right);
                                let want = evalp(&w, *x);
                                ensure!(got == want, "{}: the opening of {:?} (right edge: {}) at {:?} is {:?}, expected {:?}", name, v, right, x, got, want);
                                transitions(1);
                            }
                        }
                        validated(1);
                    }
                }
                Ok(vs.len() * 2)
            });
            num_cpus::mc_set(0);
            n += r.into_iter().sum::<Result<usize, String>>()?;
        }
        // longer than the parameters: no commitment
        let long = vec![C::Scalar::one(); d + 1];
        for right in [false, true] {
            ensure!(guard(|| p.commit(&long, right)).is_err(), "{}: {} coefficients are committed to with {} generators", name, d + 1, d);
        }
        c.sample(format!("{}: {} commitments over {} generators", name, n, d));
        Ok(())
    });
}

/// The argument as the protocol states it.
struct Want<C: Curve> {
    accept: bool,
    packed: Vec<C::Scalar>,
    forks: Vec<u8>,
    fold: Vec<C::Scalar>,
}
fn absorb<C: Curve>(t: &mut Rescue<C::Base>, p: &C) {
    let xy = p.get_xy();
    let (x, y) = if bool::from(xy.is_some()) { xy.unwrap() } else { (C::Base::zero(), C::Base::zero()) };
    t.absorb(x);
    t.absorb(y);
}
fn reference<C: Curve>(start: &Rescue<C::Base>, m: &MultiPolynomialOpening<C>, inst: &[Inst<C>]) -> Option<Want<C>> {
    let mut t = start.clone();
    let mut pp: Vec<C> = inst.iter().map(|i| i.commitment).collect();
    let mut vv: Vec<C::Scalar> = inst.iter().map(|i| i.opening).collect();
    let (mut packed, mut forks) = (vec![], vec![]);
    for r in &m.rounds {
        for j in 0..inst.len() {
            absorb(&mut t, &r.L[j]);
            absorb(&mut t, &r.R[j]);
            absorb(&mut t, &(C::one() * r.l[j]));
            absorb(&mut t, &(C::one() * r.r[j]));
        }
        let mut fork = 0;
        let pk = loop {
            let mut u = t.clone();
            u.absorb(C::Base::from_u64(fork as u64));
            let b = u.squeeze().to_bytes();
            let pk = C::Scalar::from_u128((0..16).rev().fold(0u128, |a, i| a << 8 | b[i] as u128) | 1 << 127);
            if roots(&[pk]).is_some() {
                t = u;
                break pk;
            }
            if fork == 255 {
                return None;
            }
            fork += 1;
        };
        let sq: C::Scalar = get_challenge_scalar(pk);
        if sq == C::Scalar::zero() {
            return None;
        }
        let isq: C::Scalar = sq.invert().unwrap();
        for j in 0..inst.len() {
            pp[j] = pp[j] + r.L[j] * sq + r.R[j] * isq;
            vv[j] = vv[j] + r.l[j] * sq + r.r[j] * isq;
        }
        packed.push(pk);
        forks.push(fork as u8);
    }
    let fold = weights(&roots(&packed)?)?;
    let accept = (0..inst.len()).all(|j| pp[j] == m.g * m.a[j] && vv[j] == m.a[j] * evalp(&fold, inst[j].point));
    Some(Want { accept, packed, forks, fold })
}

static FAILED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static MADE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

#[derive(Clone, Debug)]
struct Inst<C: Curve> {
    poly: Vec<C::Scalar>,
    right: bool,
    point: C::Scalar,
    commitment: C,
    opening: C::Scalar,
}
fn opening<C: Curve>(i: &Inst<C>) -> PolynomialOpening<C> {
    PolynomialOpening::mc_new(i.commitment, i.opening, i.point, i.right)
}
fn instance<C: Curve>(gens: &[C], poly: &[C::Scalar], right: bool, point: C::Scalar) -> Inst<C> {
    let w = placed(poly, gens.len(), right);
    Inst { poly: poly.to_vec(), right, point, commitment: msm(&w, gens), opening: evalp(&w, point) }
}

fn check<C: Curve>(what: &str, start: &Rescue<C::Base>, m: &MultiPolynomialOpening<C>, inst: &[Inst<C>], k: usize) -> Result<Option<bool>, String> {
    let Some(w) = reference(start, m, inst) else { return Ok(None) };
    transitions(1);
    let os: Vec<_> = inst.iter().map(opening).collect();
    let (ok, packed, g, forks) = guard(|| m.verify_proof(&mut start.clone(), &os, k)).map_err(|e| format!("{}: {}", what, e))?;
    ensure!(ok == w.accept, "{}: the argument is {}, expected the opposite", what, if ok { "accepted" } else { "rejected" });
    ensure!(packed == w.packed && forks == w.forks && g == m.g, "{}: the verifier's challenges, forks or generator are not the transcript's", what);
    Ok(Some(ok))
}

/// One statement: the honest argument is accepted, the argument with any other
/// claimed value or commitment is not, changed arguments are judged by the
/// reference.
fn argument<C: Curve>(name: &str, gens: &[C], k: usize, seed: u64, inst: &[Inst<C>], others: &[C::Scalar], changes: bool) -> Result<(), String> {
    let what = format!("{}, k = {}, {:?}", name, k, inst);
    let mut t = Rescue::<C::Base>::new();
    for i in 0..seed {
        t.absorb(C::Base::from_u64(i + 3));
    }
    if seed > 0 {
        // as in the protocol, the argument follows a challenge
        t.squeeze();
    }
    let pairs: Vec<_> = inst.iter().map(|i| (opening(i), &i.poly[..])).collect();
    let mut pt = t.clone();
    MADE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let Ok((m, packed, g)) = guard(|| MultiPolynomialOpening::new_proof(&mut pt, &pairs, gens, k)) else {
        // a challenge that is zero, or that has no square root in 256 forks
        FAILED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        return if C::Scalar::NUM_BITS < 64 { Ok(()) } else { Err(format!("{}: no argument can be made", what)) };
    };
    ensure!(m.rounds.len() == k && m.a.len() == inst.len(), "{}: the argument has {} rounds and {} values", what, m.rounds.len(), m.a.len());
    let Some(w) = reference(&t, &m, inst) else { return Ok(()) };
    ensure!(w.accept, "{}: the argument made for it does not satisfy the protocol", what);
    ensure!(packed == w.packed && g == m.g && g == msm(&w.fold, gens), "{}: the prover's challenges or folded generator are not the transcript's", what);
    states(1);
    validated(1);
    ensure!(check(&what, &t, &m, inst, k)? == Some(true), "{}: rejected", what);
    for j in 0..inst.len() {
        for v in others {
            if *v != inst[j].opening {
                let mut x = inst.to_vec();
                x[j].opening = *v;
                ensure!(check(&format!("{}: value {:?} claimed for instance {}", what, v, j), &t, &m, &x, k)? == Some(false), "accepted");
            }
        }
        let mut cs = vec![inst[j].commitment + gens[0], inst[j].commitment + C::one(), -inst[j].commitment, C::zero()];
        cs.extend(gens.iter().take(if C::Scalar::NUM_BITS > 64 { 1 } else { 16 }).map(|g| inst[j].commitment - *g));
        for c in cs {
            if c != inst[j].commitment {
                let mut x = inst.to_vec();
                x[j].commitment = c;
                ensure!(check(&format!("{}: commitment {:?} claimed for instance {}", what, c, j), &t, &m, &x, k)? == Some(false), "accepted");
            }
        }
        for v in [C::Scalar::zero(), inst[j].point + C::Scalar::one(), -inst[j].point] {
            let mut x = inst.to_vec();
            x[j].point = v;
            let r = check(&format!("{}: point {:?} claimed for instance {}", what, v, j), &t, &m, &x, k)?;
            // over a large field another point gives another value unless the
            // polynomial is constant
            if C::Scalar::NUM_BITS > 64 && evalp(&placed(&x[j].poly, gens.len(), x[j].right), v) != x[j].opening {
                ensure!(r == Some(false), "{}: accepted at point {:?}", what, v);
            }
        }
    }
    if changes {
        let (o, so) = (C::one(), C::Scalar::one());
        for i in 0..k {
            for j in 0..inst.len() {
                for f in 0..4 {
                    for neg in [false, true] {
                        let mut q = m.clone();
                        match f {
                            0 => q.rounds[i].L[j] = if neg { -q.rounds[i].L[j] } else { q.rounds[i].L[j] + o },
                            1 => q.rounds[i].R[j] = if neg { -q.rounds[i].R[j] } else { q.rounds[i].R[j] + o },
                            2 => q.rounds[i].l[j] = if neg { -q.rounds[i].l[j] } else { q.rounds[i].l[j] + so },
                            _ => q.rounds[i].r[j] = if neg { -q.rounds[i].r[j] } else { q.rounds[i].r[j] + so },
                        }
                        check(&format!("{}: element {} of round {} instance {} changed", what, f, i, j), &t, &q, inst, k)?;
                    }
                }
            }
        }
        for j in 0..inst.len() {
            for v in [C::Scalar::zero(), m.a[j] + so, -m.a[j]] {
                let mut q = m.clone();
                q.a[j] = v;
                check(&format!("{}: final value {} changed", what, j), &t, &q, inst, k)?;
            }
        }
        for v in [C::zero(), m.g + o, -m.g, gens[0]] {
            let mut q = m.clone();
            q.g = v;
            check(&format!("{}: generator changed", what), &t, &q, inst, k)?;
        }
        // another transcript
        let mut u = t.clone();
        u.absorb(C::Base::one());
        check(&format!("{}: another transcript", what), &u, &m, inst, k)?;
    }
    Ok(())
}

fn all<T>(v: Vec<Result<T, String>>) -> Result<usize, String> {
    v.into_iter().collect::<Result<Vec<_>, _>>().map(|v| v.len())
}

fn main() {
    let mut c = Ctx::new("P05", "model_checking");
    c.rule("a state is a committed polynomial with its alignment, or an opening statement with the argument the library makes for it; commitments and values against direct sums, the argument's verdict against the protocol's equations, for the statement and for every other claimed value, commitment and point");
    type A = E<613, 577, 5, 0, 0>;
    type S = T<577, 0>;
    type B = E<12097, 12289, 13, 0, 1>;
    let m: Vec<S> = [1u64, 2, 576, 5, 100, 288].iter().map(|x| T(*x)).collect();
    let every: Vec<S> = T::all().collect();
    commitments::<A>(&mut c, "tiny", 4, &m, &every[..100], &[1, 2, 3, 8]);
    let deep: Vec<S> = every.iter().step_by(23).cloned().collect();
    commitments::<A>(&mut c, "tiny", 5, &m, &deep, &[1, 4]);
    fn real<C: Curve>(c: &mut Ctx, name: &str) {
        let f = C::Scalar::from_u64;
        let m = vec![f(1), -f(1), f(1 << 63), C::BETA_SCALAR, C::Scalar::from_u128(1 << 127)];
        let p = vec![f(0), f(1), -f(1), f(2), C::BETA_SCALAR, (f(1) + f(1)).invert().unwrap()];
        commitments::<C>(c, name, 4, &m[..if c.thorough { 5 } else { 3 }], &p, &[1, 4]);
    }
    real::<Ec0>(&mut c, "Ec0");
    real::<Ec1>(&mut c, "Ec1");

    // the argument over the tiny curve: every polynomial over an alphabet,
    // every length and alignment
    let alpha: Vec<S> = [0u64, 1, 576, 5].iter().map(|x| T(*x)).collect();
    for k in 1..=2usize {
        c.case(&format!("tiny: every polynomial over 4 values, k = {}", k), |c| {
            let gens = fixed_params::<A>(4, 9).generators[..1 << k].to_vec();
            let mut jobs = vec![];
            for len in 0..=1usize << k {
                for code in 0..4usize.pow(len as u32) {
                    let poly: Vec<S> = (0..len).map(|i| alpha[code >> (2 * i) & 3]).collect();
                    for right in [false, true] {
                        for x in [0u64, 1, 2, 576, 77] {
                            jobs.push((poly.clone(), right, T(x), code as u64));
                        }
                    }
                }
            }
            let step = if k == 1 { 1 } else { 5 };
            let n = all(par(&jobs, |(poly, right, x, code)| argument::<A>("tiny", &gens, k, code % 3, &[instance(&gens, poly, *right, *x)], &every.iter().skip(*code as usize % step).step_by(step * if k == 1 { 1 } else { 8 }).cloned().collect::<Vec<_>>(), k == 1 || code % 8 == 3)))?;
            c.sample(format!("{} polynomials with every alignment at 5 points", n));
            Ok(())
        });
    }
    // several instances in one argument, all alignments and lengths
    fn several<C: Curve>(c: &mut Ctx, name: &str, ks: &[usize], marks: &[C::Scalar], dense: usize) {
        c.case(&format!("{}: several instances", name), |c| {
            let mut jobs = vec![];
            for &k in ks {
                let d = 1usize << k;
                for m in [1usize, 2] {
                    for edges in 0..1usize << m {
                        for l in 0..dense {
                            jobs.push((k, m, edges, (l * d / dense.max(1)).min(d), l));
                        }
                        jobs.push((k, m, edges, d, 7));
                    }
                }
                for m in [4, 5] {
                    jobs.push((k, m, 0b01011, d / 2 + 1, m));
                }
            }
            let n = all(par(&jobs, |&(k, m, edges, len, salt)| {
                let gens = fixed_params::<C>(k.max(4), 2 + salt as u64).generators[..1 << k].to_vec();
                let inst: Vec<Inst<C>> = (0..m)
                    .map(|j| {
                        let n = (len + j * 3) % ((1 << k) + 1);
                        let poly: Vec<C::Scalar> = (0..n).map(|i| marks[(i * (j + 1) + salt) % marks.len()]).collect();
                        instance(&gens, &poly, edges >> j & 1 == 1, marks[(j + salt) % marks.len()])
                    })
                    .collect();
                argument::<C>(name, &gens, k, salt as u64, &inst, &marks[..if C::Scalar::NUM_BITS > 64 { 1 } else { 3 }], if C::Scalar::NUM_BITS > 64 { k == 1 && salt == 0 } else { k < 4 })
            }))?;
            c.sample(format!("{}: {} arguments over up to 5 instances, k in {:?}", name, n, ks));
            Ok(())
        });
    }
    let many: Vec<S> = [0u64, 3, 576, 5, 100, 288, 9, 1, 0, 0, 17].iter().map(|x| T(*x)).collect();
    let dense = c.tier(4, 17);
    several::<A>(&mut c, "tiny", &[1, 2, 3, 4], &many, dense);
    let many: Vec<T<12289, 1>> = [0u64, 3, 12288, 5, 100, 288, 9, 1, 0, 0, 6144].iter().map(|x| T(*x)).collect();
    several::<B>(&mut c, "larger tiny", &[1, 3, 5], &many, dense);
    fn realv<C: Curve>() -> Vec<C::Scalar> {
        let f = C::Scalar::from_u64;
        vec![f(0), f(3), -f(1), f(1 << 63), C::BETA_SCALAR, C::Scalar::from_u128(1 << 127), f(1)]
    }
    let dense = c.tier(1, 5);
    let ks: &[usize] = c.tier(&[1, 3], &[1, 2, 3, 4, 5]);
    several::<Ec0>(&mut c, "Ec0", ks, &realv::<Ec0>(), dense);
    several::<Ec1>(&mut c, "Ec1", ks, &realv::<Ec1>(), dense);
    c.case("arguments that could not be made", |c| {
        let (f, m) = (FAILED.load(std::sync::atomic::Ordering::Relaxed), MADE.load(std::sync::atomic::Ordering::Relaxed));
        c.sample(format!("{} of {} arguments over tiny fields met a zero challenge or none with a square root", f, m));
        ensure!(f * 20 <= m, "{} of {} arguments cannot be made", f, m);
        Ok(())
    });
    c.bound("commitments: every length 0..=2^k, both alignments, single coefficients in every position, every pair of positions, prefixes and suffixes of zeros, k = 4 (and 5), 1..8 CPUs; openings at 100 points of F_577; arguments: every polynomial over 4 values with k <= 2, up to 5 instances with k <= 5 (real curves 1 and 3, thorough every k up to 5)");
    c.assume("three instances are left out: the fork value would be absorbed at a position without influence (known finding of R01) and no argument could be made when its first challenge is not a square; the protocol uses five");
    c.assume("over the tiny curves a changed argument can be accepted by chance; there the library has to agree with the protocol's equations. A zero challenge (probability 1/577 per round there) ends the comparison");
    c.finish()
}
