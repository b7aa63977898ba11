//! P03: a proof is bound to its circuit, its inputs and its parameters.
use halo::*;
use halo_mc::prog::*;
use halo_mc::proofref::*;
use halo_mc::tiny::{E, T};
use halo_mc::*;

/// Panics are allowed here only where the caller passes a statement of another
/// shape than the circuit's; they count as a rejection.
fn accepted<C: Curve>(p: &Proof<C>, old: &Leftovers<C>, params: &Params<C>, ops: &[Op], inputs: &[C::Scalar]) -> bool {
    transitions(1);
    match guard(|| library(p, old, params, ops, inputs)) {
        Err(_) | Ok(Err(_)) => false,
        Ok(Ok(s)) => s.accept(),
    }
}

/// Two programs that state the same thing: same matrices, same inputs.
fn same<F: Field>(a: &[Op], b: &[Op]) -> bool {
    let (x, y) = (Model::<F>::new(a), Model::<F>::new(b));
    let n = x.n.max(y.n);
    let idx = |m: &Model<F>| m.inputs.iter().map(|i| i.0).collect::<Vec<_>>();
    idx(&x) == idx(&y) && [3u64, 10007, 65537].iter().all(|v| x.sx(F::from_u64(*v), n) == y.sx(F::from_u64(*v), n))
}

fn lin(t: &[(K, R)]) -> Op {
    Op::Lin(t.to_vec())
}
/// Circuits with one or two public inputs, all satisfied.
fn family() -> Vec<Vec<Op>> {
    let mul = Op::Mult(7, 6, 0);
    let base = vec![mul.clone(), Op::Input(42), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))])];
    let mut v = vec![
        base.clone(),
        // the constraint missing, doubled, on another wire, with another coefficient
        vec![mul.clone(), Op::Input(42)],
        vec![mul.clone(), Op::Input(42), lin(&[(K::Full(2), R::Back(0)), (K::Full(2), R::Back(1)), (K::Full(4), R::Back(1)), (K::Neg, R::Back(0))])],
        vec![mul.clone(), Op::Input(7), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(3))])],
        vec![mul.clone(), Op::Input(6), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(2))])],
        vec![mul.clone(), Op::Input(42), lin(&[(K::Neg, R::Back(0)), (K::One, R::Back(1))])],
        vec![Op::Input(42), mul.clone(), lin(&[(K::One, R::Back(0)), (K::Neg, R::First(0))])],
        // one constraint more, in each position
        vec![mul.clone(), lin(&[]), Op::Input(42), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))])],
        vec![mul.clone(), Op::Input(42), lin(&[]), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))])],
        vec![mul.clone(), Op::Input(42), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))]), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))])],
        vec![mul.clone(), Op::Input(42), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))]), lin(&[(K::Full(7), R::One), (K::Neg, R::Back(3))])],
        vec![mul.clone(), Op::Mult(7, 6, 0), Op::Input(42), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))])],
        vec![Op::Input(42)],
        vec![Op::Alloc(42), Op::Input(42)],
        // two inputs
        vec![Op::Input(42), Op::Input(9)],
        vec![Op::Input(42), lin(&[]), Op::Input(9)],
        // inputs that are zero: leaving them out must not go unnoticed
        vec![Op::Input(0)],
        vec![Op::Input(42), Op::Input(0)],
        vec![Op::Input(0), Op::Input(42)],
        vec![Op::Input(42), Op::Input(0), Op::Input(0)],
        vec![Op::Input(42), Op::Input(9), lin(&[(K::Full(51), R::One), (K::Neg, R::Back(0)), (K::Neg, R::Back(1))])],
    ];
    for k in [K::Zero, K::One, K::Full(3)] {
        v.push(vec![mul.clone(), Op::Input(42), lin(&[(k, R::Back(0)), (k, R::Back(0)), (K::Neg, R::Back(0)), (K::One, R::Back(0))])]);
    }
    v
}
fn satisfied<F: Field>(o: &[Op]) -> bool {
    let m = Model::<F>::new(o);
    m.satisfied(&m.public())
}

/// Every proof of the family against every circuit of the family and every
/// single change of its inputs.
fn cross<C: Curve>(c: &mut Ctx, name: &str, params: &Params<C>, step: usize) -> Result<(), String> {
    let fam: Vec<Vec<Op>> = family().into_iter().filter(|o| satisfied::<C::Scalar>(o)).collect();
    let old = start(params);
    let ids: Vec<usize> = (0..fam.len()).collect();
    let proofs: Vec<Proof<C>> = par(&ids, |i| Ok::<_, String>(Proof::new::<_, Basic>(params, &Prog { ops: &fam[*i], witness: true }, &old).unwrap().0)).into_iter().collect::<Result<_, _>>()?;
    let mut jobs = vec![];
    for i in 0..fam.len() {
        for j in 0..fam.len() {
            if i == j || (i * fam.len() + j) % step == 0 || i == 0 {
                jobs.push((i, j));
            }
        }
    }
    let r = par(&jobs, |(i, j)| {
        let (mi, mj) = (Model::<C::Scalar>::new(&fam[*i]), Model::<C::Scalar>::new(&fam[*j]));
        if i != j && same::<C::Scalar>(&fam[*i], &fam[*j]) {
            return Ok(0);
        }
        let mut n = 0;
        let mut cands = vec![mi.public()];
        if mj.public() != mi.public() {
            cands.push(mj.public());
        }
        if i == j {
            ensure!(accepted(&proofs[*i], &old, params, &fam[*i], &mi.public()), "{}: the proof of {:?} is rejected", name, fam[*i]);
            cands.clear();
            for p in 0..mi.public().len() {
                for v in 0..6u64 {
                    let mut w = mi.public();
                    w[p] = match v {
                        0 => w[p] + C::Scalar::one(),
                        1 => w[p] - C::Scalar::one(),
                        2 => -w[p],
                        3 => C::Scalar::zero(),
                        4 => w[p] * C::BETA_SCALAR,
                        _ => w[p] + C::Scalar::from_u128(1 << 64),
                    };
                    if w != mi.public() {
                        cands.push(w);
                    }
                }
            }
            let mut w = mi.public();
            w.reverse();
            if w != mi.public() {
                cands.push(w);
            }
            let mut w = mi.public();
            w.push(C::Scalar::zero());
            cands.push(w.clone());
            w.push(C::Scalar::one());
            cands.push(w);
            for a in 0..mi.public().len() {
                cands.push(mi.public()[..a].to_vec());
                cands.push(mi.public()[a + 1..].to_vec());
            }
            let mut w = mi.public();
            w.insert(0, C::Scalar::zero());
            cands.push(w);
        }
        for inp in cands {
            ensure!(!accepted(&proofs[*i], &old, params, &fam[*j], &inp), "{}: a proof of {:?} for {:?} is accepted for {:?} with inputs {:?}", name, fam[*i], mi.public(), fam[*j], inp);
            states(1);
            n += 1;
        }
        Ok(n)
    })
    .into_iter()
    .sum::<Result<usize, String>>()?;
    c.sample(format!("{}: {} wrong statements over {} circuits", name, r, fam.len()));
    Ok(())
}

fn parameters<C: Curve>(name: &str) -> Result<(), String> {
    let ops = &family()[0];
    let p = fixed_params::<C>(4, 3);
    let old = start(&p);
    let proof = Proof::new::<_, Basic>(&p, &Prog { ops, witness: true }, &old).unwrap().0;
    let inputs = Model::<C::Scalar>::new(ops).public();
    ensure!(accepted(&proof, &old, &p, ops, &inputs), "{}: the proof is rejected", name);
    let mut others: Vec<(String, Params<C>)> = vec![("other generators".into(), fixed_params(4, 4)), ("more generators".into(), fixed_params(5, 3))];
    for i in 0..16 {
        let mut q = p.clone();
        q.generators[i] = -q.generators[i];
        q.generators_xy[i].1 = -q.generators_xy[i].1;
        others.push((format!("generator {} negated", i), q));
        let mut q = p.clone();
        let j = (i + 1) % 16;
        q.generators.swap(i, j);
        q.generators_xy.swap(i, j);
        others.push((format!("generators {} and {} exchanged", i, j), q));
    }
    par(&others, |(what, q)| {
        ensure!(!accepted(&proof, &old, q, ops, &inputs), "{}: a proof is accepted under {}", name, what);
        // with the accumulator those parameters start from
        ensure!(!accepted(&proof, &start(q), q, ops, &inputs), "{}: a proof is accepted under {} and their own accumulator", name, what);
        states(2);
        Ok(())
    })
    .into_iter()
    .collect::<Result<Vec<_>, String>>()?;
    // a proof made under other parameters
    for (what, q) in others.iter().take(6) {
        let o = start(q);
        let made = Proof::new::<_, Basic>(q, &Prog { ops, witness: true }, &o).unwrap().0;
        ensure!(!accepted(&made, &o, &p, ops, &inputs) && !accepted(&made, &old, &p, ops, &inputs), "{}: a proof made under {} is accepted", name, what);
        states(2);
    }
    Ok(())
}

/// Circuits with more gates than the parameters allow: the proof of any prefix
/// of their gates must not be accepted for them.
fn oversize<C: Curve>(name: &str) -> Result<(), String> {
    let p = fixed_params::<C>(4, 3);
    let old = start(&p);
    let mut jobs = vec![];
    for fit in 1..4usize {
        for extra in 0..5usize {
            jobs.push((fit, extra));
        }
    }
    par(&jobs, |(fit, extra)| {
        let small: Vec<Op> = (1..*fit).map(|i| Op::Mult(i as u64, 2, 0)).collect();
        let mut big = small.clone();
        for i in 0..*extra + (4 - fit) + 1 {
            big.push(Op::Mult(3, i as u64, 0));
        }
        // and a constraint on the last gate only, which nothing satisfies
        big.push(lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(0)), (K::One, R::Back(0)), (K::Full(5), R::One)]));
        let proof = Proof::new::<_, Basic>(&p, &Prog { ops: &small, witness: true }, &old).unwrap().0;
        ensure!(accepted(&proof, &old, &p, &small, &[]), "{}: the proof of a circuit with {} gates is rejected", name, fit);
        ensure!(!accepted(&proof, &old, &p, &big, &[]), "{}: the proof of a circuit with {} gates is accepted for one with {} gates, {} fit", name, fit, Model::<C::Scalar>::new(&big).n, p.n);
        states(1);
        // the prover must not pretend either
        let made = guard(|| Proof::new::<_, Basic>(&p, &Prog { ops: &big, witness: true }, &old));
        if let Ok(Ok((proof, _))) = made {
            ensure!(!accepted(&proof, &old, &p, &big, &[]), "{}: an unsatisfied circuit that does not fit is proved", name);
        }
        Ok(())
    })
    .into_iter()
    .collect::<Result<Vec<_>, String>>()
    .map(|_| ())
}

fn main() {
    let mut c = Ctx::new("P03", "model_checking");
    c.rule("every proof of a family of circuits against every other statement: all pairs of circuits, all single changes of the inputs, changed, reordered and resized parameters, circuits that do not fit; over the tiny curve all programs up to a length, judged by the reference verifier, satisfied or not");
    num_cpus::mc_set(1);
    let step = c.tier(3, 1);
    c.case("other circuits and inputs, first curve", |c| cross(c, "first curve", &fixed_params::<Ec1>(4, 3), step));
    if c.tier(0, 1) == 1 {
        c.case("other circuits and inputs, second curve", |c| cross(c, "second curve", &fixed_params::<Ec0>(4, 5), step));
    }
    c.case("other parameters", |_| {
        parameters::<Ec1>("first curve")?;
        parameters::<Ec0>("second curve")
    });
    c.case("circuits that do not fit", |_| {
        oversize::<Ec1>("first curve")?;
        oversize::<Ec0>("second curve")
    });
    type A = E<613, 577, 5, 0, 0>;
    type F = T<577, 0>;
    assert!(A::check_params());
    c.case("unsatisfied circuits have no proof, tiny curve", |c| {
        let letters = vec![
            Op::Alloc(3),
            Op::Input(1),
            Op::Mult(1, 3, 0),
            Op::Mult(2, 2, 1),
            Op::Mult(0, 5, 9),
            lin(&[(K::One, R::Back(0))]),
            lin(&[(K::One, R::Back(0)), (K::Neg, R::One)]),
            lin(&[(K::Full(3), R::One), (K::Neg, R::Back(1))]),
            lin(&[(K::One, R::One)]),
        ];
        let len = c.tier(3, 4);
        let all: Vec<Vec<Op>> = sequences(&letters, len, &|_| true).into_iter().filter(|o| fits::<F>(o, 4, 16) && !satisfied::<F>(o)).collect();
        let p = fixed_params::<A>(4, 0);
        let old = start(&p);
        let r = par(&all, |o| {
            let made = guard(|| Proof::new::<_, Basic>(&p, &Prog { ops: o, witness: true }, &old));
            states(1);
            let Ok(Ok((proof, _))) = made else { return Ok(0) };
            let what = format!("{:?} (not satisfied)", o);
            let Some((_, s)) = agree(&what, &proof, &old, &p, o, &Model::<F>::new(o).public())? else { return Ok(0) };
            transitions(1);
            validated(1);
            Ok(s.accept() as usize)
        })
        .into_iter()
        .sum::<Result<usize, String>>()?;
        c.sample(format!("{} unsatisfied programs, {} with an accepted proof by chance", all.len(), r));
        ensure!(r * 20 < all.len(), "{} of {} unsatisfied programs have an accepted proof", r, all.len());
        Ok(())
    });
    c.case("every proof against every program, tiny curve", |c| {
        let letters = vec![Op::Alloc(3), Op::Input(1), Op::Mult(1, 3, 0), lin(&[]), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(0))]), lin(&[(K::Full(3), R::One), (K::Neg, R::Back(1)), (K::Neg, R::Back(1)), (K::Neg, R::Back(1))])];
        let len = c.tier(2, 3);
        let all: Vec<Vec<Op>> = sequences(&letters, len, &|_| true).into_iter().filter(|o| fits::<F>(o, 4, 16) && satisfied::<F>(o)).collect();
        let p = fixed_params::<A>(4, 2);
        let old = start(&p);
        let idx: Vec<usize> = (0..all.len()).collect();
        let r = par(&idx, |i| {
            let Ok(Ok((proof, _))) = guard(|| Proof::new::<_, Basic>(&p, &Prog { ops: &all[*i], witness: true }, &old)) else { return Ok((0, 0)) };
            let (mut n, mut lucky) = (0, 0);
            for (j, o) in all.iter().enumerate() {
                let inp = Model::<F>::new(o).public();
                for v in [0u64, 1, 5] {
                    let inp: Vec<F> = inp.iter().map(|x| *x + T(v)).collect();
                    if v > 0 && inp.is_empty() {
                        continue;
                    }
                    let what = format!("the proof of {:?} for {:?} with {:?}", all[*i], o, inp);
                    let Some((_, s)) = agree(&what, &proof, &old, &p, o, &inp)? else { continue };
                    transitions(1);
                    validated(1);
                    n += 1;
                    if s.accept() && !(v == 0 && (*i == j || same::<F>(&all[*i], o))) {
                        lucky += 1;
                    }
                }
            }
            states(1);
            Ok((n, lucky))
        })
        .into_iter()
        .collect::<Result<Vec<(usize, usize)>, String>>()?;
        let (n, l) = r.iter().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
        c.sample(format!("{} programs, {} statements compared with the reference, {} accepted by chance", all.len(), n, l));
        ensure!(l * 20 < n, "{} of {} wrong statements accepted over the tiny curve", l, n);
        Ok(())
    });
    c.bound("real curves: 20 circuits, k = 4 (5 for resized parameters); tiny curve: programs up to 4 operations, field of 577 elements");
    c.assume("P03: over the tiny curve a wrong statement can be accepted by chance (about 1 in 577 per equation); there the library has to agree with the reference verifier exactly. Passing a number of inputs that is not the circuit's may panic; this counts as a rejection");
    c.finish()
}
