//! P01: honest proofs are accepted, alone and in chains.
use halo::*;
use halo_mc::prog::*;
use halo_mc::proofref::*;
use halo_mc::tiny::E;
use halo_mc::*;

/// Proves `chain` one after the other and verifies every step. Degenerate
/// steps (zero challenge, tiny fields only) end the chain.
fn chain<C: Curve>(params: &Params<C>, chain: &[&[Op]]) -> Result<bool, String> {
    let mut old = start(params);
    let what = |i: usize| format!("proof {} of chain {:?} (k={})", i + 1, chain, params.k);
    for (i, ops) in chain.iter().enumerate() {
        let m = Model::<C::Scalar>::new(ops);
        let made = guard(|| Proof::new::<_, Basic>(params, &Prog { ops, witness: true }, &old));
        let (proof, left) = match made {
            Ok(r) => r.map_err(|e| format!("{}: the prover fails with {:?}", what(i), e))?,
            Err(e) => {
                // the prover inverts its challenges; over a tiny field they can be zero
                if degenerate_possible::<C>() {
                    return Ok(false);
                }
                return Err(format!("{}: {}", what(i), e));
            }
        };
        let Some((e, s)) = agree(&what(i), &proof, &old, params, ops, &m.public())? else { return Ok(false) };
        ensure!(s.accept() && e.accept(), "{}: an honest proof is rejected (inner product {}, deferred {}, leftovers {})", what(i), s.inner_product, s.deferred_ok, s.leftovers_ok);
        ensure!(left == s.leftovers, "{}: prover and verifier carry different leftovers", what(i));
        transitions(1);
        validated(1);
        // a later link may be about another circuit only if the old s
        // commitment still matches: chains keep one circuit shape
        old = if i % 2 == 0 { left } else { s.leftovers };
    }
    states(1);
    Ok(true)
}
fn degenerate_possible<C: Curve>() -> bool {
    <C::Scalar as Field>::NUM_BITS < 20
}

/// same structure, other values
fn revalue(ops: &[Op], t: u64) -> Vec<Op> {
    ops.iter()
        .map(|o| match o {
            Op::Alloc(v) => Op::Alloc((v * t + t) % 90),
            Op::Input(v) => Op::Input((v * t + t) % 90),
            Op::Mult(a, b, _) => Op::Mult((a * t) % 90, (b + t) % 90, 0),
            o => o.clone(),
        })
        .collect()
}
fn honest<F: Field>(ops: &[Op]) -> bool {
    let m = Model::<F>::new(ops);
    m.satisfied(&m.public())
}

fn main() {
    let mut c = Ctx::new("P01", "model_checking");
    c.rule("all satisfied circuit programs up to a length over tiny cycle-sized curves, and chosen ones over the real curves, proved by the real prover and verified by the real verifier and by a reference verifier written from the protocol, in chains up to a length");
    let lin = |t: &[(K, R)]| Op::Lin(t.to_vec());
    let letters = vec![
        Op::Alloc(3),
        Op::Input(1),
        Op::Input(0),
        Op::Mult(1, 3, 0),
        Op::Mult(0, 2, 0),
        lin(&[]),
        lin(&[(K::One, R::Back(0)), (K::Neg, R::One)]),
        lin(&[(K::One, R::Back(0)), (K::Full(576), R::Back(0))]),
        lin(&[(K::Full(3), R::One), (K::Neg, R::Back(0))]),
        lin(&[(K::Full(2), R::Back(1)), (K::Neg, R::Back(1)), (K::Neg, R::Back(1))]),
        lin(&[(K::One, R::First(0)), (K::Neg, R::First(0)), (K::Zero, R::Back(1))]),
    ];
    type A = E<613, 577, 5, 0, 0>;
    assert!(A::check_params());
    let len = c.tier(4, 5);
    c.case("tiny curve, all satisfied programs", |c| {
        let all: Vec<Vec<Op>> = sequences(&letters, len, &|_| true).into_iter().filter(|o| fits::<halo_mc::tiny::T<577, 0>>(o, 4, 16) && honest::<halo_mc::tiny::T<577, 0>>(o)).collect();
        let p = fixed_params::<A>(4, 0);
        num_cpus::mc_set(1);
        c.sample(format!("{} satisfied programs", all.len()));
        let r: Vec<bool> = par(&all, |o| chain(&p, &[o])).into_iter().collect::<Result<_, _>>()?;
        c.sample(format!("{} of {} without a zero challenge", r.iter().filter(|x| **x).count(), r.len()));
        ensure!(r.iter().filter(|x| **x).count() * 2 > r.len(), "most proofs over the tiny curve are degenerate");
        Ok(())
    });
    type B = E<12097, 12289, 13, VB, VS>;
    const VB: u8 = 0;
    const VS: u8 = 1;
    c.case("larger tiny curve, chains", |c| {
        assert!(B::check_params());
        num_cpus::mc_set(3);
        let f: Vec<Vec<Op>> = sequences(&letters, 3, &|_| true).into_iter().filter(|o| fits::<halo_mc::tiny::T<12289, VS>>(o, 4, 16) && honest::<halo_mc::tiny::T<12289, VS>>(o)).collect();
        let p = fixed_params::<B>(4, 3);
        let step = c.tier(7, 1);
        let some: Vec<&Vec<Op>> = f.iter().step_by(step).collect();
        let r: Vec<bool> = par(&some, |o| {
            let a = revalue(o, 5);
            let b = revalue(o, 11);
            let mut ch: Vec<&[Op]> = vec![&o[..]];
            for x in [&a, &b] {
                if honest::<halo_mc::tiny::T<12289, VS>>(x) {
                    ch.push(x);
                }
            }
            ch.push(&o[..]);
            chain(&p, &ch)
        })
        .into_iter()
        .collect::<Result<_, _>>()?;
        c.sample(format!("{} chains, {} complete", r.len(), r.iter().filter(|x| **x).count()));
        Ok(())
    });
    let real: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::Input(9)],
        vec![Op::Input(0)],
        vec![Op::Alloc(5)],
        vec![lin(&[])],
        vec![Op::Mult(2, 3, 0)],
        vec![Op::Mult(0, 0, 0), lin(&[(K::One, R::Back(0))])],
        vec![Op::Mult(7, 6, 0), Op::Input(42), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))])],
        vec![Op::Alloc(4), Op::Mult(4, 4, 0), lin(&[(K::One, R::First(0)), (K::Neg, R::Back(2))]), lin(&[(K::One, R::First(0)), (K::Neg, R::Back(1))]), Op::Input(16), lin(&[(K::Full(5), R::Back(0)), (K::Full(3), R::One), (K::Neg, R::Back(1)), (K::Full(67), R::One), (K::Neg, R::Back(0))])],
        vec![Op::Input(1), Op::Input(2), Op::Input(3), Op::Input(4), Op::Input(5)],
        vec![Op::Alloc(1), Op::Alloc(2), Op::Alloc(3), Op::Alloc(4), Op::Alloc(5)],
        (0..14).map(|_| lin(&[(K::One, R::One), (K::Neg, R::One)])).collect(),
    ];
    let real: Vec<Vec<Op>> = real.into_iter().filter(|o| honest::<Fq>(o)).collect();
    c.case("real curves", |c| {
        let n = c.tier(1, 3);
        num_cpus::mc_set(0);
        getrandom::mc_seed(c.seed);
        let p1 = Params::<Ec1>::new(4);
        let p0 = Params::<Ec0>::new(4);
        let items: Vec<usize> = (0..real.len() * 2).collect();
        c.sample(format!("{} programs on both curves, chains of {}", real.len(), n + 1));
        par(&items, |i| {
            let o = &real[i / 2];
            let ch: Vec<&[Op]> = (0..=n).map(|_| &o[..]).collect();
            if i % 2 == 0 {
                chain(&p1, &ch)
            } else {
                chain(&p0, &ch)
            }
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    c.case("real curves, larger circuits", |c| {
        let mut v = vec![];
        for k in 5..=c.tier(6, 8) {
            let n = (1usize << k) / 4;
            // gates up to the limit, every wire used in a constraint
            let mut o = vec![Op::Input(4)];
            while {
                let mut t = o.clone();
                t.push(Op::Mult(3, 5, 0));
                fits::<Fq>(&t, n, 4 * n)
            } {
                o.push(Op::Mult(3, 5, 0));
                let m = Model::<Fq>::new(&o);
                if m.lins.len() + 2 < 4 * n {
                    o.push(lin(&[(K::Full(5), R::Back(2)), (K::Full(3), R::Back(1)), (K::Full(2), R::Back(0)), (K::Neg, R::Back(0)), (K::Neg, R::Back(0)), (K::Neg, R::Back(0)), (K::Neg, R::Back(0)), (K::Full(15), R::One), (K::Neg, R::Back(0)), (K::Full(15), R::One), (K::Neg, R::Back(0)), (K::Neg, R::Back(0))]));
                }
                if !honest::<Fq>(&o) {
                    o.pop();
                    o.push(lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(0))]));
                }
            }
            v.push((k, o));
        }
        c.sample(format!("circuits filling the parameters for k in 5..={}", v.last().unwrap().0));
        par(&v, |(k, o)| {
            let p = fixed_params::<Ec1>(*k, 9);
            chain(&p, &[o, o])?;
            let p = fixed_params::<Ec0>(*k, 9);
            chain(&p, &[o])
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    c.bound(format!("tiny curve of order 577: satisfied programs up to {} operations with fewer than 4 gates; chains of up to 4 proofs; real curves: 12 programs, k up to {}", len, c.tier(6, 8)));
    c.assume("P01: over the tiny curves a challenge can be zero or have no square root; those executions (which cannot happen over the real fields except with negligible probability) are excluded");
    c.finish()
}
