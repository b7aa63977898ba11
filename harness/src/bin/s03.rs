//! S03: is_satisfied, determinism_check and constraint_count.
use halo::dev::{constraint_count, determinism_check, is_satisfied, SatisfactionError};
use halo::*;
use halo_mc::prog::*;
use halo_mc::tiny::T;
use halo_mc::*;
use std::cell::{Cell, RefCell};

fn verdict<F: Field>(ops: &[Op], inputs: &[F], m: &Model<F>) -> Result<(), String> {
    let want = m.satisfied(inputs);
    let r = guard(|| is_satisfied::<F, _, Basic>(&Prog { ops, witness: true }, inputs)).map_err(|e| format!("{:?} inputs {:?}: {}", ops, inputs, e))?;
    let got = r == Ok(true);
    ensure!(got == want, "{:?} with public inputs {:?}: reported {:?}, but the constraints {}", ops, inputs, r, if want { "all hold" } else { "do not all hold" });
    if let Err(e) = r {
        let len_ok = inputs.len() + 1 == m.inputs.len();
        match e {
            SatisfactionError::InputLength(_, _) => ensure!(!len_ok, "{:?}: {} inputs reported as a wrong number", ops, inputs.len()),
            SatisfactionError::Multiplication(_, a, b, c) => {
                ensure!(len_ok && a * b != c, "{:?} inputs {:?}: reports gate {:?} * {:?} = {:?} as violated", ops, inputs, a, b, c);
                ensure!((0..m.n).any(|i| (m.a[i], m.b[i], m.c[i]) == (a, b, c)), "{:?}: reports a gate with values {:?} {:?} {:?} that does not exist", ops, a, b, c);
            }
            SatisfactionError::Linear(_, l, r) => {
                ensure!(len_ok && l != r, "{:?} inputs {:?}: reports constraint {:?} = {:?} as violated", ops, inputs, l, r);
                ensure!((0..m.lins.len()).any(|q| m.lin(q) == l), "{:?}: reports a constraint of value {:?} that does not exist", ops, l);
            }
            SatisfactionError::Synthesis(e) => return Err(format!("{:?}: synthesis reported as failing with {:?}", ops, e)),
        }
    }
    transitions(1);
    validated(1);
    Ok(())
}

fn satisfaction<F: Field>(ops: &[Op], vals: &[F]) -> Result<(), String> {
    let m = Model::<F>::new(ops);
    let p = m.public();
    verdict(ops, &p, &m)?;
    for i in 0..p.len() {
        for v in vals {
            let mut q = p.clone();
            q[i] = *v;
            verdict(ops, &q, &m)?;
        }
        for j in 0..i {
            let mut q = p.clone();
            q.swap(i, j);
            verdict(ops, &q, &m)?;
        }
    }
    let mut q = p.clone();
    q.push(F::zero());
    verdict(ops, &q, &m)?;
    q.push(F::one());
    verdict(ops, &q, &m)?;
    for k in 0..p.len() {
        verdict(ops, &p[..k], &m)?;
    }
    // no witness: an error, never "satisfied"
    let r = guard(|| is_satisfied::<F, _, Basic>(&Prog { ops, witness: false }, &p)).map_err(|e| format!("{:?} without a witness: {}", ops, e))?;
    let needs = ops.iter().any(|o| matches!(o, Op::Alloc(_) | Op::Input(_) | Op::Mult(..)));
    ensure!(!needs || r == Err(SatisfactionError::Synthesis(SynthesisError::AssignmentMissing)), "{:?} without a witness: {:?}", ops, r);
    states(1);
    Ok(())
}

fn counting<F: Field>(ops: &[Op]) -> Result<(), String> {
    let m = Model::<F>::new(ops);
    for witness in [false, true] {
        let r = guard(|| constraint_count::<F, _, Basic>(&Prog { ops, witness })).map_err(|e| format!("{:?}: {}", ops, e))?;
        let r = r.map_err(|e| format!("{:?}: counting fails with {:?}", ops, e))?;
        let got: std::collections::BTreeMap<String, [usize; 4]> = r.iter().map(|(k, v)| (k.clone(), [v.0.allocations, v.0.mult_constraints, v.0.total_mults, v.0.total_lcs])).collect();
        ensure!(got == m.counts, "{:?}: counts {:?}, issued {:?}", ops, got, m.counts);
        transitions(1);
        validated(1);
    }
    states(1);
    Ok(())
}

/// Emits `pre`, then `blank` or `live` depending on whether a value of `pre`
/// was ever asked for.
struct Split<'a> {
    pre: &'a [Op],
    blank: &'a [Op],
    live: &'a [Op],
    witness: bool,
    log: RefCell<Vec<Op>>,
}
impl<'a, F: Field> Circuit<F> for Split<'a> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let asked = Cell::new(false);
        let give = |v: u64| {
            asked.set(true);
            if self.witness {
                Ok(F::from_u64(v))
            } else {
                Err(SynthesisError::AssignmentMissing)
            }
        };
        let mut vars = vec![];
        self.log.borrow_mut().clear();
        let mut tail: Option<&[Op]> = None;
        let mut i = 0;
        loop {
            let op = if i < self.pre.len() {
                &self.pre[i]
            } else {
                let t = *tail.get_or_insert(if asked.get() { self.live } else { self.blank });
                match t.get(i - self.pre.len()) {
                    Some(o) => o,
                    None => break,
                }
            };
            i += 1;
            match op {
                Op::Alloc(v) => vars.push(cs.alloc(|| format!("a{}", i), || give(*v))?),
                Op::Input(v) => vars.push(cs.alloc_input(|| format!("i{}", i), || give(*v))?),
                Op::Mult(a, b, _) => {
                    let (x, y, z) = cs.multiply(
                        || format!("m{}", i),
                        || {
                            let (a, b) = (give(*a)?, give(*b)?);
                            Ok((a, b, a * b))
                        },
                    )?;
                    vars.extend([x, y, z]);
                }
                Op::Lin(t) => {
                    let lc = build_lc::<F, CS>(&vars, t);
                    cs.enforce_zero(lc);
                }
                _ => (),
            }
        }
        Ok(())
    }
}

/// what is issued, up to values
fn shape(pre: &[Op], tail: &[Op]) -> Vec<(u8, Vec<(usize, u64)>)> {
    let mut vars = vec![];
    let mut next = 1usize;
    let mut out = vec![];
    for o in pre.iter().chain(tail) {
        match o {
            Op::Alloc(_) | Op::Input(_) => {
                vars.push((next, 0u8));
                next += 1;
                out.push((if let Op::Alloc(_) = o { 0 } else { 1 }, vec![]));
            }
            Op::Mult(..) => {
                for _ in 0..3 {
                    vars.push((next, 0));
                    next += 1;
                }
                out.push((2, vec![]));
            }
            Op::Lin(t) => {
                let l = t
                    .iter()
                    .map(|(k, r)| {
                        let w = match r {
                            R::One => 0,
                            R::Back(i) if *i < vars.len() => vars[vars.len() - 1 - i].0,
                            R::First(i) if *i < vars.len() => vars[*i].0,
                            _ => 0,
                        };
                        (w, k.val::<T<13, 0>>().0)
                    })
                    .collect();
                out.push((3, l));
            }
            _ => (),
        }
    }
    out
}
/// the formal sums of a shape
fn sums(s: &[(u8, Vec<(usize, u64)>)]) -> Vec<(u8, Vec<(usize, u64)>)> {
    s.iter()
        .map(|(t, l)| {
            let mut m = std::collections::BTreeMap::new();
            for (w, k) in l {
                *m.entry(*w).or_insert(0) += k;
            }
            (*t, m.into_iter().map(|(w, k)| (w, k % 13)).filter(|x| x.1 != 0).collect())
        })
        .collect()
}

fn determinism(pre: &[Op], blank: &[Op], live: &[Op]) -> Result<(), String> {
    let c = Split { pre, blank, live, witness: true, log: Default::default() };
    let r = guard(|| determinism_check::<T<13, 0>, _>(&c));
    let (a, b) = (shape(pre, blank), shape(pre, live));
    let fine = matches!(r, Ok(Ok(())));
    if a == b {
        ensure!(fine, "{:?} then {:?} whether or not there is a witness: reported {:?}", pre, blank, r);
    } else if sums(&a) != sums(&b) {
        ensure!(!fine, "{:?} then {:?} without a witness but {:?} with one: reported as deterministic", pre, blank, live);
    }
    transitions(1);
    states(1);
    validated(1);
    Ok(())
}

fn main() {
    let mut c = Ctx::new("S03", "model_checking");
    c.rule("all circuit programs up to a length with satisfied and violated gates, linear and input constraints, with every public input replaced, swapped, missing or extra; all pairs of a witness-free and a witness-carrying continuation; all nestings of namespaces; each verdict compared with the reference meaning of the program");
    let lin = |t: &[(K, R)]| Op::Lin(t.to_vec());
    let letters = vec![
        Op::Alloc(1),
        Op::Alloc(2),
        Op::Input(0),
        Op::Input(2),
        Op::Mult(1, 2, 0),
        Op::Mult(2, 2, 1),
        Op::Mult(0, 3, 1),
        lin(&[]),
        lin(&[(K::One, R::Back(0))]),
        lin(&[(K::One, R::Back(0)), (K::Neg, R::One)]),
        lin(&[(K::Full(2), R::Back(2)), (K::Neg, R::Back(1))]),
        lin(&[(K::Zero, R::Back(1))]),
        lin(&[(K::One, R::First(0)), (K::Neg, R::Back(0))]),
    ];
    let len = c.tier(5, 6);
    c.case("satisfaction", |c| {
        let all = sequences(&letters, len, &|_| true);
        c.sample(format!("{} programs of length up to {} over {} letters", all.len(), len, letters.len()));
        type F = T<7, 0>;
        let vals: Vec<F> = F::all().take(4).collect();
        par(&all, |o| satisfaction(o, &vals)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case("satisfaction, every value", |_| {
        // a product relation between two allocations, a gate and an input:
        // every value of every wire over a 5-element field
        let mut v = vec![];
        for x in 0..5u64.pow(5) {
            let d = [x % 5, x / 5 % 5, x / 25 % 5, x / 125 % 5, x / 625];
            for after in 0..2 {
                let mut o = vec![Op::Alloc(d[0]), Op::Alloc(d[1])];
                if after == 1 {
                    o.insert(1, Op::Push);
                    o.push(Op::Pop);
                }
                o.extend([
                    Op::Mult(d[2], d[3], 0),
                    lin(&[(K::One, R::First(0)), (K::Neg, R::Back(2))]),
                    lin(&[(K::Full(2), R::First(1)), (K::Full(3), R::Back(1))]),
                    Op::Input(d[4]),
                    lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))]),
                ]);
                v.push(o);
            }
        }
        type F = T<5, 0>;
        let vals: Vec<F> = F::all().collect();
        par(&v, |o| satisfaction(o, &vals)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    let width = c.tier(4, 5);
    c.case("satisfaction, repeated terms", |c| {
        // one constraint of every sequence of terms over the wires of a gate
        // and the constant, with repetitions
        let mut terms = vec![];
        for k in [K::One, K::Neg, K::Full(2), K::Full(4), K::Zero] {
            for r in [R::Back(0), R::Back(2), R::One] {
                terms.push((k, r));
            }
        }
        let all = sequences(&terms, width, &|_| true);
        c.sample(format!("constraints of up to {} terms out of {}: {}", width, terms.len(), all.len()));
        type F = T<5, 0>;
        let one = [F::one()];
        par(&all, |t| {
            satisfaction::<F>(&[Op::Mult(2, 3, 0), lin(t)], &one)?;
            satisfaction::<F>(&[Op::Mult(3, 3, 0), lin(t), Op::Input(2), lin(&[(K::One, R::Back(0)), (K::Full(3), R::One)])], &one)
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    let sizes = c.tier(vec![130usize, 300, 1030], vec![127, 128, 129, 255, 257, 511, 513, 1023, 1025, 2050]);
    c.case("satisfaction, very long programs", |c| {
        // everything holds but one wire or constraint, at every position class
        let mut v = vec![];
        for n in &sizes {
            let honest: Vec<Op> = (0..*n)
                .flat_map(|i| {
                    let (a, b) = (1 + i as u64 % 7, 1 + i as u64 % 5);
                    vec![
                        Op::Mult(a, b, 0),
                        lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(0)), (K::Full(b), R::Back(2)), (K::Neg, R::Back(0)), (K::Zero, R::First(i))]),
                        Op::Input(a),
                        lin(&[(K::Full(3), R::Back(0)), (K::Neg, R::Back(3)), (K::Neg, R::Back(3)), (K::Neg, R::Back(3))]),
                    ]
                })
                .collect();
            v.push(honest.clone());
            for at in [0, 1, n / 2, n - 2, n - 1] {
                for (d, w) in [(0, Op::Mult(1 + at as u64 % 7, 1 + at as u64 % 5, 1)), (0, Op::Mult(2 + at as u64 % 7, 1 + at as u64 % 5, 0)), (2, Op::Input(2 + at as u64 % 7))] {
                    let mut o = honest.clone();
                    o[4 * at + d] = w;
                    v.push(o);
                }
                let mut o = honest.clone();
                o.insert(4 * at + 1, lin(&[(K::One, R::Back(1)), (K::Neg, R::One), (K::Neg, R::Back(1)), (K::Full(2), R::One)]));
                v.push(o);
            }
        }
        c.sample(format!("{} programs", v.len()));
        par(&v, |o| {
            let m = Model::<Fp>::new(o);
            verdict(o, &m.public(), &m)?;
            states(1);
            let m = Model::<T<97, 0>>::new(o);
            let mut p = m.public();
            verdict(o, &p, &m)?;
            states(1);
            // one input short, one too many, the last one wrong
            verdict(o, &p[1..], &m)?;
            p.push(T::zero());
            verdict(o, &p, &m)?;
            p.pop();
            let l = p.len() - 1;
            p[l] = p[l] + T::one();
            verdict(o, &p, &m)
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    c.case("satisfaction, real fields", |_| {
        let all = sequences(&letters, len - 2, &|_| true);
        par(&all, |o| {
            satisfaction(o, &[Fp::zero(), -Fp::one()])?;
            satisfaction(o, &[Fq::zero(), -Fq::one()])
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    c.case("counting", |c| {
        let mut l = vec![Op::Alloc(1), Op::Input(2), Op::Mult(1, 2, 0), lin(&[]), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))])];
        l.extend([Op::Push, Op::Pop]);
        let all = sequences(&l, len + 2, &|s| sensible(s));
        c.sample(format!("{} programs with namespaces", all.len()));
        par(&all, |o| counting::<T<13, 0>>(o)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case("determinism", |c| {
        let l = vec![
            Op::Alloc(1),
            Op::Alloc(2),
            Op::Input(1),
            Op::Mult(1, 2, 0),
            lin(&[]),
            lin(&[(K::One, R::Back(0))]),
            lin(&[(K::Neg, R::Back(0))]),
            lin(&[(K::Full(2), R::Back(0))]),
            lin(&[(K::Full(5), R::Back(0))]),
            lin(&[(K::One, R::Back(1))]),
            lin(&[(K::One, R::Back(0)), (K::One, R::One)]),
        ];
        let tails = sequences(&l, 3, &|_| true);
        let pres = [vec![Op::Alloc(3)], vec![Op::Mult(1, 1, 0)], vec![Op::Input(4), lin(&[(K::Full(3), R::Back(0))])]];
        c.sample(format!("{} x {} pairs of continuations", tails.len(), tails.len()));
        let full = c.thorough;
        par(&tails, |t| {
            for u in &tails {
                for p in pres.iter().take(if full || t.len() + u.len() <= 3 { 3 } else { 1 }) {
                    determinism(p, t, u)?;
                }
            }
            Ok(())
        })
        .into_iter()
        .collect::<Result<Vec<()>, _>>()
        .map(|_| ())
    });
    c.case("determinism without a witness", |_| {
        let l = [Op::Alloc(1), Op::Input(1), Op::Mult(1, 2, 0), lin(&[(K::One, R::Back(0))])];
        for t in sequences(&l, 3, &|_| true) {
            let pre = [];
            let c = Split { pre: &pre, blank: &t, live: &t, witness: false, log: Default::default() };
            let r = guard(|| determinism_check::<T<13, 0>, _>(&c));
            let needs = t.iter().any(|o| !matches!(o, Op::Lin(_)));
            ensure!(!needs || matches!(r, Ok(Err(SynthesisError::AssignmentMissing))), "{:?}: a circuit without a witness is reported {:?}", t, r);
            states(1);
            transitions(1);
        }
        Ok(())
    });
    c.bound(format!("single constraints up to {} terms of 15; long programs of {:?} gates with one defect", width, sizes));
    c.bound(format!("programs up to {} operations ({} with namespaces), continuations up to 3 operations", len, len + 2));
    c.assume("S03: namespaces have distinct paths (the counter keeps one entry per path)");
    c.finish()
}
