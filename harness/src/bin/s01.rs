//! S01: every backend sees the same numbering; s(X, Y) in both orders.
use halo::*;
use halo_mc::prog::*;
use halo_mc::tiny::{E, T};
use halo_mc::*;
use std::collections::BTreeMap;

#[derive(Default)]
struct Seen<F: Field> {
    witness: bool,
    a: Vec<F>,
    b: Vec<F>,
    c: Vec<F>,
    lins: Vec<BTreeMap<W, F>>,
    inputs: Vec<(usize, Option<F>)>,
    names: Vec<Option<String>>,
    bad: Option<String>,
}
impl<'a, FF: Field> Backend<FF> for &'a mut Seen<FF> {
    type LinearConstraintIndex = usize;
    fn get_var(&self, v: Variable) -> Option<FF> {
        if !self.witness {
            return None;
        }
        let (i, c) = wire_of(v);
        [&self.a, &self.b, &self.c][c as usize].get(i - 1).copied()
    }
    fn set_var<F, A, AR>(&mut self, _: Option<A>, v: Variable, f: F) -> Result<(), SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let (i, c) = wire_of(v);
        if i == 0 || i > self.a.len() {
            self.bad = Some(format!("wire {:?} is assigned before its gate exists", v));
            return Ok(());
        }
        if self.witness {
            let x = f()?;
            [&mut self.a, &mut self.b, &mut self.c][c as usize][i - 1] = x;
        }
        Ok(())
    }
    fn new_multiplication_gate<A, AR>(&mut self, _: Option<A>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.a.push(FF::zero());
        self.b.push(FF::zero());
        self.c.push(FF::zero());
    }
    fn new_linear_constraint<A, AR>(&mut self, _: A) -> usize
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.lins.push(BTreeMap::new());
        self.lins.len()
    }
    fn insert_coefficient(&mut self, v: Variable, k: Coeff<FF>, y: &usize) {
        let w = wire_of(v);
        if w.0 == 0 || w.0 > self.a.len() {
            self.bad = Some(format!("a constraint uses wire {:?} before its gate exists", v));
        }
        if *y == 0 || *y > self.lins.len() {
            self.bad = Some(format!("a term is inserted in constraint {} of {}", y, self.lins.len()));
            return;
        }
        let e = self.lins[*y - 1].entry(w).or_insert(FF::zero());
        *e = *e + k.value();
    }
    fn get_for_q(&self, q: usize) -> usize {
        q
    }
    fn new_k_power(&mut self, i: usize, v: Option<FF>) -> Result<(), SynthesisError> {
        if i != self.lins.len() {
            self.bad = Some(format!("input {} claims constraint {} when {} exist", self.inputs.len(), i, self.lins.len()));
        }
        self.inputs.push((i, v));
        Ok(())
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.names.push(Some(n().into()));
    }
    fn pop_namespace(&mut self, _: Option<String>) {
        self.names.push(None);
    }
}

fn formal<F: Field>(m: &BTreeMap<W, F>) -> Vec<(W, F)> {
    m.iter().filter(|x| *x.1 != F::zero()).map(|x| (*x.0, *x.1)).collect()
}

fn numbering<F: Field + Default>(ops: &[Op]) -> Result<Model<F>, String> {
    let m = Model::<F>::new(ops);
    for witness in [true, false] {
        let what = || format!("{:?} {} witness", ops, if witness { "with" } else { "without" });
        let mut s = Seen::<F> { witness, ..Default::default() };
        Basic::synthesize(&mut s, &Prog { ops, witness }).map_err(|e| format!("{}: synthesis fails: {:?}", what(), e))?;
        if let Some(b) = &s.bad {
            return Err(format!("{}: {}", what(), b));
        }
        ensure!(s.a.len() == m.n, "{}: {} gates, expected {}", what(), s.a.len(), m.n);
        ensure!(s.lins.len() == m.lins.len(), "{}: {} linear constraints, expected {}", what(), s.lins.len(), m.lins.len());
        for (q, (l, e)) in s.lins.iter().zip(&m.lins).enumerate() {
            let mut w = BTreeMap::new();
            for (x, k) in e {
                let v = w.entry(*x).or_insert(F::zero());
                *v = *v + k.val::<F>();
            }
            ensure!(formal(l) == formal(&w), "{}: constraint {} is {:?}, expected {:?}", what(), q + 1, formal(l), formal(&w));
        }
        let idx: Vec<usize> = s.inputs.iter().map(|x| x.0).collect();
        let want: Vec<usize> = m.inputs.iter().map(|x| x.0).collect();
        ensure!(idx == want, "{}: inputs at constraints {:?}, expected {:?}", what(), idx, want);
        let mut names = vec![];
        let mut d = 0;
        for (i, o) in ops.iter().enumerate() {
            match o {
                Op::Push => {
                    names.push(Some(format!("s{}", i)));
                    d += 1;
                }
                Op::Pop => {
                    names.push(None);
                    d -= 1;
                }
                _ => (),
            }
        }
        names.extend((0..d).map(|_| None));
        ensure!(s.names == names, "{}: namespaces {:?}, expected {:?}", what(), s.names, names);
        if witness {
            let v: Vec<Option<F>> = s.inputs.iter().map(|x| x.1).collect();
            let want: Vec<Option<F>> = m.inputs.iter().map(|x| Some(x.1)).collect();
            ensure!(v == want, "{}: input values {:?}, expected {:?}", what(), v, want);
            ensure!(s.a == m.a && s.b == m.b && s.c == m.c, "{}: assignment {:?} {:?} {:?}, expected {:?} {:?} {:?}", what(), s.a, s.b, s.c, m.a, m.b, m.c);
        } else {
            ensure!(s.inputs.iter().skip(1).all(|x| x.1.is_none()), "{}: an input has a value although there is no witness", what());
        }
        transitions(ops.len() as u64 + 1);
    }
    states(1);
    validated(2);
    Ok(m)
}

fn params<C: Curve>(k: usize) -> Params<C> {
    let d = 1 << k;
    Params { g: C::one(), d, n: d / 4, k, generators: vec![C::one(); d], generators_xy: vec![] }
}

fn poly<C: Curve>(p: &Params<C>, ops: &[Op], xs: &[C::Scalar]) -> Result<(), String> {
    let m = Model::<C::Scalar>::new(ops);
    if m.n > p.n {
        return Ok(());
    }
    for witness in [false, true] {
        let c = Prog { ops, witness };
        for y in xs {
            let s = p.compute_sx::<_, Basic>(&c, *y).map_err(|e| format!("{:?}: s(X, y) fails: {:?}", ops, e))?;
            ensure!(s == m.sx(*y, p.n), "{:?}: s(X, {:?}) is {:?}, expected {:?}", ops, y, s, m.sx(*y, p.n));
            transitions(1);
        }
        for x in xs {
            if *x == C::Scalar::zero() {
                continue;
            }
            let s = p.compute_sy::<_, Basic>(&c, *x, p.n, m.lins.len()).map_err(|e| format!("{:?}: s(x, Y) fails: {:?}", ops, e))?;
            let want = m.sy(*x, p.n);
            // trailing zero coefficients do not matter
            let trim = |v: &[C::Scalar]| {
                let mut v = v.to_vec();
                while v.last() == Some(&C::Scalar::zero()) {
                    v.pop();
                }
                v
            };
            ensure!(trim(&s) == trim(&want), "{:?}: s({:?}, Y) is {:?}, expected {:?}", ops, x, s, want);
            transitions(1);
        }
        validated(1);
    }
    states(1);
    // both orders agree
    let y = xs[xs.len() - 1];
    let x = xs[xs.len() - 2];
    let c = Prog { ops, witness: false };
    let sx = p.compute_sx::<_, Basic>(&c, y).unwrap();
    let sy = p.compute_sy::<_, Basic>(&c, x, p.n, m.lins.len()).unwrap();
    let l = p.compute_opening(&sx, x, false);
    let r = p.compute_opening(&sy, y, false);
    let xn = (0..p.n).fold(C::Scalar::one(), |a, _| a * x);
    ensure!(l == r * xn, "{:?}: s(X, y) at x and x^n s(x, Y) at y differ", ops);
    Ok(())
}

/// `n` steps: gates, allocations or inputs, each followed by constraints over
/// the newest wires, wires far back and the first ones.
fn long(n: usize, kind: usize) -> Vec<Op> {
    let mut o = vec![];
    for i in 0..n {
        match kind {
            0 => o.push(Op::Mult(1 + i as u64 % 5, 2 + i as u64 % 7, 0)),
            1 => o.push(Op::Alloc(i as u64 % 11)),
            2 => o.push(if i % 3 == 0 { Op::Mult(3, 4, 0) } else { Op::Input(i as u64 % 9) }),
            _ if i < 3 => o.push(Op::Mult(2, 3, 0)),
            _ => (),
        }
        let f = K::Full(2 + i as u64 % 89);
        o.push(Op::Lin(vec![(f, R::Back(i % 3)), (K::Neg, R::Back(1)), (K::One, R::Back(2)), (f, R::Back(i % 3)), (f, R::First(i / 2)), (K::Neg, R::First(i / 3))]));
        if i % 4 == 1 {
            o.push(Op::Lin(vec![(K::One, R::First(i / 4)), (f, R::Back(0)), (K::Zero, R::Back(i / 2)), (f, R::One)]));
        }
    }
    o
}

fn main() {
    let mut c = Ctx::new("S01", "model_checking");
    c.rule("all circuit programs up to a length over an alphabet of allocations, inputs, multiplications, linear constraints with every coefficient kind, and namespaces, run through the library's synthesis driver into a recording backend and through both polynomial evaluators; compared with the reference numbering and the defining formula");
    c.assume("S01: the prover's and verifier's own backends are private; their agreement with this numbering is exercised by P01, the satisfiability checker's by S03");
    let lin = |t: &[(K, R)]| Op::Lin(t.to_vec());
    let letters = vec![
        Op::Alloc(3),
        Op::Input(5),
        Op::Mult(2, 4, 0),
        lin(&[]),
        lin(&[(K::One, R::Back(0))]),
        lin(&[(K::Neg, R::Back(0)), (K::Full(3), R::One)]),
        lin(&[(K::Full(5), R::Back(1)), (K::Full(5), R::Back(1)), (K::Zero, R::First(0)), (K::One, R::Back(2))]),
        Op::Push,
        Op::Pop,
    ];
    let len = c.tier(7, 8);
    let all = sequences(&letters, len, &|s| sensible(s));
    c.case("numbering", |c| {
        c.sample(format!("{} programs of length up to {}", all.len(), len));
        par(&all, |o| numbering::<T<97, 0>>(o)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    let short: Vec<_> = all.iter().filter(|o| o.len() <= len - 2 && !o.contains(&Op::Push)).cloned().collect();
    c.case("polynomial over a tiny field, every point", |c| {
        c.sample(format!("{} programs, every x and y of a 13-element field", short.len()));
        let p = params::<E<7, 13, 3, 0, 0>>(6);
        let xs: Vec<_> = T::<13, 0>::all().collect();
        par(&short, |o| poly(&p, o, &xs)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    let fine: Vec<Op> = {
        let mut v = vec![Op::Alloc(1), Op::Input(2), Op::Mult(1, 3, 0)];
        for k in [K::Zero, K::One, K::Neg, K::Full(0), K::Full(7)] {
            for r in [R::One, R::Back(0), R::Back(1), R::Back(2), R::Back(3)] {
                v.push(Op::Lin(vec![(k, r)]));
            }
        }
        v
    };
    let flen = c.tier(3, 4);
    let fine = sequences(&fine, flen, &|_| true);
    c.case("polynomial, every coefficient on every wire", |c| {
        c.sample(format!("{} programs of length up to {}", fine.len(), flen));
        let p = params::<E<7, 13, 3, 0, 0>>(5);
        let xs: Vec<_> = T::<13, 0>::all().skip(3).step_by(2).collect();
        par(&fine, |o| poly(&p, o, &xs)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case("polynomial over the real fields", |_| {
        let step = if short.len() > 4000 { short.len() / 2000 } else { 1 };
        let some: Vec<_> = short.iter().step_by(step).cloned().collect();
        let p = params::<Ec1>(6);
        let xs = vec![Fq::zero(), Fq::one(), Fq::from_u64(0xffff_ffff_ffff), -Fq::from_u64(7), Fq::from_u128(3 << 126)];
        par(&some, |o| poly(&p, o, &xs)).into_iter().collect::<Result<Vec<_>, _>>()?;
        let p = params::<Ec0>(6);
        let xs = vec![Fp::zero(), Fp::one(), Fp::from_u64(0xffff_ffff_ffff), -Fp::from_u64(7), Fp::from_u128(3 << 126)];
        par(&some, |o| poly(&p, o, &xs)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case("long programs", |_| {
        // each letter repeated, and each pair alternated, up to the gate limit
        let mut v = vec![];
        for a in &letters {
            for b in &letters {
                for n in [9, 20, 61] {
                    let mut o: Vec<Op> = (0..n).flat_map(|_| [a.clone(), b.clone()]).collect();
                    while !sensible(&o) {
                        o = o.into_iter().filter(|x| !matches!(x, Op::Push | Op::Pop)).collect();
                    }
                    v.push(o);
                }
            }
        }
        let p = params::<E<7, 13, 3, 0, 0>>(9);
        let xs: Vec<_> = T::<13, 0>::all().collect();
        par(&v, |o| {
            numbering::<T<97, 0>>(o)?;
            poly(&p, o, &xs)
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    let sizes = c.tier(vec![127usize, 256, 513, 1025], vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025, 2050, 4100]);
    c.case("very long programs", |c| {
        // gates and constraints in the numbers real circuits have; late ones
        // carry every kind of coefficient on every kind of wire
        let mut v = vec![];
        for n in &sizes {
            for kind in 0..4 {
                v.push(long(*n, kind));
            }
        }
        c.sample(format!("{} programs, up to {} operations", v.len(), v.iter().map(|o| o.len()).max().unwrap()));
        let top = 2 + v.iter().map(|o| Model::<Fq>::new(o).n).max().unwrap().next_power_of_two().trailing_zeros() as usize;
        let p = params::<E<7, 13, 3, 0, 0>>(top);
        let q = params::<Ec1>(top);
        let xs: Vec<_> = [2u64, 3, 7].iter().map(|x| T::<13, 0>::from_u64(*x)).collect();
        let ys = [Fq::from_u64(3), -Fq::from_u64(7)];
        par(&v, |o| {
            numbering::<T<97, 0>>(o)?;
            poly(&p, o, &xs)?;
            poly(&q, o, &ys)
        })
        .into_iter()
        .collect::<Result<Vec<_>, _>>()
        .map(|_| ())
    });
    c.bound(format!("very long programs of {:?} steps of 4 kinds", sizes));
    c.bound(format!("programs up to {} operations over 9 letters ({} for polynomials), up to {} over 28 letters, alternating patterns up to 122 operations", len, len - 2, flen));
    c.finish()
}
