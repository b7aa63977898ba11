//! P02: any change to a proof is rejected, without a crash.
use halo::*;
use halo_mc::prog::*;
use halo_mc::proofref::*;
use halo_mc::tiny::{E, T};
use halo_mc::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Negate,
    Bump,
    Clear,
    Endo,
    Double,
}
const HOWS: [How; 5] = [How::Negate, How::Bump, How::Clear, How::Endo, How::Double];

fn apply<C: Curve>(p: &mut Proof<C>, part: Part, how: How) -> bool {
    match slot(p, part) {
        Slot::P(v) => {
            let old = *v;
            *v = match how {
                How::Negate => -old,
                How::Bump => old + C::one(),
                How::Clear => C::zero(),
                How::Endo => old * C::BETA_SCALAR,
                How::Double => old + old,
            };
            *v != old
        }
        Slot::S(v) => {
            let old = *v;
            *v = match how {
                How::Negate => -old,
                How::Bump => old + C::Scalar::one(),
                How::Clear => C::Scalar::zero(),
                How::Endo => old * C::BETA_SCALAR,
                How::Double => old + old,
            };
            *v != old
        }
    }
}
fn swap<C: Curve>(p: &mut Proof<C>, a: Part, b: Part) -> bool {
    let read = |p: &mut Proof<C>, x| match slot(p, x) {
        Slot::P(v) => (Some(*v), None),
        Slot::S(v) => (None, Some(*v)),
    };
    let (va, vb) = (read(p, a), read(p, b));
    if va.0.is_some() != vb.0.is_some() || va == vb {
        return false;
    }
    for (x, v) in [(a, vb), (b, va)] {
        match slot(p, x) {
            Slot::P(s) => *s = v.0.unwrap(),
            Slot::S(s) => *s = v.1.unwrap(),
        }
    }
    true
}

/// The verdict: None rejected, Some(()) accepted; a panic is a failure.
fn accepted<C: Curve>(what: &str, p: &Proof<C>, old: &Leftovers<C>, params: &Params<C>, ops: &[Op], inputs: &[C::Scalar]) -> Result<bool, String> {
    transitions(1);
    match guard(|| library(p, old, params, ops, inputs)) {
        Err(e) => Err(format!("{}: the verifier crashes: {}", what, e)),
        Ok(Err(_)) => Ok(false),
        Ok(Ok(s)) => Ok(s.accept()),
    }
}

struct Stage<C: Curve> {
    name: String,
    params: Params<C>,
    ops: Vec<Op>,
    old: Leftovers<C>,
    proof: Proof<C>,
    inputs: Vec<C::Scalar>,
}
fn stage<C: Curve>(name: &str, params: Params<C>, ops: Vec<Op>, links: usize) -> Stage<C> {
    let mut old = start(&params);
    for _ in 0..links {
        old = Proof::new::<_, Basic>(&params, &Prog { ops: &ops, witness: true }, &old).unwrap().1;
    }
    let proof = Proof::new::<_, Basic>(&params, &Prog { ops: &ops, witness: true }, &old).unwrap().0;
    let inputs = Model::<C::Scalar>::new(&ops).public();
    Stage { name: name.into(), params, ops, old, proof, inputs }
}
impl<C: Curve> Stage<C> {
    fn must_reject(&self, what: String, p: &Proof<C>) -> Result<(), String> {
        let what = format!("{}, {}", self.name, what);
        ensure!(!accepted(&what, p, &self.old, &self.params, &self.ops, &self.inputs)?, "{}: the altered proof is accepted", what);
        states(1);
        Ok(())
    }
}

type Edit<C> = (String, Box<dyn Fn(&mut Proof<C>) -> bool + Send + Sync>);
fn edits<C: Curve>(k: usize, all: bool) -> Vec<Edit<C>> {
    let ps = parts(k);
    let mut v: Vec<Edit<C>> = vec![];
    for &part in &ps {
        for how in HOWS {
            v.push((format!("{:?} {}", how, name(part)), Box::new(move |p| apply(p, part, how))));
        }
    }
    for i in 0..ps.len() {
        for j in i + 1..ps.len() {
            let (a, b) = (ps[i], ps[j]);
            let near = match (a, b) {
                (Part::Commit(_), Part::Commit(_)) | (Part::Open(_), Part::Open(_)) | (Part::A(_), Part::A(_)) => true,
                (Part::RL(x, y), Part::RR(z, w)) | (Part::Rl(x, y), Part::Rr(z, w)) => x == z && y == w,
                (Part::RL(x, y), Part::RL(z, w)) | (Part::Rl(x, y), Part::Rl(z, w)) => x == z && w == y + 1,
                _ => false,
            };
            if all || near {
                v.push((format!("swapping {} and {}", name(a), name(b)), Box::new(move |p| swap(p, a, b))));
            }
        }
    }
    for i in 0..k {
        for j in 0..i {
            v.push((format!("swapping rounds {} and {}", j, i), Box::new(move |p| {
                p.inner_product.rounds.swap(i, j);
                true
            })));
        }
        v.push((format!("dropping round {}", i), Box::new(move |p| {
            p.inner_product.rounds.remove(i);
            true
        })));
        v.push((format!("repeating round {}", i), Box::new(move |p| {
            let r = p.inner_product.rounds[i].clone();
            p.inner_product.rounds.insert(i, r);
            true
        })));
        v.push((format!("replacing round {} by another", i), Box::new(move |p| {
            p.inner_product.rounds[i] = p.inner_product.rounds[(i + 1) % k].clone();
            k > 1
        })));
        v.push((format!("mirroring round {}", i), Box::new(move |p| {
            let r = &mut p.inner_product.rounds[i];
            std::mem::swap(&mut r.L, &mut r.R);
            std::mem::swap(&mut r.l, &mut r.r);
            true
        })));
        macro_rules! vecs {
            ($($f:ident),*) => { $(
                v.push((format!("shortening {} of round {}", stringify!($f), i), Box::new(move |p| { p.inner_product.rounds[i].$f.pop(); true })));
                v.push((format!("emptying {} of round {}", stringify!($f), i), Box::new(move |p| { p.inner_product.rounds[i].$f.clear(); true })));
                v.push((format!("extending {} of round {}", stringify!($f), i), Box::new(move |p| { let x = p.inner_product.rounds[i].$f[0]; p.inner_product.rounds[i].$f.push(x); true })));
                v.push((format!("rotating {} of round {}", stringify!($f), i), Box::new(move |p| { p.inner_product.rounds[i].$f.rotate_left(1); true })));
            )* };
        }
        vecs!(L, R, l, r);
    }
    v.push(("no rounds".into(), Box::new(|p| {
        p.inner_product.rounds.clear();
        true
    })));
    v.push(("one more empty round".into(), Box::new(|p| {
        p.inner_product.rounds.push(InnerProductRound { L: vec![], R: vec![], l: vec![], r: vec![] });
        true
    })));
    v.push(("one more neutral round".into(), Box::new(|p| {
        let z = C::Scalar::zero();
        p.inner_product.rounds.push(InnerProductRound { L: vec![C::zero(); 5], R: vec![C::zero(); 5], l: vec![z; 5], r: vec![z; 5] });
        true
    })));
    for n in [0usize, 1, 4, 6] {
        v.push((format!("{} final values", n), Box::new(move |p| {
            p.inner_product.a.resize(n, C::Scalar::one());
            true
        })));
    }
    // changes of several components at once that keep some of the equations
    for s in [2u64, 3] {
        v.push((format!("a scaled by {} and g by its inverse", s), Box::new(move |p| {
            let s = C::Scalar::from_u64(s);
            p.inner_product.g = p.inner_product.g * s.invert().unwrap();
            for a in &mut p.inner_product.a {
                *a = *a * s;
            }
            true
        })));
    }
    v.push(("everything in the inner product negated".into(), Box::new(|p| {
        for r in &mut p.inner_product.rounds {
            for x in r.L.iter_mut().chain(&mut r.R) {
                *x = -*x;
            }
            for x in r.l.iter_mut().chain(&mut r.r) {
                *x = -*x;
            }
        }
        for a in &mut p.inner_product.a {
            *a = -*a;
        }
        true
    })));
    v.push(("all zero".into(), Box::new(|p| {
        let k = p.inner_product.rounds.len();
        for part in parts(k) {
            apply(p, part, How::Clear);
        }
        true
    })));
    v.push(("the dummy inner product".into(), Box::new(|p| {
        let k = p.inner_product.rounds.len();
        p.inner_product.rounds = (0..k).map(|_| InnerProductRound { L: vec![C::one(); 5], R: vec![C::one(); 5], l: vec![C::Scalar::one(); 5], r: vec![C::Scalar::one(); 5] }).collect();
        p.inner_product.a = vec![C::Scalar::one(); 5];
        p.inner_product.g = C::one();
        true
    })));
    for d in [1u64, 5] {
        v.push((format!("t+ and t- openings shifted by {} keeping their sum", d), Box::new(move |p| {
            let d = C::Scalar::from_u64(d);
            p.tx_positive_opening = p.tx_positive_opening + d;
            p.tx_negative_opening = p.tx_negative_opening - d;
            true
        })));
        v.push((format!("t+ commitment and opening both shifted by {}", d), Box::new(move |p| {
            let d = C::Scalar::from_u64(d);
            p.tx_positive_opening = p.tx_positive_opening + d;
            p.t_positive_commitment = p.t_positive_commitment + C::one() * d;
            true
        })));
    }
    v
}

fn all_edits<C: Curve>(s: &Stage<C>, all: bool) -> Result<usize, String> {
    let what = format!("{}: the unaltered proof", s.name);
    ensure!(accepted(&what, &s.proof, &s.old, &s.params, &s.ops, &s.inputs)?, "{} is rejected", what);
    let e = edits::<C>(s.params.k, all);
    par(&e, |(what, f)| {
        let mut p = s.proof.clone();
        if !f(&mut p) {
            return Ok(0);
        }
        s.must_reject(what.clone(), &p).map(|_| 1)
    })
    .into_iter()
    .sum()
}

fn main() {
    let mut c = Ctx::new("P02", "model_checking");
    c.rule("every component of an honest proof replaced by each value of an alphabet (real curves) or by every element and point (tiny curve, judged by the reference verifier), all swaps of components, all changes of the shape of the inner product argument");
    let lin = |t: &[(K, R)]| Op::Lin(t.to_vec());
    let ops = vec![Op::Mult(7, 6, 0), Op::Input(42), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))])];
    let all = c.tier(0, 1) == 1;
    let links = c.tier(0, 2);
    c.case("real curves, every change", |c| {
        num_cpus::mc_set(1);
        let a = stage("first curve", fixed_params::<Ec1>(4, 3), ops.clone(), 1);
        let n = all_edits(&a, all)?;
        c.sample(format!("{} altered proofs on the first curve", n));
        let b = stage("second curve", fixed_params::<Ec0>(4, 5), ops.clone(), links);
        let n = all_edits(&b, all)?;
        c.sample(format!("{} altered proofs on the second curve", n));
        Ok(())
    });
    c.case("tiny curve, every value of every component", |c| {
        type A = E<613, 577, 5, 0, 0>;
        assert!(A::check_params());
        num_cpus::mc_set(1);
        let pts = A::all();
        let step = c.tier(16u64, 1);
        let progs: Vec<Vec<Op>> = vec![ops.clone(), vec![Op::Mult(0, 2, 0), Op::Input(5)], vec![]];
        for (i, o) in progs.iter().take(c.tier(2, 3)).enumerate() {
            let m = Model::<T<577, 0>>::new(o);
            ensure!(m.satisfied(&m.public()), "program {} is not satisfied over the tiny field", i);
            let s = stage::<A>("tiny curve", fixed_params(4, i as u64), o.clone(), i);
            let mut jobs = vec![];
            for (pi, part) in parts(4).into_iter().enumerate() {
                for v in 0..577u64 {
                    if (v + pi as u64 * 7) % step == 0 || v < 3 {
                        jobs.push((part, v));
                    }
                }
            }
            let r = par(&jobs, |(part, v)| {
                let mut p = s.proof.clone();
                let changed = match slot(&mut p, *part) {
                    Slot::P(x) => {
                        let old = *x;
                        *x = pts[*v as usize];
                        *x != old
                    }
                    Slot::S(x) => {
                        let old = *x;
                        *x = T(*v);
                        *x != old
                    }
                };
                let what = format!("tiny curve program {}, {} := {}", i, name(*part), v);
                let Some((e, said)) = agree(&what, &p, &s.old, &s.params, &s.ops, &s.inputs)? else { return Ok((0, 0)) };
                ensure!(e.accept() || changed, "{}: the unaltered proof is rejected", what);
                states(1);
                transitions(1);
                validated(1);
                Ok((1, (said.accept() && changed) as usize))
            })
            .into_iter()
            .collect::<Result<Vec<_>, String>>()?;
            let lucky: usize = r.iter().map(|x| x.1).sum();
            c.sample(format!("program {}: {} altered proofs compared with the reference, {} accepted by chance by both", i, r.iter().map(|x| x.0).sum::<usize>(), lucky));
            // one in 577 values can be accepted by accident, per equation
            ensure!(lucky * 100 < r.len() + 100, "{} of {} altered proofs over the tiny curve are accepted", lucky, r.len());
        }
        Ok(())
    });
    c.bound("real curves: k = 4, one circuit, proofs after 0 to 2 earlier ones; 5 replacement values for each of the 99 components; tiny curve: field of 577 elements");
    c.assume("P02: over the real curves a rejection is expected of every alteration; an accidental acceptance has probability about 2^-120");
    c.finish()
}
