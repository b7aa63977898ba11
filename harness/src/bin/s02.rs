//! S02: coefficients and linear combinations as formal sums.
use halo::*;
use halo_mc::tiny::T;
use halo_mc::*;

type F = T<7, 0>;

fn coeffs<G: Field>(vals: &[G]) -> Vec<Coeff<G>> {
    let mut v = vec![Coeff::Zero, Coeff::One, Coeff::NegativeOne];
    v.extend(vals.iter().map(|x| Coeff::Full(*x)));
    v
}
fn val<G: Field>(c: &Coeff<G>) -> G {
    match c {
        Coeff::Zero => G::zero(),
        Coeff::One => G::one(),
        Coeff::NegativeOne => -G::one(),
        Coeff::Full(v) => *v,
    }
}
fn coefficient_ops<G: Field>(vals: &[G]) -> Result<(), String> {
    let cs = coeffs(vals);
    for a in &cs {
        let v = val(a);
        ensure!(a.value() == v, "value of {:?}", a);
        ensure!(val(&-*a) == -v, "-{:?} is {:?}", a, -*a);
        ensure!(val(&a.double()) == v + v, "double of {:?} is {:?}", a, a.double());
        for x in vals {
            ensure!(val(&(*a * *x)) == v * *x, "{:?} times {:?} is {:?}", a, x, *a * *x);
            let mut y = *x;
            a.multiply(&mut y);
            ensure!(y == v * *x, "{:?} multiplied into {:?} is {:?}", a, x, y);
            ensure!(val(&Coeff::from(*x)) == *x, "coefficient from {:?}", x);
            transitions(2);
        }
        for b in &cs {
            ensure!(val(&(*a * *b)) == v * val(b), "{:?} times {:?} is {:?}", a, b, *a * *b);
            states(1);
            for d in &cs {
                let r = -((*a * *b).double() * *d);
                let w = v * val(b) * val(d);
                ensure!(val(&r) == -(w + w), "-2 {:?} {:?} {:?} is {:?}", a, b, d, r);
                transitions(1);
            }
        }
    }
    validated((cs.len() * cs.len()) as u64);
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Step<G: Field> {
    Var(bool, usize),
    Term(bool, Coeff<G>, usize),
    Lc(bool, usize),
    Scaled(bool, Coeff<G>, usize),
    From(usize),
    Clear,
}
const VARS: [Variable; 4] = [Variable::A(1), Variable::B(1), Variable::C(2), Variable::A(2)];

/// one register is built; two others are fixed operands, and so is itself
fn run<G: Field>(steps: &[Step<G>], operands: &[(LinearCombination<G>, [G; 4])], full: bool) -> Result<(), String> {
    let mut lc = LinearCombination::<G>::zero();
    let mut want = [G::zero(); 4];
    for s in steps {
        let own = (lc.clone(), want);
        let get = |i: usize| if i < operands.len() { &operands[i] } else { &own };
        match *s {
            Step::Var(true, v) => {
                lc = lc + VARS[v];
                want[v] = want[v] + G::one();
            }
            Step::Var(false, v) => {
                lc = lc - VARS[v];
                want[v] = want[v] - G::one();
            }
            Step::Term(true, c, v) => {
                lc = lc + (c, VARS[v]);
                want[v] = want[v] + val(&c);
            }
            Step::Term(false, c, v) => {
                lc = lc - (c, VARS[v]);
                want[v] = want[v] - val(&c);
            }
            Step::Lc(true, i) => {
                lc = lc + &get(i).0;
                for v in 0..4 {
                    want[v] = want[v] + get(i).1[v];
                }
            }
            Step::Lc(false, i) => {
                lc = lc - &get(i).0;
                for v in 0..4 {
                    want[v] = want[v] - get(i).1[v];
                }
            }
            Step::Scaled(true, c, i) => {
                lc = lc + (c, &get(i).0);
                for v in 0..4 {
                    want[v] = want[v] + val(&c) * get(i).1[v];
                }
            }
            Step::Scaled(false, c, i) => {
                lc = lc - (c, &get(i).0);
                for v in 0..4 {
                    want[v] = want[v] - val(&c) * get(i).1[v];
                }
            }
            Step::From(v) => {
                lc = LinearCombination::from(VARS[v]);
                want = [G::zero(); 4];
                want[v] = G::one();
            }
            Step::Clear => {
                lc = LinearCombination::zero();
                want = [G::zero(); 4];
            }
        }
    }
    let mut got = [G::zero(); 4];
    for (v, k) in lc.as_ref() {
        let i = match v {
            Variable::A(1) => 0,
            Variable::B(1) => 1,
            Variable::C(2) => 2,
            Variable::A(2) => 3,
            _ => return Err(format!("{:?}: contains {:?}", steps, v)),
        };
        got[i] = got[i] + val(k);
    }
    ensure!(got == want, "{:?}: sums to {:?}, expected {:?}", steps, got, want);
    // evaluation at assignments; unused wires carry values of their own
    let pts: Vec<u64> = if full { vec![0, 1, 2, 3, 4, 5, 6] } else { vec![2, 5] };
    let junk = [G::from_u64(3), G::from_u64(4)];
    for a in &pts {
        for b in &pts {
            for c in if full { &pts[1..4] } else { &pts[..] } {
                for d in if full { &pts[..3] } else { &pts[..] } {
                    let w = [*a, *b, *c, *d].map(G::from_u64);
                    let e = lc.evaluate(&[w[0], w[3]], &[w[1], junk[0]], &[junk[1], w[2]]);
                    let x = (0..4).fold(G::zero(), |s, i| s + want[i] * w[i]);
                    ensure!(e == x, "{:?} evaluates to {:?} at {:?}, expected {:?}", steps, e, w, x);
                    transitions(1);
                }
            }
        }
    }
    states(1);
    validated(1);
    Ok(())
}

fn histories<G: Field>(vals: &[G], len: usize, full: bool) -> Result<(), String> {
    let cs = coeffs(vals);
    let g = G::from_u64;
    let ops = vec![
        (LinearCombination::zero(), [G::zero(); 4]),
        (
            LinearCombination::zero() + (Coeff::Full(g(3)), VARS[0]) - (Coeff::One, VARS[2]) + (Coeff::Zero, VARS[1]) + (Coeff::NegativeOne, VARS[3]),
            [g(3), G::zero(), -G::one(), -G::one()],
        ),
    ];
    let mut letters: Vec<Step<G>> = vec![Step::Clear];
    for s in [true, false] {
        for v in 0..4 {
            letters.push(Step::Var(s, v));
        }
        for c in &cs {
            letters.push(Step::Term(s, *c, 1));
            letters.push(Step::Term(s, *c, 2));
            letters.push(Step::Scaled(s, *c, 1));
            letters.push(Step::Scaled(s, *c, 2));
        }
        for i in 0..3 {
            letters.push(Step::Lc(s, i));
        }
        letters.push(Step::Scaled(s, Coeff::One, 0));
    }
    for v in 0..4 {
        letters.push(Step::From(v));
    }
    let n = letters.len();
    let total = n.pow(len as u32);
    let blocks: Vec<usize> = (0..n).collect();
    par(&blocks, |b| {
        for l in 1..=len {
            for j in 0..n.pow(l as u32 - 1) {
                let mut s = vec![letters[*b]];
                let mut j = j;
                for _ in 1..l {
                    s.push(letters[j % n]);
                    j /= n;
                }
                run(&s, &ops, full && l <= 2)?;
            }
        }
        Ok(())
    })
    .into_iter()
    .collect::<Result<Vec<()>, _>>()?;
    let _ = total;
    Ok(())
}

fn main() {
    let mut c = Ctx::new("S02", "model_checking");
    c.rule("all coefficient operations over every element of a 7-element field and boundary elements of the real fields; all histories of linear-combination operations up to a length, each compared with a formal sum and evaluated at assignments");
    let tiny: Vec<F> = F::all().collect();
    c.case("coefficients, tiny field", |_| coefficient_ops(&tiny));
    let fp = [Fp::zero(), Fp::one(), -Fp::one(), Fp::from_u64(2), Fp::from_u128(1 << 127), -Fp::from_u64(9), Fp::ALPHA, Fp::BETA];
    let fq = [Fq::zero(), Fq::one(), -Fq::one(), Fq::from_u64(2), Fq::from_u128(1 << 127), -Fq::from_u64(9), Fq::ALPHA, Fq::BETA];
    c.case("coefficients, real fields", |_| coefficient_ops(&fp).and(coefficient_ops(&fq)));
    let len = c.tier(3, 4);
    c.case("histories, tiny field", |_| histories(&[F::zero(), F::one(), -F::one(), T(3)], len, true));
    c.case("histories, real fields", |_| {
        histories(&fp[..5], len - 1, false)?;
        histories(&fq[..5], len - 1, false)
    });
    c.bound(format!("histories up to {} operations over 67+ letters on one register with a fixed, an empty and a self operand; 4 wires", len));
    c.finish()
}
