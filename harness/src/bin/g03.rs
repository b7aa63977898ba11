//! G03: arithmetic gadgets over allocated numbers and combinations.
use halo::{AllocatedNum, Coeff, Combination, Field, Fp, Fq, Num};
use halo_mc::gad::*;
use halo_mc::r1cs::*;
use halo_mc::realf::{landmarks, of, val, RealField};
use halo_mc::tiny::T;
use halo_mc::*;

fn inv<F: Field>(x: F) -> Option<F> {
    let r = x.invert();
    if bool::from(r.is_some()) {
        Some(r.unwrap())
    } else {
        None
    }
}
fn pow5<F: Field>(x: F) -> F {
    x * x * x * x * x
}

/// The gadget's root is the one Field::sqrt returns, and the even one. It is
/// unpacked for that, which takes a field of the real size.
fn root<F: RealField>(x: F) -> Result<(), String> {
    let r = x.sqrt();
    let e = if bool::from(r.is_some()) {
        let r = r.unwrap();
        ensure!(r * r == x && val(&r)[0] & 1 == 0, "the square root of {:?} is {:?}", x, r);
        Expect::Is(vec![r])
    } else {
        Expect::Unsat
    };
    gadget::<F>(&format!("sqrt of {:?} in {}", x, F::NAME), e, &|g| {
        let a = g.num(x);
        g.cs.fix();
        let b = a.sqrt(&mut g.cs)?;
        Ok(vec![g.out_anum(&b)])
    })?;
    Ok(())
}
fn unary<F: Field>(name: &str, x: F) -> Result<(), String> {
    let w = |op: &str| format!("{} of {:?} in {}", op, x, name);
    gadget::<F>(&w("alloc_and_square"), Expect::Where(&|o| o[1] == o[0] * o[0]), &|g| {
        g.cs.fix();
        let v = g.w(x);
        let (a, b) = AllocatedNum::alloc_and_square(&mut g.cs, || v).or_else(|e| if g.is_blank() { Err(e) } else { Err(e) })?;
        Ok(vec![g.out_anum(&a), g.out_anum(&b)])
    })?;
    gadget::<F>(&w("inputize"), Expect::Is(vec![x, x]), &|g| {
        let a = g.num(x);
        g.cs.fix();
        let b = a.inputize(&mut g.cs)?;
        assert_eq!(g.cs.inputs.len(), 1, "inputize makes one input");
        let d = AllocatedNum::one(&mut g.cs);
        assert!(d.get_value() == Some(F::one()) && wire(d.get_variable()) == 0, "AllocatedNum::one");
        Ok(vec![g.out_anum(&a), g.out_anum(&b)])
    })?;
    {
        let mut g = G::<F>::new(false);
        let a = AllocatedNum::alloc_input(&mut g.cs, || Ok(x)).unwrap();
        ensure!(g.cs.inputs == vec![wire(a.get_variable())] && a.get_value() == Some(x), "{}", w("alloc_input"));
    }
    let i = inv(x);
    let e = match i {
        Some(i) => Expect::Is(vec![i]),
        None => Expect::Unsat,
    };
    gadget::<F>(&w("invert"), e, &|g| {
        let a = g.num(x);
        g.cs.fix();
        let b = a.invert(&mut g.cs)?;
        Ok(vec![g.out_anum(&b)])
    })?;
    for kind in 0..3u8 {
        gadget::<F>(&format!("{} kind {}", w("rescue_alpha"), kind), Expect::Is(vec![pow5(x)]), &|g| {
            let a = g.anum(kind, x);
            g.cs.fix();
            let r = Combination::from(a).rescue_alpha(&mut g.cs)?;
            Ok(vec![g.out_num(&r)])
        })?;
        let root = |o: &[F]| pow5(o[0]) == x;
        gadget::<F>(&format!("{} kind {}", w("rescue_invalpha"), kind), Expect::Where(&root), &|g| {
            let a = g.anum(kind, x);
            g.cs.fix();
            let r = Combination::from(a).rescue_invalpha(&mut g.cs)?;
            Ok(vec![g.out_num(&r)])
        })?;
        gadget::<F>(&format!("{} kind {}", w("square"), kind), Expect::Is(vec![x * x]), &|g| {
            let a = g.anum(kind, x);
            g.cs.fix();
            let r = Combination::from(a).square(&mut g.cs)?;
            Ok(vec![g.out_anum(&r)])
        })?;
        // Num algebra
        for s in [F::zero(), F::one(), -F::one(), F::from_u64(3)] {
            for c in [Coeff::Zero, Coeff::One, Coeff::NegativeOne, Coeff::Full(s)] {
                let want = [x * s, -x, c.value() * x, -(c.value() * x * s)];
                gadget::<F>(&format!("{} kind {} scale {:?} coeff {:?}", w("num algebra"), kind, s, c), Expect::Is(want.to_vec()), &|g| {
                    let a = g.anum(kind, x);
                    g.cs.fix();
                    assert_eq!(a.is_constant(), kind == 0, "is_constant");
                    let r = [a.scale(s), -a, Num::from((c, a)), -Num::from((c, a)).scale(s)];
                    Ok(r.iter().map(|n| g.out_num(n)).collect())
                })?;
            }
        }
    }
    Ok(())
}

fn binary<F: Field>(name: &str, x: F, y: F) -> Result<(), String> {
    for alias in [false, true] {
        let y = if alias { x } else { y };
        gadget::<F>(&format!("{:?} * {:?} in {}", x, y, name), Expect::Is(vec![x * y]), &|g| {
            let a = g.num(x);
            let b = if alias { a } else { g.num(y) };
            g.cs.fix();
            let r = a.mul(&mut g.cs, &b)?;
            Ok(vec![g.out_anum(&r)])
        })?;
    }
    for ka in 0..3u8 {
        for kb in 0..3u8 {
            gadget::<F>(&format!("combination {:?} * {:?} kinds {} {} in {}", x, y, ka, kb, name), Expect::Is(vec![x * y]), &|g| {
                let a = g.anum(ka, x);
                let b = g.anum(kb, y);
                g.cs.fix();
                let r = Combination::from(a).mul(&mut g.cs, &Combination::from(b))?;
                Ok(vec![g.out_anum(&r)])
            })?;
        }
    }
    Ok(())
}

/// Applies operation `op` to a combination with value `v`.
fn step<F: Field>(op: usize, c: Combination<F>, v: F, a: AllocatedNum<F>, av: F, n: Num<F>, nv: F) -> (Combination<F>, F) {
    let k = F::from_u64(3);
    match op {
        0 => (c + a, v + av),
        1 => (c - a, v - av),
        2 => (c + n, v + nv),
        3 => (c + (Coeff::NegativeOne, a), v - av),
        4 => (c + (Coeff::Full(k), n), v + k * nv),
        5 => (c.scale(k), v * k),
        6 => (c.scale(F::zero()), F::zero()),
        7 => {
            let mut c = c;
            c += a;
            (c, v + av)
        }
        8 => {
            let mut c = c;
            c += n;
            (c, v + nv)
        }
        9 => (c.clone() + c, v + v),
        10 => (c + (Coeff::Zero, a), v),
        11 => (c + Combination::from(n) + Combination::from(a).scale(k), v + nv + av * k),
        12 => (c + (Coeff::One, n), v + nv),
        _ => (c + (Coeff::Full(k), a), v + k * av),
    }
}

fn histories<F: Field>(c: &mut Ctx, name: &str, depth: u32, vals: &[(F, F)]) {
    c.case(&format!("{} combination histories", name), |c| {
        c.sample(format!("histories of length {} over 14 operations, {} value pairs, 3 kinds, in {}", depth, vals.len(), name));
        let n = 14usize.pow(depth);
        let progs: Vec<usize> = (0..n).collect();
        let rs = par(&progs.chunks(14).map(|x| x.to_vec()).collect::<Vec<_>>(), |ch| {
            for p in ch {
                for kind in 0..3u8 {
                    for start in 0..2 {
                        for (av, nv) in vals {
                            let (av, nv) = (*av, *nv);
                            // the model: plain field arithmetic
                            let what = format!("history {} start {} kind {} on {:?},{:?} in {}", p, start, kind, av, nv, name);
                            let run = |g: &mut G<F>| -> Res<(Combination<F>, F)> {
                                let a = g.num(av);
                                let n = g.anum(kind, nv);
                                g.cs.fix();
                                let mut cur = if start == 0 { (Combination::zero(), F::zero()) } else { (Combination::from(n), nv) };
                                for i in 0..depth {
                                    cur = step(p / 14usize.pow(i) % 14, cur.0, cur.1, a, av, n, nv);
                                }
                                Ok(cur)
                            };
                            let want = run(&mut G::new(false)).unwrap().1;
                            gadget::<F>(&what, Expect::Is(vec![want, want, want * want]), &|g| {
                                let (cur, _) = run(g)?;
                                let lc = cur.lc(&mut g.cs);
                                let o0 = (lc, cur.get_value());
                                let e = cur.evaluate(&mut g.cs)?;
                                let s = cur.mul(&mut g.cs, &cur)?;
                                Ok(vec![o0, g.out_num(&e), g.out_anum(&s)])
                            })?;
                        }
                    }
                }
            }
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
}

fn tiny<const P: u64>(c: &mut Ctx) {
    let name = format!("F{}", P);
    c.case(&format!("{} one operand, all values", name), |_| {
        for x in T::<P, 0>::all() {
            unary(&name, x)?;
        }
        Ok(())
    });
    c.case(&format!("{} two operands, all values", name), |_| {
        for x in T::<P, 0>::all() {
            for y in T::<P, 0>::all() {
                binary(&name, x, y)?;
            }
        }
        Ok(())
    });
}

fn real<F: RealField>(c: &mut Ctx) {
    let land: Vec<F> = landmarks::<F>().iter().map(of).collect();
    c.case(&format!("{} one operand, landmarks", F::NAME), |_| {
        let rs = par(&land, |x| unary(F::NAME, *x));
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    let step = c.tier(5, 1);
    c.case(&format!("{} square roots", F::NAME), |_| {
        let of = |x: &F| [*x, x.square(), -x.square()];
        let xs: Vec<F> = land.iter().step_by(step).flat_map(of).chain([F::zero(), F::one(), -F::one()]).collect();
        let rs = par(&xs, |x| root(*x));
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} two operands, landmarks", F::NAME), |_| {
        let few: Vec<F> = land.iter().step_by(23).copied().collect();
        let rs = par(&few, |x| {
            for y in &few {
                binary(F::NAME, *x, *y)?;
            }
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
}

/// The explorer itself against brute force: every circuit of two gates whose
/// six factor wires are identified in every way, with one linear constraint.
fn engine(c: &mut Ctx) {
    c.case("explorer against brute force over F7", |_| {
        type F = T<7, 0>;
        use halo::{ConstraintSystem, LinearCombination};
        let coefs: Vec<u64> = (0..7u64.pow(3)).collect();
        let rs = par(&coefs, |k| {
            let k = [k % 7, k / 7 % 7, k / 49];
            for pattern in 0..27u32 {
                let mut cs = Rec::<F>::new();
                let mut vars = vec![];
                for _ in 0..2 {
                    let (a, b, d) = cs.multiply(|| "", || Ok((F::zero(), F::zero(), F::zero()))).unwrap();
                    vars.extend([a, b, d]);
                }
                // tie the second gate's wires to the first gate's
                for (i, p) in [pattern % 3, pattern / 3 % 3, pattern / 9].iter().enumerate() {
                    let l = LinearCombination::from(vars[3 + i]) - vars[*p as usize];
                    cs.enforce_zero(l);
                }
                let mut l = LinearCombination::zero() + (Coeff::Full(T(k[0])), vars[0]) + (Coeff::Full(T(k[1])), vars[1]) + (Coeff::Full(T(k[2])), <Rec<F> as ConstraintSystem<F>>::ONE);
                l = l + vars[2];
                cs.enforce_zero(l);
                let outs: Vec<_> = vars.iter().map(|v| lc_var::<F>(*v)).collect();
                let mut got = std::collections::BTreeSet::new();
                cs.search(&outs, 1_000_000, 1_000_000_000, &mut |f| {
                    got.insert(f.outs.iter().map(|x| x.0).collect::<Vec<_>>());
                    true
                })?;
                let mut want = std::collections::BTreeSet::new();
                for a in 0..7 {
                    for b in 0..7 {
                        let d = a * b % 7;
                        let w = [a, b, d];
                        let p = [w[(pattern % 3) as usize], w[(pattern / 3 % 3) as usize], w[(pattern / 9) as usize]];
                        if p[0] * p[1] % 7 == p[2] && (k[0] * a + k[1] * b + k[2] + d) % 7 == 0 {
                            want.insert(vec![a, b, d, p[0], p[1], p[2]]);
                        }
                    }
                }
                if got != want {
                    eprintln!("engine error: explorer disagrees with brute force: {:?} {} {:?} {:?}", k, pattern, got, want);
                    std::process::exit(4);
                }
            }
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
}

fn main() {
    let mut c = Ctx::new("G03", "model_checking");
    c.rule("a state is a node of the search for satisfying assignments of the constraints the gadget emitted, operands fixed; every assignment found must carry the specified value");
    c.bound("every operand value over F_7 and F_13 (thorough: F_19, F_43), landmark values over Fp and Fq; every history of combination operations up to length 2 (thorough 3) over two operands");
    engine(&mut c);
    tiny::<7>(&mut c);
    tiny::<13>(&mut c);
    tiny::<19>(&mut c);
    if c.thorough {
        tiny::<43>(&mut c);
        tiny::<67>(&mut c);
    }
    real::<Fp>(&mut c);
    real::<Fq>(&mut c);
    let all: Vec<(T<7, 0>, T<7, 0>)> = T::all().flat_map(|a| T::all().map(move |b| (a, b))).collect();
    let few: Vec<(T<7, 0>, T<7, 0>)> = vec![(T(3), T(5)), (T(0), T(6)), (T(6), T(1))];
    histories(&mut c, "F7", 2, &all);
    let d = c.tier(3, 4);
    histories(&mut c, "F7 long", d, &few);
    histories(&mut c, "Fp", 2, &[(Fp::from_u64(3), -Fp::from_u64(5))]);
    histories(&mut c, "Fq", 2, &[(Fq::from_u64(3), -Fq::from_u64(5))]);
    ensure_complete(&mut c);
    c.finish()
}
