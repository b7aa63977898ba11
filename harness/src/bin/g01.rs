//! G01: boolean gadgets compute their truth table and nothing else.
use halo::{AllocatedBit, Boolean, ConstraintSystem, Field, Fp, Fq};
use halo_mc::gad::*;
use halo_mc::r1cs::*;
use halo_mc::tiny::T;
use halo_mc::*;

fn b<F: Field>(x: bool) -> F {
    F::from(x)
}

fn all<F: Field>(c: &mut Ctx, name: &str) {
    c.case(&format!("{} allocation", name), |_| {
        for v in [false, true] {
            gadget::<F>("allocated bit", Expect::Where(&|o| o[0] == F::zero() || o[0] == F::one()), &|g| {
                g.cs.fix();
                let x = g.bit(v);
                Ok(vec![g.out_bit(&x)])
            })?;
            // the honest value itself
            let mut g = G::<F>::new(false);
            let x = g.bit(v);
            ensure!(x.get_value() == Some(v) && g.cs.eval(&lc_var(x.get_variable())) == Some(F::from(v)), "allocated bit does not carry its value");
            // unchecked input bit, then check
            let mut g = G::<F>::new(false);
            let x = AllocatedBit::alloc_input_unchecked(&mut g.cs, || Ok(v)).unwrap();
            x.check(&mut g.cs).map_err(|e| format!("check: {:?}", e))?;
            g.cs.honest()?;
            ensure!(g.cs.inputs.len() == 1, "an input bit is not an input");
            g.cs.sound(&[lc_var(x.get_variable())], "checked input bit", &|o| o[0] == F::zero() || o[0] == F::one())?;
        }
        let one = AllocatedBit::one::<F, _>(Rec::<F>::new());
        ensure!(one.get_value() == Some(true) && wire(one.get_variable()) == 0, "AllocatedBit::one");
        // none of the values other than 0 and 1 satisfy a checked bit
        Ok(())
    });
    c.case(&format!("{} binary gates", name), |c| {
        // op, operand kinds (const / is / not), values, and the same operand twice
        for op in 0..8 {
            for ka in 0..3u8 {
                for kb in 0..4u8 {
                    for v in 0..4u8 {
                        let (va, vb) = (v & 1 == 1, if kb == 3 { v & 1 == 1 } else { v & 2 == 2 });
                        if op >= 4 && (ka != 1 || (kb != 1 && kb != 3)) {
                            continue; // AllocatedBit operations
                        }
                        let nm = ["xor", "and", "enforce_equal", "not", "bit xor", "bit and", "bit and_not", "bit nor"][op];
                        let what = format!("{} over {}: kinds {} {} values {} {}", nm, name, ka, kb, va, vb);
                        let want = match op {
                            0 | 4 => Expect::Is(vec![b(va ^ vb)]),
                            1 | 5 => Expect::Is(vec![b(va & vb)]),
                            2 if va == vb => Expect::Is(vec![b(va)]),
                            2 => Expect::Unsat,
                            3 => Expect::Is(vec![b(!va)]),
                            6 => Expect::Is(vec![b(va & !vb)]),
                            _ => Expect::Is(vec![b(!va & !vb)]),
                        };
                        if op == 2 && va != vb && ka == 0 && kb == 0 {
                            // two different constants: refused outright
                            let r = Boolean::enforce_equal(Rec::<F>::new(), &Boolean::constant(va), &Boolean::constant(vb));
                            ensure!(r.is_err(), "{}: accepted", what);
                            continue;
                        }
                        c.sample(what.clone());
                        gadget::<F>(&what, want, &|g| {
                            if op >= 4 {
                                let x = g.bit(va);
                                let y = if kb == 3 { x.clone() } else { g.bit(vb) };
                                g.cs.fix();
                                let r = match op {
                                    4 => AllocatedBit::xor(&mut g.cs, &x, &y)?,
                                    5 => AllocatedBit::and(&mut g.cs, &x, &y)?,
                                    6 => AllocatedBit::and_not(&mut g.cs, &x, &y)?,
                                    _ => AllocatedBit::nor(&mut g.cs, &x, &y)?,
                                };
                                return Ok(vec![g.out_bit(&r)]);
                            }
                            let x = g.boolean(ka, va);
                            let y = if kb == 3 { x.clone() } else { g.boolean(kb, vb) };
                            g.cs.fix();
                            let r = match op {
                                0 => Boolean::xor(&mut g.cs, &x, &y)?,
                                1 => Boolean::and(&mut g.cs, &x, &y)?,
                                2 => {
                                    Boolean::enforce_equal(&mut g.cs, &x, &y)?;
                                    x.clone()
                                }
                                _ => x.not(),
                            };
                            Ok(vec![g.out_bool(&r)])
                        })?;
                    }
                }
            }
        }
        Ok(())
    });
    c.case(&format!("{} choose and majority", name), |_| {
        for op in 0..2 {
            for kinds in 0..27u32 {
                let k = [(kinds % 3) as u8, (kinds / 3 % 3) as u8, (kinds / 9) as u8];
                for v in 0..8u8 {
                    let x = [v & 1 == 1, v & 2 == 2, v & 4 == 4];
                    for alias in 0..4 {
                        // alias: none, b=a, c=a, c=b
                        let mut x = x;
                        match alias {
                            1 => x[1] = x[0],
                            2 => x[2] = x[0],
                            3 => x[2] = x[1],
                            _ => {}
                        }
                        let r = if op == 0 { (x[0] & x[1]) ^ (!x[0] & x[2]) } else { (x[0] & x[1]) ^ (x[0] & x[2]) ^ (x[1] & x[2]) };
                        let what = format!("{} over {}: kinds {:?} values {:?} alias {}", ["ch", "maj"][op], name, k, x, alias);
                        gadget::<F>(&what, Expect::Is(vec![b(r)]), &|g| {
                            let a = g.boolean(k[0], x[0]);
                            let bb = if alias == 1 { a.clone() } else { g.boolean(k[1], x[1]) };
                            let cc = match alias {
                                2 => a.clone(),
                                3 => bb.clone(),
                                _ => g.boolean(k[2], x[2]),
                            };
                            g.cs.fix();
                            let r = if op == 0 { Boolean::sha256_ch(&mut g.cs, &a, &bb, &cc)? } else { Boolean::sha256_maj(&mut g.cs, &a, &bb, &cc)? };
                            Ok(vec![g.out_bool(&r)])
                        })?;
                    }
                }
            }
        }
        Ok(())
    });
    // every expression of two nested gates over three bits, with negations
    c.case(&format!("{} nested gates", name), |c| {
        let depth = c.tier(2, 3);
        fn grow<F: Field>(g: &mut G<F>, pool: &mut Vec<(Boolean, bool)>, prog: &[usize]) -> Res<()> {
            for p in prog {
                let n = pool.len();
                let (op, i, j) = (p % 4, (p / 4) % 4, (p / 16) % 4);
                let (x, vx) = pool[n - 1 - (i % n)].clone();
                let (y, vy) = pool[n - 1 - (j % n)].clone();
                let z = match op {
                    0 => (Boolean::xor(&mut g.cs, &x, &y)?, vx ^ vy),
                    1 => (Boolean::and(&mut g.cs, &x, &y)?, vx & vy),
                    2 => (Boolean::and(&mut g.cs, &x.not(), &y)?, !vx & vy),
                    _ => (Boolean::and(&mut g.cs, &x.not(), &y.not())?.not(), vx | vy),
                };
                pool.push(z);
            }
            Ok(())
        }
        let total = 64usize.pow(depth);
        let progs: Vec<usize> = (0..total).collect();
        let rs = par(&progs.chunks(64).map(|x| x.to_vec()).collect::<Vec<_>>(), |ch| {
            for p in ch {
                let prog: Vec<usize> = (0..depth).map(|i| p / 64usize.pow(i) % 64).collect();
                for v in 0..8u8 {
                    let x = [v & 1 == 1, v & 2 == 2, v & 4 == 4];
                    let mut want = vec![];
                    {
                        let mut g = G::<F>::new(false);
                        let mut pool = vec![(Boolean::constant(x[2]), x[2]), (g.boolean(2, x[1]), x[1]), (g.boolean(1, x[0]), x[0])];
                        let _ = grow(&mut g, &mut pool, &prog);
                        want.extend(pool.iter().skip(3).map(|p| b::<F>(p.1)));
                    }
                    gadget::<F>(&format!("gates {:?} on {:?} over {}", prog, x, name), Expect::Is(want), &|g| {
                        let mut pool = vec![(Boolean::constant(x[2]), x[2]), (g.boolean(2, x[1]), x[1]), (g.boolean(1, x[0]), x[0])];
                        g.cs.fix();
                        grow(g, &mut pool, &prog)?;
                        Ok(pool.iter().skip(3).map(|p| g.out_bool(&p.0)).collect())
                    })?;
                }
            }
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
}

fn main() {
    let mut c = Ctx::new("G01", "model_checking");
    c.rule("a state is a node of the search for satisfying assignments of the constraints the gadget emitted, with the operands fixed; every assignment found must carry the truth-table value");
    c.bound("all gates, all operand kinds (constant, bit, negated bit), all operand values, aliased operands, all compositions up to the depth of the tier; fields F_7, F_13, Fp, Fq");
    all::<T<7, 0>>(&mut c, "F7");
    all::<T<13, 0>>(&mut c, "F13");
    all::<Fp>(&mut c, "Fp");
    all::<Fq>(&mut c, "Fq");
    let _ = <Rec<Fp> as ConstraintSystem<Fp>>::ONE;
    ensure_complete(&mut c);
    c.finish()
}
