//! U02: polynomial multiplication through the parallel transforms.
use halo::{multiply_polynomials, Field, Fp, Fq};
use halo_mc::sched::explore_dev;
use halo_mc::tiny::T;
use halo_mc::*;

fn all<T>(r: Vec<Result<T, String>>) -> Result<(), String> {
    r.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
}
fn school<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    let mut r = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j] + *x * *y;
        }
    }
    r
}
fn one<F: Field>(name: &str, cpu: usize, a: &[F], b: &[F]) -> Result<(), String> {
    let got = multiply_polynomials(a.to_vec(), b.to_vec());
    states(1);
    transitions((a.len() * b.len()) as u64);
    validated(1);
    let want = school(a, b);
    ensure!(got == want, "{} with {} CPUs: {:?} times {:?} gives {:?}, expected {:?}", name, cpu, a, b, got, want);
    Ok(())
}
fn with_cpus(cpu: usize, f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    num_cpus::mc_set(cpu);
    let r = guard2(f);
    num_cpus::mc_set(0);
    r
}

/// every coefficient vector of the given lengths
fn every<const P: u64>(c: &mut Ctx, cpus: &[usize], lens: &[(usize, usize)]) {
    for &cpu in cpus {
        c.case(&format!("F{} every coefficient, {} CPUs", P, cpu), |c| {
            c.sample(format!("F{}: every pair of coefficient vectors of lengths {:?} on {} CPUs", P, lens, cpu));
            with_cpus(cpu, || {
                for &(la, lb) in lens {
                    let n = P.pow((la + lb) as u32);
                    let jobs: Vec<u64> = (0..n).step_by(256).collect();
                    all(par(&jobs, |from| {
                        for k in *from..(*from + 256).min(n) {
                            let mut v = k;
                            let mut next = || {
                                let r = T::<P, 0>(v % P);
                                v /= P;
                                r
                            };
                            let a: Vec<_> = (0..la).map(|_| next()).collect();
                            let b: Vec<_> = (0..lb).map(|_| next()).collect();
                            one(&format!("F{}", P), cpu, &a, &b)?;
                        }
                        Ok(())
                    }))?;
                }
                Ok(())
            })
        });
    }
}
/// unit vectors and dense vectors for every pair of lengths
fn lengths<F: Field>(c: &mut Ctx, name: &str, cpus: std::ops::RangeInclusive<usize>, max: usize, unit: bool) {
    for cpu in cpus {
        c.case(&format!("{} every length up to {}, {} CPUs", name, max, cpu), |_| {
            with_cpus(cpu, || {
                let jobs: Vec<(usize, usize)> = (1..=max).flat_map(|i| (1..=max).map(move |j| (i, j))).filter(|(i, j)| i + j - 1 <= max).collect();
                all(par(&jobs, |&(la, lb)| {
                    let a: Vec<F> = (0..la as u64).map(|i| F::from_u64(i * i + 3 * i + 2)).collect();
                    let b: Vec<F> = (0..lb as u64).map(|i| F::from_u64(7 * i + 1) - F::from_u64(i * i * i)).collect();
                    one(name, cpu, &a, &b)?;
                    one(name, cpu, &vec![-F::one(); la], &vec![F::one(); lb])?;
                    one(name, cpu, &vec![F::zero(); la], &b)?;
                    if unit {
                        for i in 0..la {
                            for j in 0..lb {
                                let mut x = vec![F::zero(); la];
                                let mut y = vec![F::zero(); lb];
                                x[i] = F::one();
                                y[j] = F::from_u64(2);
                                one(name, cpu, &x, &y)?;
                            }
                        }
                    }
                    Ok(())
                }))
            })
        });
    }
}
fn sizes<F: Field>(c: &mut Ctx, name: &str, sizes: &[(usize, usize)], cpus: &[usize]) {
    c.case(&format!("{} large sizes", name), |c| {
        c.sample(format!("{}: lengths {:?} on {:?} CPUs", name, sizes, cpus));
        for &cpu in cpus {
            with_cpus(cpu, || {
                all(par(sizes, |&(la, lb)| {
                    let a: Vec<F> = (0..la as u64).map(|i| F::from_u64(i * i + 3 * i + 2)).collect();
                    let b: Vec<F> = (0..lb as u64).map(|i| F::from_u64(7 * i + 1) - F::from_u64(i * i * i)).collect();
                    let got = multiply_polynomials(a.clone(), b.clone());
                    states(1);
                    transitions((la * lb) as u64);
                    validated(1);
                    ensure!(got == school(&a, &b), "{}: lengths {} and {} on {} CPUs", name, la, lb, cpu);
                    Ok(())
                }))
            })?;
        }
        Ok(())
    });
}
fn schedules<const P: u64, const V: u8>(c: &mut Ctx) {
    // (CPUs, lengths, preemptions, choices other than the first alternative)
    let x = usize::MAX;
    let cfg: &[(usize, usize, usize, usize, usize)] = &c.tier(
        vec![(2, 2, 2, 1, x), (2, 3, 3, 1, x), (3, 3, 2, 0, x), (4, 4, 5, 0, 2), (4, 4, 5, 1, 1), (8, 8, 9, 0, 1)],
        vec![(2, 2, 2, 2, x), (2, 3, 3, 1, x), (2, 5, 4, 1, x), (3, 3, 2, 1, 4), (4, 3, 3, 0, x), (4, 4, 5, 0, 4), (4, 4, 5, 2, 2), (8, 8, 9, 0, 2)],
    );
    for &(cpu, la, lb, bound, dev) in cfg {
        c.case(&format!("schedules: {}x{} on {} CPUs, {} preemptions{}", la, lb, cpu, bound, if dev == x { String::new() } else { format!(", {} deviations", dev) }), |c| {
            let a: Vec<T<P, V>> = (0..la as u64).map(|i| T((i * i + 3) % P)).collect();
            let b: Vec<T<P, V>> = (0..lb as u64).map(|i| T((5 * i + 2) % P)).collect();
            let want: Vec<u64> = {
                let x: Vec<T<P, 0>> = a.iter().map(|v| T(v.0)).collect();
                let y: Vec<T<P, 0>> = b.iter().map(|v| T(v.0)).collect();
                school(&x, &y).iter().map(|v| v.0).collect()
            };
            num_cpus::mc_set(cpu);
            let r = explore_dev("multiply_polynomials", bound, dev, || {
                let got = multiply_polynomials(a.clone(), b.clone());
                ensure!(got.iter().map(|v| v.0).collect::<Vec<_>>() == want, "{:?} times {:?}: got {:?}", a, b, got);
                Ok(())
            });
            num_cpus::mc_set(0);
            let e = r?;
            c.sample(format!("{}x{} on {} CPUs: {} schedules with up to {} preemptions, {} threads, {} uncontrolled", la, lb, cpu, e.executions, bound, e.threads, e.uncontrolled));
            Ok(())
        });
    }
}

fn main() {
    let mut c = Ctx::new("U02", "model_checking");
    c.rule("a state is a (coefficients, CPU count[, schedule]) tuple; the product must be coefficient for coefficient the schoolbook product");
    c.bound("F17: every coefficient vector of lengths up to 2x2 and 1x3 on 4 CPUs, 1x2 (2x2 thorough) on 1 and 2; F97: every pair of unit vectors of product length up to 7 (16) on 1..=9 CPUs; F257: every pair of lengths up to 33 (96); real fields: up to 12 (48), selected lengths up to 2049");
    c.bound("schedules: every completion order of every parallel section on 2 and 3 CPUs, up to two deviations from spawn order on 4 CPUs (one on 8), every single preemption at additions with 2 CPUs");
    c.assume("threads are created through crossbeam_utils; both factors are non-empty and the product fits the field's two-adicity");
    let l: &[(usize, usize)] = c.tier(&[(1, 1), (1, 2), (2, 1)], &[(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)]);
    every::<17>(&mut c, &[1, 2], l);
    every::<17>(&mut c, &[4], &[(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)]);
    let n = c.tier(7, 16);
    lengths::<T<97, 0>>(&mut c, "F97", 1..=9, n, true);
    lengths::<T<97, 0>>(&mut c, "F97", 16..=16, 16, true);
    let n = c.tier(33, 96);
    lengths::<T<257, 0>>(&mut c, "F257", 1..=9, n, false);
    schedules::<97, 2>(&mut c);
    let n = c.tier(12, 48);
    lengths::<Fp>(&mut c, "Fp", 1..=9, n, false);
    lengths::<Fq>(&mut c, "Fq", 1..=9, n, false);
    sizes::<T<12289, 0>>(&mut c, "F12289", &[(512, 513), (513, 513), (1000, 1), (1, 1024), (700, 900), (1024, 1024), (1024, 1025)], &[1, 3, 4, 8, 16]);
    sizes::<Fp>(&mut c, "Fp", &[(64, 65), (65, 65), (129, 64), (300, 300), (1000, 1000), (1024, 1025), (1025, 1025)], &[1, 2, 5, 8, 16, 32]);
    sizes::<Fq>(&mut c, "Fq", &[(64, 65), (65, 65), (129, 64), (300, 300), (1000, 1000), (1024, 1025), (1025, 1025)], &[1, 2, 5, 8, 16, 32]);
    c.finish()
}
