//! U03: the folding helpers of the inner product argument.
use halo::{
    compute_b, compute_g_coeffs_for_inner_product, compute_g_for_inner_product, compute_inner_product, parallel_generator_collapse, Curve, Ec0, Ec1,
    Field, Fp, Fq,
};
use halo_mc::sched::explore;
use halo_mc::tiny::{E, T};
use halo_mc::*;

fn all<T>(r: Vec<Result<T, String>>) -> Result<(), String> {
    r.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
}
fn inv<F: Field>(x: F) -> F {
    x.invert().unwrap()
}
/// Folds a vector round by round: first challenge first, low half weighted by
/// the inverse, high half by the challenge.
fn fold<F: Field>(v: &[F], ch: &[F]) -> F {
    let mut v = v.to_vec();
    for c in ch {
        let l = v.len() / 2;
        v = (0..l).map(|i| v[i] * inv(*c) + v[i + l] * *c).collect();
    }
    assert_eq!(v.len(), 1);
    v[0]
}
/// For one challenge vector: coefficients, evaluation and folding agree.
fn coherent<F: Field>(name: &str, ch: &[F], xs: &[F]) -> Result<(), String> {
    let k = ch.len();
    let n = 1usize << k;
    let invs: Vec<F> = ch.iter().map(|c| inv(*c)).collect();
    let sq: Vec<F> = ch.iter().map(|c| *c * *c).collect();
    let allinv = invs.iter().fold(F::one(), |a, b| a * *b);
    // weight of every position when folding
    let weights: Vec<F> = (0..n)
        .map(|i| {
            let mut e = vec![F::zero(); n];
            e[i] = F::one();
            fold(&e, ch)
        })
        .collect();
    let got = compute_g_coeffs_for_inner_product(&sq, allinv);
    ensure!(got == weights, "{}: coefficients for challenges {:?}: {:?}, folding gives {:?}", name, ch, got, weights);
    transitions(n as u64);
    for x in xs {
        let mut pows = vec![F::one()];
        for i in 1..n {
            pows.push(pows[i - 1] * *x);
        }
        let want = pows.iter().zip(&weights).fold(F::zero(), |a, (p, w)| a + *p * *w);
        let got = compute_b(*x, ch, &invs);
        ensure!(got == want, "{}: compute_b at {:?} for challenges {:?}: {:?}, folding the powers gives {:?}", name, x, ch, got, want);
        let ip = compute_inner_product(&pows, &weights);
        ensure!(ip == want, "{}: inner product {:?} expected {:?}", name, ip, want);
        states(1);
        transitions(n as u64);
        validated(1);
    }
    Ok(())
}
fn tiny<const P: u64>(c: &mut Ctx, maxk: usize) {
    c.case(&format!("F{} every challenge vector up to {} rounds", P, maxk), |c| {
        c.sample(format!("F{}: all {}^k challenge vectors, k up to {}, and every evaluation point", P, P - 1, maxk));
        let xs: Vec<T<P, 0>> = T::<P, 0>::all().collect();
        for k in 1..=maxk {
            let n = (P - 1).pow(k as u32);
            let jobs: Vec<u64> = (0..n).collect();
            all(par(&jobs, |j| {
                let mut v = *j;
                let ch: Vec<T<P, 0>> = (0..k)
                    .map(|_| {
                        let r = T(v % (P - 1) + 1);
                        v /= P - 1;
                        r
                    })
                    .collect();
                coherent(&format!("F{}", P), &ch, &xs)
            }))?;
        }
        Ok(())
    });
    c.case(&format!("F{} inner product", P), |_| {
        for len in 0..=2usize {
            for j in 0..P.pow(2 * len as u32) {
                let mut v = j;
                let mut nx = || {
                    let r = v % P;
                    v /= P;
                    r
                };
                let a: Vec<u64> = (0..len).map(|_| nx()).collect();
                let b: Vec<u64> = (0..len).map(|_| nx()).collect();
                let want = a.iter().zip(&b).map(|(x, y)| x * y).sum::<u64>() % P;
                let f = |v: &[u64]| v.iter().map(|x| T::<P, 0>(*x)).collect::<Vec<_>>();
                ensure!(compute_inner_product(&f(&a), &f(&b)).0 == want, "F{}: {:?} . {:?}", P, a, b);
                states(1);
                transitions(len as u64 + 1);
                validated(1);
            }
        }
        Ok(())
    });
}
fn real<F: Field>(c: &mut Ctx, name: &str) {
    c.case(&format!("{} challenges", name), |_| {
        let pool: Vec<F> = vec![
            F::one(),
            -F::one(),
            F::from_u64(2),
            F::BETA,
            F::ALPHA,
            inv(F::from_u64(7)),
            F::from_u128(1 << 127 | 12345),
            F::from_u64(2).square().square() - F::from_u64(99),
        ];
        let xs = [F::zero(), F::one(), -F::one(), F::from_u64(5), inv(F::from_u64(3)), F::ALPHA];
        let mut jobs = vec![];
        for k in 1..=4usize {
            for j in 0..8usize.pow(k.min(3) as u32) {
                let mut v = j;
                jobs.push(
                    (0..k)
                        .map(|i| {
                            let r = pool[(v + i * (k > 3) as usize) % 8];
                            v /= 8;
                            r
                        })
                        .collect::<Vec<F>>(),
                );
            }
        }
        for k in 5..=8usize {
            jobs.push((0..k).map(|i| pool[i % 8] + F::from_u64(11 * i as u64)).collect());
        }
        let f = |v: Vec<F>| v;
        all(par(&jobs, |ch| coherent(name, &f(ch.clone()), &xs)))
    });
}

/// Generators folded round by round equal the weighted sum; every size and CPU count.
fn collapse<C: Curve>(c: &mut Ctx, name: &str, pts: &[C], ch: &[C::Scalar], cpus: &[usize], maxhalf: usize, maxk: usize) {
    for &cpu in cpus {
        c.case(&format!("{} folding points, {} CPUs", name, cpu), |c| {
            num_cpus::mc_set(cpu);
            c.sample(format!("{}: vectors of 2..={} points folded on {} CPUs", name, 2 * maxhalf, cpu));
            let jobs: Vec<(usize, usize)> = (1..=maxhalf).flat_map(|l| (0..ch.len()).map(move |i| (l, i))).collect();
            let r = all(par(&jobs, |&(l, i)| {
                let x = ch[i];
                let g: Vec<C> = (0..2 * l).map(|j| pts[(j * 3 + i) % pts.len()]).collect();
                let mut h = g.clone();
                parallel_generator_collapse(&mut h, x, inv(x));
                for j in 0..l {
                    ensure!(h[j] == g[j] * inv(x) + g[j + l] * x, "{}: entry {} of {} folded with {:?} on {} CPUs", name, j, 2 * l, x, cpu);
                }
                states(1);
                transitions(l as u64);
                validated(1);
                // the two factors are independent arguments
                let mut h = g.clone();
                parallel_generator_collapse(&mut h, x, x);
                for j in 0..l {
                    ensure!(h[j] == (g[j] + g[j + l]) * x, "{}: entry {} of {} folded with {:?}, {:?}", name, j, 2 * l, x, x);
                }
                Ok(())
            }));
            let r = r.and_then(|_| {
                for k in 1..=maxk {
                    let n = 1usize << k;
                    let g: Vec<C> = (0..n).map(|j| pts[(j * 5 + 1) % pts.len()]).collect();
                    let cs: Vec<C::Scalar> = (0..k).map(|i| ch[(i * 2 + k) % ch.len()]).collect();
                    let mut h = g.clone();
                    for x in &cs {
                        parallel_generator_collapse(&mut h, *x, inv(*x));
                        let l = h.len() / 2;
                        h.truncate(l);
                    }
                    let sq: Vec<C::Scalar> = cs.iter().map(|x| *x * *x).collect();
                    let allinv = cs.iter().fold(C::Scalar::one(), |a, b| a * inv(*b));
                    let got = compute_g_for_inner_product(&g, &sq, allinv);
                    ensure!(got == h[0], "{}: {} generators folded with {:?} on {} CPUs differ from the verifier's sum", name, n, cs, cpu);
                    states(1);
                    transitions(n as u64);
                    validated(1);
                }
                Ok(())
            });
            num_cpus::mc_set(0);
            r
        });
    }
}
fn schedules(c: &mut Ctx) {
    type C = E<7, 13, 3, 2, 2>;
    let pts = C::all();
    let cfg: &[(usize, usize, usize)] = c.tier(&[(2, 4, 2), (2, 5, 2), (3, 9, 1), (1, 2, 2)], &[(2, 4, 4), (2, 5, 3), (3, 9, 2), (4, 16, 1), (1, 2, 2)]);
    for &(cpu, half, bound) in cfg {
        c.case(&format!("schedules: {} points on {} CPUs, {} preemptions", 2 * half, cpu, bound), |c| {
            num_cpus::mc_set(cpu);
            let g: Vec<C> = (0..2 * half).map(|i| pts[(i * 5 + 1) % 13]).collect();
            let want: Vec<C> = (0..half).map(|i| g[i].times(8).plus(&g[i + half].times(5))).collect();
            let r = explore("parallel_generator_collapse", bound, || {
                let mut h = g.clone();
                parallel_generator_collapse(&mut h, T(5), T(8));
                ensure!(h[..half] == want[..], "{:?}: got {:?}", g, h);
                Ok(())
            });
            num_cpus::mc_set(0);
            let e = r?;
            c.sample(format!("folding {} points on {} CPUs: {} schedules, {} threads", 2 * half, cpu, e.executions, e.threads));
            Ok(())
        });
    }
}

fn main() {
    let mut c = Ctx::new("U03", "model_checking");
    c.rule("a state is a (challenge vector, evaluation point) or (generators, challenge, CPU count[, schedule]) tuple; helpers must agree with round-by-round folding");
    c.bound("F7, F13: every challenge vector up to 4/3 rounds and every point; real fields: challenge vectors over 8 landmark values up to 8 rounds; folding: every even size up to 80 on 1..=9 CPUs");
    tiny::<7>(&mut c, 4);
    let k = c.tier(3, 4);
    tiny::<13>(&mut c, k);
    real::<Fp>(&mut c, "Fp");
    real::<Fq>(&mut c, "Fq");
    let ts: Vec<T<13, 0>> = (1..13).map(T).collect();
    let cpus: Vec<usize> = (1..=9).collect();
    collapse::<E<7, 13, 3, 0, 0>>(&mut c, "E7", &E::all(), &ts, &cpus, 40, 6);
    fn pts<C: Curve>() -> Vec<C> {
        let g = C::one();
        let mut v = vec![g, -g, C::zero()];
        for i in 0..20 {
            let l: C = v[i] + g.double();
            v.push(l);
        }
        v
    }
    fn chs<F: Field>() -> Vec<F> {
        vec![F::from_u128(1 << 127 | 77), -F::one()]
    }
    let h = c.tier(20, 40);
    collapse::<Ec0>(&mut c, "Ec0", &pts(), &chs(), &[1, 2, 3, 5, 8], h, 6);
    collapse::<Ec1>(&mut c, "Ec1", &pts(), &chs(), &[1, 2, 3, 5, 8], h, 6);
    schedules(&mut c);
    c.finish()
}
