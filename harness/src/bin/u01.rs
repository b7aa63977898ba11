//! U01: multi-scalar multiplication for every size, worker count and schedule.
use halo::{multiexp, Curve, Ec0, Ec1};
use halo_mc::big::*;
use halo_mc::ecref::*;
use halo_mc::realf::{digits, landmarks, RealField};
use halo_mc::sched::explore;
use halo_mc::tiny::{E, T};
use halo_mc::*;

fn all<T>(r: Vec<Result<T, String>>) -> Result<(), String> {
    r.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
}

fn tiny<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8>(c: &mut Ctx, cpus: &[usize], maxlen: usize) {
    type Cv<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8> = E<P, N, B, VB, VS>;
    let pts = Cv::<P, N, B, VB, VS>::all();
    let one = |cpu: usize, s: &[u64], b: &[usize]| -> Result<(), String> {
        let sc: Vec<T<N, VS>> = s.iter().map(|x| T(*x)).collect();
        let bs: Vec<Cv<P, N, B, VB, VS>> = b.iter().map(|i| pts[*i]).collect();
        let want = pts[(s.iter().zip(b).map(|(x, y)| x * *y as u64).sum::<u64>() % N) as usize];
        let got = multiexp(&sc, &bs);
        states(1);
        transitions(s.len() as u64 + 1);
        validated(1);
        ensure!(got == want, "E{} with {} CPUs: scalars {:?}, points {:?} (multiples of the generator): got {:?} expected {:?}", P, cpu, s, b, got, want);
        Ok(())
    };
    for &cpu in cpus {
        c.case(&format!("E{}/{} every input, {} CPUs", P, N, cpu), |c| {
            num_cpus::mc_set(cpu);
            c.sample(format!("E{}: every scalar and point vector of length 0..={} on {} CPUs", P, maxlen, cpu));
            let r = guard2(|| {
                one(cpu, &[], &[])?;
                for len in 1..=maxlen {
                    let n = N.pow(2 * len as u32);
                    let jobs: Vec<u64> = (0..N * N).collect();
                    all(par(&jobs, |hi| {
                        for lo in 0..n / (N * N) {
                            let mut v = hi * (n / (N * N)) + lo;
                            let (mut s, mut b) = (vec![], vec![]);
                            for _ in 0..len {
                                s.push(v % N);
                                v /= N;
                                b.push((v % N) as usize);
                                v /= N;
                            }
                            one(cpu, &s, &b)?;
                        }
                        Ok(())
                    }))?;
                }
                Ok(())
            });
            num_cpus::mc_set(0);
            r
        });
    }
}

/// Three-valued alphabets, longer vectors.
fn tiny_long<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8>(c: &mut Ctx, maxlen: usize) {
    let pts = E::<P, N, B, VB, VS>::all();
    for cpu in 1..=5usize {
        c.case(&format!("E{}/{} longer vectors, {} CPUs", P, N, cpu), |_| {
            num_cpus::mc_set(cpu);
            let kinds: Vec<(u64, usize)> = vec![(0, 1), (1, 0), (1, 1), (N - 1, 1), (N / 2, N as usize - 1)];
            let r = guard2(|| {
                for len in 2..=maxlen {
                    let n = (kinds.len() as u64).pow(len as u32);
                    let jobs: Vec<u64> = (0..n).step_by(64).collect();
                    all(par(&jobs, |from| {
                        for k in *from..(*from + 64).min(n) {
                            let mut v = k;
                            let (mut s, mut b, mut want) = (vec![], vec![], 0);
                            for _ in 0..len {
                                let (x, y) = kinds[(v % kinds.len() as u64) as usize];
                                v /= kinds.len() as u64;
                                want += x * y as u64;
                                s.push(T::<N, VS>(x));
                                b.push(pts[y]);
                            }
                            states(1);
                            transitions(len as u64);
                            validated(1);
                            ensure!(multiexp(&s, &b) == pts[(want % N) as usize], "E{} with {} CPUs: {:?} times {:?}", P, cpu, s, b);
                        }
                        Ok(())
                    }))?;
                }
                Ok(())
            });
            num_cpus::mc_set(0);
            r
        });
    }
}

fn schedules<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8>(c: &mut Ctx) {
    let pts = E::<P, N, B, VB, VS>::all();
    let cfg: &[(usize, usize, usize)] = c.tier(&[(2, 3, 1), (3, 4, 0), (4, 7, 0), (5, 6, 0)], &[(2, 3, 1), (2, 4, 1), (3, 4, 1), (4, 7, 0), (5, 6, 0), (6, 7, 0)]);
    for &(cpu, len, bound) in cfg {
        c.case(&format!("schedules: {} points on {} CPUs, {} preemptions", len, cpu, bound), |c| {
            num_cpus::mc_set(cpu);
            let s: Vec<T<N, VS>> = (0..len).map(|i| T((i as u64 * 5 + 2) % N)).collect();
            let b: Vec<_> = (0..len).map(|i| pts[(i * 3 + 1) % N as usize]).collect();
            let want = s.iter().zip(&b).fold(E::INF, |a, (s, b)| E::plus(&a, &b.times(s.0)));
            let r = explore("multiexp", bound, || {
                let got = multiexp(&s, &b);
                ensure!(got == want, "{:?} times {:?}: {:?} expected {:?}", s, b, got, want);
                Ok(())
            });
            num_cpus::mc_set(0);
            let e = r?;
            c.sample(format!("multiexp of {} points on {} CPUs: {} schedules, {} threads, {} uncontrolled", len, cpu, e.executions, e.threads, e.uncontrolled));
            Ok(())
        });
    }
}

/// Real curves: bases with known multiples of the generator.
fn real<C: RealCurve>(c: &mut Ctx)
where
    C::Scalar: RealField,
{
    let th = c.thorough;
    let g = C::one();
    // [i] G, through the reference for the first ones
    let nb = if th { 165000 } else { 23000 };
    let mut bases: Vec<C> = vec![C::zero()];
    let mut a = O;
    let rg = gen::<C>();
    for _ in 0..40 {
        a = add::<C>(&a, &rg);
        bases.push(point::<C>(&a));
    }
    while bases.len() < nb {
        let l = *bases.last().unwrap();
        bases.push(l + g);
    }
    let base = |m: i64| -> C {
        let p = bases[m.unsigned_abs() as usize];
        if m < 0 {
            -p
        } else {
            p
        }
    };
    let run = |cpu: usize, v: &[(U256, i64)]| -> Result<(), String> {
        let s: Vec<C::Scalar> = v.iter().map(|x| fe(&x.0)).collect();
        let b: Vec<C> = v.iter().map(|x| base(x.1)).collect();
        let mut k = [0; 4];
        for (x, m) in v {
            let t = mulmod(x, &[m.unsigned_abs(), 0, 0, 0], &C::N);
            k = if *m < 0 { submod(&k, &t, &C::N) } else { addmod(&k, &t, &C::N) };
        }
        let got = multiexp(&s, &b);
        states(1);
        transitions(v.len() as u64 + 1);
        validated(1);
        ensure!(
            got == g * fe::<C::Scalar>(&k),
            "{} with {} CPUs, {} terms starting {:?}: wrong sum",
            C::NAME,
            cpu,
            v.len(),
            v.iter().take(5).map(|(x, m)| format!("{}*[{}]G", hex(x), m)).collect::<Vec<_>>()
        );
        Ok(())
    };
    let marks = {
        let mut m = landmarks::<C::Scalar>();
        m.extend(digits::<C::Scalar>(&[0, 1, !0, 1 << 63], false));
        m
    };
    let mark = |i: usize| marks[(i * 7919) % marks.len()];
    let mults: [i64; 9] = [1, 2, 0, 3, -1, 1, 7, -7, 5];
    for cpu in 1..=9usize {
        c.case(&format!("{} every length, {} CPUs", C::NAME, cpu), |c| {
            num_cpus::mc_set(cpu);
            c.sample(format!("{}: every length 0..=80 on {} CPUs over {} landmark scalars", C::NAME, cpu, marks.len()));
            let lens: Vec<usize> = (0..=if th { 200 } else { 80 }).collect();
            let r = all(par(&lens, |len| {
                for off in 0..if th { 8 } else { 2 } {
                    let v: Vec<(U256, i64)> = (0..*len).map(|i| (mark(i + off * 131 + len), mults[(i + off) % 9])).collect();
                    run(cpu, &v)?;
                }
                Ok(())
            }));
            num_cpus::mc_set(0);
            r
        });
    }
    // every window width the library picks: single bits in every position
    let widths: &[usize] = if th { &[4, 31, 32, 54, 55, 148, 149, 403, 404, 1096, 1097, 2980, 2981, 8103, 8104, 22026, 22027, 59875, 162755] } else { &[4, 31, 32, 54, 55, 148, 149, 403, 404, 1096, 1097, 2980, 2981, 8104, 22027] };
    c.case(&format!("{} every bit in every window width", C::NAME), |c| {
        num_cpus::mc_set(1);
        c.sample(format!("{}: chunk sizes {:?} with single-bit, all-ones and negated scalars", C::NAME, widths));
        let mut jobs = vec![];
        for &len in widths {
            for kind in 0..4usize {
                for off in (0..255).step_by(if len >= 255 { 255 } else { len.max(16) }) {
                    jobs.push((len, kind, off));
                }
            }
        }
        let r = all(par(&jobs, |&(len, kind, off)| {
            let v: Vec<(U256, i64)> = (0..len)
                .map(|j| {
                    let i = (off + j) % 254;
                    let mut x = [0u64; 4];
                    x[i / 64] = 1 << (i % 64);
                    let s = match kind {
                        0 => x,
                        1 => negmod(&x, &C::N),
                        2 => sub256(&x, &[1, 0, 0, 0]).0,
                        _ => [j as u64, 0, 0, i as u64],
                    };
                    (s, if kind == 3 { -(j as i64 % 100) } else { j as i64 % 1000 * 23 + 1 })
                })
                .collect();
            run(1, &v)
        }));
        num_cpus::mc_set(0);
        r
    });
    c.case(&format!("{} single terms", C::NAME), |_| {
        // a window-width-3 chunk holding one non-zero scalar in each position
        let r = guard2(|| {
            for cpu in [1usize, 2, 3] {
                num_cpus::mc_set(cpu);
                let jobs: Vec<usize> = (0..254).step_by(if th { 1 } else { 5 }).collect();
                all(par(&jobs, |i| {
                    for pos in 0..4 {
                        let mut x = [0u64; 4];
                        x[i / 64] = 1 << (i % 64);
                        let mut v = vec![([0u64; 4], 1i64); 4];
                        v[pos] = (x, 3);
                        run(cpu, &v)?;
                    }
                    Ok(())
                }))?;
            }
            Ok(())
        });
        num_cpus::mc_set(0);
        r
    });
}

fn main() {
    let mut c = Ctx::new("U01", "model_checking");
    c.rule("a state is a (scalars, points, CPU count[, schedule]) tuple; the result must be the point whose multiple of the generator is the integer sum of products");
    c.bound("toy curves: every vector up to length 2 (3 thorough) and 5-valued vectors up to length 6; real curves: every length up to 80 (200) on 1..=9 CPUs, chunk sizes (hence window widths) up to 22027 (162755) with every bit position");
    c.bound("schedules: every order of thread completion up to 5 CPUs, and every single preemption at point operations with 2 CPUs");
    c.assume("threads are created through crossbeam_utils; preemptions are explored at curve operations");
    tiny::<7, 13, 3, 0, 0>(&mut c, &[1, 2, 3], 2);
    let n = c.tier(5, 7);
    tiny_long::<7, 13, 3, 0, 0>(&mut c, n);
    schedules::<7, 13, 3, 2, 2>(&mut c);
    real::<Ec0>(&mut c);
    real::<Ec1>(&mut c);
    c.finish()
}
