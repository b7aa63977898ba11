//! R01: the native sponge against a history automaton.
use halo::rescue::Rescue;
use halo::{Field, Fp, Fq};
use halo_mc::big::*;
use halo_mc::realf::{digits, landmarks, of, RealField};
use halo_mc::spongeref::*;
use halo_mc::tiny::T;
use halo_mc::*;

fn all<T>(r: Vec<Result<T, String>>) -> Result<(), String> {
    r.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
}
/// the exponent of the fifth root, from the modulus alone
fn root_exp(m: &U256) -> U256 {
    // smallest k with (k*(m-1)+1) % 5 == 0
    let (n, _) = sub256(m, &[1, 0, 0, 0]);
    for k in 1u64..5 {
        // (k*n + 1) / 5, n < 2^255 so k*n fits 5 words
        let mut w = [0u64; 5];
        let mut carry: u128 = 1;
        for i in 0..4 {
            let t = n[i] as u128 * k as u128 + carry;
            w[i] = t as u64;
            carry = t >> 64;
        }
        w[4] = carry as u64;
        let mut rem: u128 = 0;
        let mut q = [0u64; 5];
        for i in (0..5).rev() {
            let cur = (rem << 64) | w[i] as u128;
            q[i] = (cur / 5) as u64;
            rem = cur % 5;
        }
        if rem == 0 {
            return [q[0], q[1], q[2], q[3]];
        }
    }
    unreachable!()
}
fn perm<F: RealField>() -> Perm<F> {
    Perm::new(&root_exp(&F::M))
}
fn tperm<const P: u64>() -> Perm<T<P, 0>> {
    Perm::new(&[T::<P, 0>::RESCUE_INVALPHA[0]])
}

#[derive(Clone)]
struct Pair<F: Field> {
    lib: Rescue<F>,
    refr: Sponge<F>,
    hist: String,
}
impl<F: Field> Pair<F> {
    fn new() -> Self {
        Pair { lib: Rescue::new(), refr: Sponge::new(), hist: String::new() }
    }
    fn absorb(&mut self, p: &Perm<F>, v: F) {
        self.lib.absorb(v);
        self.refr.absorb(p, v);
        self.hist.push('a');
        transitions(1);
    }
    fn squeeze(&mut self, p: &Perm<F>) -> Result<F, String> {
        let (x, y) = (self.lib.squeeze(), self.refr.squeeze(p));
        self.hist.push('s');
        transitions(1);
        ensure!(x == y, "history {}: squeezed {:?}, expected {:?}", self.hist, x, y);
        Ok(x)
    }
    fn finish(mut self, p: &Perm<F>, n: usize) -> Result<(), String> {
        states(1);
        validated(1);
        for _ in 0..n {
            self.squeeze(p)?;
        }
        Ok(())
    }
}

/// Every sequence of the two operations up to a depth.
fn sequences<const P: u64>(c: &mut Ctx, depth: usize) {
    c.case(&format!("F{} every operation sequence to depth {}", P, depth), |c| {
        let p = tperm::<P>();
        c.sample(format!("F{}: all {} absorb/squeeze sequences of length {}", P, 1u64 << depth, depth));
        fn go<const P: u64>(p: &Perm<T<P, 0>>, x: Pair<T<P, 0>>, d: usize, i: u64) -> Result<(), String> {
            if d == 0 {
                return x.finish(p, 2);
            }
            let mut a = x.clone();
            a.absorb(p, T((i * i + 3 * i + 2) % P));
            go(p, a, d - 1, i + 1)?;
            let mut s = x;
            s.squeeze(p)?;
            go(p, s, d - 1, i)
        }
        let jobs: Vec<u32> = (0..64).collect();
        all(par(&jobs, |j| {
            let mut x = Pair::new();
            let mut i = 0;
            for b in 0..6 {
                if (j >> b) & 1 == 1 {
                    x.absorb(&p, T((i * i + 3 * i + 2) % P));
                    i += 1;
                } else {
                    x.squeeze(&p)?;
                }
            }
            go(&p, x, depth - 6, i)
        }))
    });
}
/// Runs of absorbs and squeezes around the rate.
fn runs<F: Field>(c: &mut Ctx, name: &str, p: &Perm<F>, runs: &[usize], phases: usize, value: impl Fn(u64) -> F + Sync) {
    c.case(&format!("{} runs around the rate, {} phases", name, phases), |c| {
        c.sample(format!("{}: {} alternating phases with lengths {:?}", name, phases, runs));
        let n = runs.len().pow(phases as u32);
        let jobs: Vec<usize> = (0..n).collect();
        all(par(&jobs, |j| {
            let mut x = Pair::new();
            let mut v = *j;
            let mut i = 0;
            for ph in 0..phases {
                for _ in 0..runs[v % runs.len()] {
                    if ph % 2 == 0 {
                        x.absorb(p, value(i));
                        i += 1;
                    } else {
                        x.squeeze(p)?;
                    }
                }
                v /= runs.len();
            }
            x.finish(p, 1)
        }))
    });
}
/// every value of a single absorbed element at every position
fn values<const P: u64>(c: &mut Ctx) {
    c.case(&format!("F{} every value at every position", P), |_| {
        let p = tperm::<P>();
        let jobs: Vec<u64> = (0..P).collect();
        all(par(&jobs, |v| {
            for pos in 0..13 {
                for len in [pos + 1, 14] {
                    let mut x = Pair::new();
                    for i in 0..len.max(pos + 1) {
                        x.absorb(&p, if i == pos { T(*v) } else { T((i as u64 * 7 + 1) % P) });
                    }
                    x.finish(&p, 12)?;
                }
            }
            Ok(())
        }))
    });
}

/// Changing any absorbed element changes the outputs.
fn influence<F: RealField>(c: &mut Ctx) {
    let base = |n: usize| -> Vec<F> { (0..n as u64).map(|i| F::from_u64(1000 + 17 * i)).collect() };
    let fresh = Rescue::<F>::new();
    let outs = |v: &[F], cut: usize| -> Vec<F> {
        let mut r = fresh.clone();
        for (i, x) in v.iter().enumerate() {
            if i == cut {
                r.squeeze();
            }
            r.absorb(*x);
        }
        (0..3).map(|_| r.squeeze()).collect()
    };
    c.case(&format!("{} influence of every element", F::NAME), |c| {
        c.sample(format!("{}: every element of 1..=26 absorbed ones, also after a squeeze", F::NAME));
        for n in if c.thorough { vec![1usize, 2, 11, 12, 13, 24, 25, 26] } else { vec![1, 2, 13, 25] } {
            for cut in [usize::MAX, 5] {
                if cut < n || cut == usize::MAX {
                    let v = base(n);
                    let o = outs(&v, cut);
                    // position inside the block an element is absorbed in
                    let place = |i: usize| if cut == usize::MAX || i < cut { i % RATE } else { (i - cut) % RATE };
                    for i in 0..n {
                        let pos = place(i);
                        for d in [F::one(), -F::one(), F::ALPHA] {
                            let mut w = v.clone();
                            w[i] += d;
                            states(1);
                            transitions(n as u64);
                            validated(1);
                            if outs(&w, cut) == o {
                                c.fail(&format!("influence-position-{}", pos), format!("{}: element {} of {} (position {} of its block) does not influence the outputs", F::NAME, i, n, pos));
                            }
                        }
                    }
                    for i in 0..n {
                        for j in i + 1..n {
                            let mut w = v.clone();
                            w.swap(i, j);
                            states(1);
                            transitions(n as u64);
                            validated(1);
                            if outs(&w, cut) == o {
                                let m = format!("{}: exchanging elements {} and {} of {} does not influence the outputs", F::NAME, i, j, n);
                                ensure!(place(i) == 0 && place(j) == 0, "{}", m);
                                c.fail("influence-position-0", m);
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

fn main() {
    let mut c = Ctx::new("R01", "model_checking");
    c.rule("a state is a history of absorb and squeeze operations on the real sponge; every squeezed element must equal that of the history automaton over the reference permutation");
    c.bound("F1013: every operation sequence to depth 16 (20 thorough) and run lengths around the rate in 5 phases; F103: every value at every position; Fp, Fq: run lengths in 3 (4) phases over landmark values; influence of every element of up to 26");
    c.assume("the permutation's published constants (matrix entries (i+1)j, all-ones round constants, zero master key) are its definition");
    let d = c.tier(16, 20);
    sequences::<1013>(&mut c, d);
    let p = tperm::<1013>();
    runs(&mut c, "F1013", &p, &[0, 1, 2, 11, 12, 13], 4, |i| T((i * i * 5 + i + 9) % 1013));
    let n = c.tier(3, 5);
    runs(&mut c, "F1013", &p, &[0, 1, 11, 12, 13, 23, 24, 25, 36, 37], n, |i| T((i * i * 5 + i + 9) % 1013));
    values::<103>(&mut c);
    let n = c.tier(3, 4);
    fn vals<F: RealField>() -> Vec<F> {
        let mut v: Vec<U256> = landmarks::<F>();
        v.extend(digits::<F>(&[0, 1, !0], false));
        v.iter().map(of).collect()
    }
    let v = vals::<Fp>();
    runs(&mut c, "Fp", &perm::<Fp>(), &[0, 1, 2, 11, 12, 13, 25], n, |i| v[(i as usize * 7919) % v.len()]);
    let v = vals::<Fq>();
    runs(&mut c, "Fq", &perm::<Fq>(), &[0, 1, 2, 11, 12, 13, 25], n, |i| v[(i as usize * 7919) % v.len()]);
    influence::<Fp>(&mut c);
    influence::<Fq>(&mut c);
    c.finish()
}
