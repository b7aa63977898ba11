//! C02: scalar multiplication, the endomorphism, and challenge scalars.
use halo::{get_challenge_scalar, Curve, Ec0, Ec1, Field, Fp, Fq};
use halo_mc::big::*;
use halo_mc::ecref::*;
use halo_mc::realf::*;
use halo_mc::tiny::{E, T};
use halo_mc::*;

fn bit(i: usize) -> U256 {
    let mut x = [0; 4];
    x[i / 64] = 1 << (i % 64);
    x
}
fn mul_ok<C: RealCurve>(what: &str, p: &C, k: &U256, want: &Aff) -> Result<(), String> {
    let s: C::Scalar = fe(k);
    let c = coords(&(*p * s));
    states(1);
    transitions(255);
    validated(1);
    ensure!(c == *want, "{}: {} times {} is ({}, {}), expected ({}, {})", C::NAME, what, hex(k), hex(&c.x), hex(&c.y), hex(&want.x), hex(&want.y));
    Ok(())
}
fn all<T>(r: Vec<Result<T, String>>) -> Result<(), String> {
    r.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
}

fn curve<C: RealCurve>(c: &mut Ctx)
where
    C::Scalar: RealField,
{
    let th = c.thorough;
    let g = gen::<C>();
    let pow: Vec<Aff> = {
        let mut v = vec![g];
        for _ in 0..254 {
            let l = *v.last().unwrap();
            v.push(add::<C>(&l, &l));
        }
        v
    };
    let top = 254; // every power of two below the order
    let by_bits = |k: &U256| -> Aff { (0..255).filter(|i| (k[i / 64] >> (i % 64)) & 1 == 1).fold(O, |a, i| add::<C>(&a, &pow[i])) };
    let lg = C::one();
    c.case(&format!("{} powers of two", C::NAME), |c| {
        c.sample(format!("{}: all single-bit scalars, their negations, predecessors and pairwise sums", C::NAME));
        for (n, p) in [("G", lg), ("G'", (lg.double() + lg) - lg.double())] {
            mul_ok(n, &p, &[0; 4], &O)?;
            for i in 0..=top {
                if cmp(&bit(i), &C::N) != std::cmp::Ordering::Less {
                    continue;
                }
                mul_ok(n, &p, &bit(i), &pow[i])?;
                mul_ok(n, &p, &negmod(&bit(i), &C::N), &neg::<C>(&pow[i]))?;
                mul_ok(n, &p, &submod(&bit(i), &[1, 0, 0, 0], &C::N), &add::<C>(&pow[i], &neg::<C>(&g)))?;
            }
        }
        Ok(())
    });
    c.case(&format!("{} two-bit scalars", C::NAME), |_| {
        let step = if th { 1 } else { 3 };
        let items: Vec<usize> = (0..=top).collect();
        all(par(&items, |i| {
            for j in (*i..=top).step_by(step) {
                let k = addmod(&bit(*i), &bit(j), &C::N);
                mul_ok("G", &lg, &k, &add::<C>(&pow[*i], &pow[j]))?;
            }
            Ok(())
        }))
    });
    c.case(&format!("{} small and order-adjacent scalars", C::NAME), |_| {
        let n = if th { 2000u64 } else { 300 };
        let mut acc = O;
        let mut items = vec![];
        for k in 0..n {
            items.push(([k, 0, 0, 0], acc));
            items.push((negmod(&[k, 0, 0, 0], &C::N), neg::<C>(&acc)));
            acc = add::<C>(&acc, &g);
        }
        all(par(&items, |(k, a)| mul_ok("G", &lg, k, a)))
    });
    c.case(&format!("{} digit patterns", C::NAME), |c| {
        let ks = digits::<C::Scalar>(if th { &[0, 1, !0, 1 << 63, 0x5555_5555_5555_5555] } else { &[0, !0] }, th);
        let ks: Vec<U256> = ks.into_iter().filter(|k| cmp(k, &C::N) == std::cmp::Ordering::Less).collect();
        c.sample(format!("{}: {} digit patterns", C::NAME, ks.len()));
        let others = [("G", lg, 1u64), ("[5]G", point::<C>(&by_bits(&[5, 0, 0, 0])), 5), ("identity", C::zero(), 0), ("-G", -lg, 0)];
        all(par(&ks, |k| {
            for (n, p, m) in &others {
                let want = match *n {
                    "-G" => neg::<C>(&by_bits(k)),
                    "identity" => O,
                    _ => by_bits(&mulmod(k, &[*m, 0, 0, 0], &C::N)),
                };
                mul_ok(n, p, k, &want)?;
                for (f, r) in C::ops_mul(p, &fe(k)).iter().enumerate() {
                    ensure!(coords(r) == want, "{}: form {} of {} times {}", C::NAME, f, n, hex(k));
                }
            }
            Ok(())
        }))
    });
    c.case(&format!("{} endomorphism", C::NAME), |_| {
        let (bs, bb): (U256, U256) = (val(&C::BETA_SCALAR), val(&C::BETA_BASE));
        let one = [1u64, 0, 0, 0];
        for (b, m) in [(bs, C::N), (bb, C::P)] {
            ensure!(b != one && mulmod(&mulmod(&b, &b, &m), &b, &m) == one, "{}: cube root of unity", C::NAME);
        }
        ensure!(C::BETA_SCALAR == <C::Scalar as Field>::BETA && C::BETA_BASE == <C::Base as Field>::BETA, "{}: constants disagree", C::NAME);
        let phi = |a: &Aff| if a.inf { *a } else { Aff { x: mulmod(&a.x, &bb, &C::P), ..*a } };
        let mut acc = O;
        for k in 0..64u64 {
            mul_ok(&format!("[{}]G", k), &point::<C>(&acc), &bs, &phi(&acc))?;
            mul_ok("G", &lg, &mulmod(&bs, &[k, 0, 0, 0], &C::N), &phi(&acc))?;
            acc = add::<C>(&acc, &g);
        }
        for p in pow.iter().step_by(8) {
            mul_ok("[2^i]G", &point::<C>(p), &bs, &phi(p))?;
        }
        Ok(())
    });
    // challenges as scalars on points
    c.case(&format!("{} challenge walks", C::NAME), |_| {
        let bb: U256 = val(&C::BETA_BASE);
        let pats = patterns(th);
        let pats: Vec<u128> = pats.into_iter().step_by(if th { 7 } else { 101 }).collect();
        all(par(&pats, |k| {
            let mut a = add::<C>(&add::<C>(&g, &g), &g);
            for i in 1..64 {
                a = add::<C>(&a, &a);
                a = add::<C>(&a, &if (k >> (2 * i)) & 1 == 1 { neg::<C>(&g) } else { g });
                if (k >> (2 * i + 1)) & 1 == 1 {
                    a.x = mulmod(&a.x, &bb, &C::P);
                }
            }
            let s: C::Scalar = get_challenge_scalar::<C::Scalar, C::Scalar>(C::Scalar::from_u128(*k));
            ensure!(coords(&(lg * s)) == a, "{}: the walk of challenge {:x} is not the multiple by its scalar", C::NAME, k);
            states(1);
            transitions(63);
            validated(1);
            Ok(())
        }))
    });
}

fn patterns(th: bool) -> Vec<u128> {
    let mut v = vec![0, !0, !0 / 3, !0 / 3 * 2, !0 / 5, 1 << 127, (1 << 127) - 1];
    for i in 0..128 {
        v.push(1 << i);
        v.push(!(1 << i));
        for j in (i + 1..128).step_by(if th { 1 } else { 3 }) {
            v.push(1 << i | 1 << j);
            v.push(!(1 << i | 1 << j));
        }
    }
    v
}

/// challenge scalar over integers
fn expand(k: u128, beta: &U256, m: &U256) -> U256 {
    let one = [1, 0, 0, 0];
    let mut a = modulo(&[3, 0, 0, 0], m);
    for i in 1..64 {
        a = addmod(&a, &a, m);
        a = if (k >> (2 * i)) & 1 == 1 { submod(&a, &one, m) } else { addmod(&a, &one, m) };
        if (k >> (2 * i + 1)) & 1 == 1 {
            a = mulmod(&a, beta, m);
        }
    }
    a
}
fn challenges<F1: RealField, F2: RealField>(c: &mut Ctx) {
    let pats = patterns(c.thorough);
    c.case(&format!("challenge scalars {} to {}", F1::NAME, F2::NAME), |c| {
        c.sample(format!("{} challenge patterns incl. all one- and two-bit ones", pats.len()));
        let beta = val(&F2::BETA);
        all(par(&pats, |k| {
            let want = expand(*k, &beta, &F2::M);
            // high bits must not matter
            for high in [[0u64, 0], [1, 0], [!0, 0x1fff_ffff_ffff_ffff]] {
                let x: F1 = of(&[*k as u64, (*k >> 64) as u64, high[0], high[1]]);
                let got: F2 = get_challenge_scalar(x);
                states(1);
                transitions(63);
                validated(1);
                ensure!(val(&got) == want, "challenge {:x}: scalar {} expected {}", k, hex(&val(&got)), hex(&want));
            }
            Ok(())
        }))
    });
}
fn tiny<const P: u64, const N: u64, const B: u64, const VB: u8, const VS: u8>(c: &mut Ctx) {
    c.case(&format!("walks on E{}/{}", P, N), |_| {
        let pats = patterns(c_thorough());
        let pts = E::<P, N, B, VB, VS>::all();
        all(par(&pats, |k| {
            // an input field large enough to carry the challenge
            let s: T<N, VS> = get_challenge_scalar::<Fp, T<N, VS>>(Fp::from_u128(*k));
            for (i, p) in pts.iter().enumerate().step_by(3) {
                let mut a = p.times(3);
                for i in 1..64 {
                    a = a.plus(&a);
                    a = a.plus(&if (k >> (2 * i)) & 1 == 1 { p.minus() } else { *p });
                    if (k >> (2 * i + 1)) & 1 == 1 && !a.inf {
                        a.x = a.x * <E<P, N, B, VB, VS> as Curve>::BETA_BASE.0 % P;
                    }
                }
                ensure!(*p * s == a, "E{}: walk {:x} from [{}]G", P, k, i);
                states(1);
                transitions(63);
                validated(1);
            }
            Ok(())
        }))
    });
}
fn c_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn main() {
    let mut c = Ctx::new("C02", "model_checking");
    c.rule("a state is a (point, scalar) pair or a challenge bit pattern; the result must equal the sum of reference multiples over integers, or the integer expansion of the walk");
    c.bound("scalars: all one- and two-bit values, predecessors, negations, small and order-adjacent values, limb patterns; challenges: all one- and two-bit patterns and complements");
    challenges::<Fp, Fq>(&mut c);
    challenges::<Fq, Fp>(&mut c);
    challenges::<Fp, Fp>(&mut c);
    challenges::<Fq, Fq>(&mut c);
    tiny::<7, 13, 3, 0, 0>(&mut c);
    tiny::<67, 79, 7, 0, 0>(&mut c);
    curve::<Ec0>(&mut c);
    curve::<Ec1>(&mut c);
    c.finish()
}
