//! F03: inversion, square roots, powers, batch inversion and field constants.
use halo::{Field, Fp, Fq};
use halo_mc::big::*;
use halo_mc::realf::*;
use halo_mc::*;

fn inv_sqrt<F: RealField>(a: &U256) -> Result<(), String> {
    let m = &F::M;
    let x: F = of(a);
    let z = is_zero(a);
    let i = x.invert();
    ensure!(bool::from(i.is_some()) == !z, "{}: invert({}) is_some={}", F::NAME, hex(a), bool::from(i.is_some()));
    if !z {
        let i = i.unwrap();
        ensure!(mulmod(&val(&i), a, m) == [1, 0, 0, 0], "{}: invert({}) = {}", F::NAME, hex(a), hex(&val(&i)));
    }
    sqrt::<F>(a)
}
fn sqrt<F: RealField>(a: &U256) -> Result<(), String> {
    let m = &F::M;
    let x: F = of(a);
    let e = shr(m, 1);
    let l = powmod(a, &e, m);
    let square = is_zero(&l) || l == [1, 0, 0, 0];
    let r = x.sqrt();
    ensure!(bool::from(r.is_some()) == square, "{}: sqrt({}) found={} but residue={}", F::NAME, hex(a), bool::from(r.is_some()), square);
    if square {
        let v = val(&r.unwrap());
        ensure!(mulmod(&v, &v, m) == modulo(a, m), "{}: sqrt({}) = {}", F::NAME, hex(a), hex(&v));
        // verifier and verification circuit have to agree on the root
        ensure!(v[0] & 1 == 0, "{}: sqrt({}) = {} is odd", F::NAME, hex(a), hex(&v));
    }
    states(1);
    transitions(2);
    validated(1);
    Ok(())
}

fn field<F: RealField>(c: &mut Ctx, gen: u64) {
    let m = F::M;
    let mx = u64::MAX;
    let (m1, _) = sub256(&m, &[1, 0, 0, 0]);
    c.case(&format!("{} constants", F::NAME), |_| {
        // 2-adicity and root of unity
        let mut s = 0;
        let mut t = m1;
        while t[0] & 1 == 0 {
            t = shr(&t, 1);
            s += 1;
        }
        ensure!(F::S == s, "{}: S = {}", F::NAME, F::S);
        let a = val(&F::ALPHA);
        ensure!(a == powmod(&[gen, 0, 0, 0], &t, &m), "{}: root of unity {}", F::NAME, hex(&a));
        let mut x = a;
        for _ in 0..s - 1 {
            x = mulmod(&x, &x, &m);
        }
        ensure!(x == m1, "{}: order of the root of unity", F::NAME);
        let b = val(&F::BETA);
        ensure!(b != [1, 0, 0, 0] && powmod(&b, &[3, 0, 0, 0], &m) == [1, 0, 0, 0], "{}: BETA {}", F::NAME, hex(&b));
        // exponent pair: alpha * invalpha = 1 mod m-1
        let prod = mul256(&[F::RESCUE_ALPHA, 0, 0, 0], &F::RESCUE_INVALPHA);
        ensure!(modulo(&prod, &m1) == [1, 0, 0, 0], "{}: Rescue exponents", F::NAME);
        ensure!(F::NUM_BITS == 255 && F::CAPACITY == 254, "{}: bit sizes", F::NAME);
        states(1);
        transitions(6);
        Ok(())
    });
    c.case(&format!("{} inverses and roots of landmark and digit values", F::NAME), |c| {
        let mut set = landmarks::<F>();
        set.extend(digits::<F>(&c.tier(vec![0, mx], vec![0, 1, mx]), true));
        let rinv = unmont::<F>();
        let k: Vec<U256> = set.iter().map(|v| mulmod(v, &rinv, &m)).collect();
        set.extend(k);
        for i in 0..c.tier(300u64, 5000) {
            set.push([i, 0, 0, 0]);
            set.push(mulmod(&[i, 0, 0, 0], &[i, 0, 0, 0], &m));
        }
        c.sample(format!("{} {} values, e.g. {}", F::NAME, set.len(), hex(&set[17])));
        let rs = par(&set, inv_sqrt::<F>);
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    // square roots walk the 2-adic part: cover exponents of the 2^32-order
    // subgroup by every 2-adic level and every short/long/sparse bit pattern,
    // times elements of odd order.
    c.case(&format!("{} roots over the 2-adic subgroup", F::NAME), |c| {
        let w = val(&F::ALPHA);
        let mut t = m1;
        for _ in 0..32 {
            t = shr(&t, 1);
        }
        let mut exps: Vec<u64> = vec![];
        for i in 0..=32u64 {
            for j in 0..=i {
                exps.push(((1u64 << i) ^ if j < i { 1 << j } else { 0 }) & 0xffff_ffff);
                exps.push(((1u64 << i) - (1u64 << j)) & 0xffff_ffff);
                for k in 0..c.tier(0, j) {
                    exps.push(((1u64 << i) ^ (1 << j) ^ (1 << k)) & 0xffff_ffff);
                }
            }
        }
        for e in 0..c.tier(256u64, 4096) {
            exps.push(e);
            exps.push(0xffff_ffff - e);
        }
        for e in [0x55555555u64, 0xaaaaaaaa, 0x33333333, 0xcccccccc, 0x0f0f0f0f, 0x12345678, 0xdeadbeef] {
            exps.push(e);
        }
        exps.sort();
        exps.dedup();
        let odd: Vec<U256> = [1u64, 2, 3, 1 << 40].iter().map(|k| powmod(&[*k, 1, 0, 0], &[0, 1 << 32 - 32, 0, 0], &m)).map(|x| {
            let mut y = x;
            for _ in 0..32 {
                y = mulmod(&y, &y, &m);
            }
            y
        }).chain(std::iter::once([1, 0, 0, 0])).collect();
        c.sample(format!("{}: {} exponents of the 2^32-th root of unity times {} elements of odd order", F::NAME, exps.len(), odd.len()));
        let rs = par(&exps, |e| {
            let b = powmod(&w, &[*e, 0, 0, 0], &m);
            for o in &odd {
                sqrt::<F>(&mulmod(&b, o, &m))?;
            }
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} powers", F::NAME), |c| {
        let mut es: Vec<U256> = vec![];
        for i in 0..256 {
            let mut x = [0u64; 4];
            x[i / 64] = 1 << (i % 64);
            es.push(x);
            es.push(sub256(&x, &[1, 0, 0, 0]).0);
        }
        for k in 0..c.tier(64u64, 1024) {
            es.push([k, 0, 0, 0]);
        }
        let al = [0u64, 1, mx];
        for i in 0..81usize {
            es.push([al[i % 3], al[i / 3 % 3], al[i / 9 % 3], al[i / 27]]);
        }
        es.extend([m, m1, shr(&m, 1), F::RESCUE_INVALPHA, [F::RESCUE_ALPHA, 0, 0, 0]]);
        let bases: Vec<U256> = vec![[0; 4], [1, 0, 0, 0], [2, 0, 0, 0], [gen, 0, 0, 0], m1, val(&F::ALPHA), val(&F::BETA), shr(&m, 1), [0, mx, 0, 1]];
        let rs = par(&es, |e| {
            for b in &bases {
                let x: F = of(b);
                let w = powmod(b, e, &m);
                let (p, q) = (x.pow(e), x.pow_vartime(e));
                ensure!(val(&p) == w && val(&q) == w, "{}: {}^{} = {} / {}, should be {}", F::NAME, hex(b), hex(e), hex(&val(&p)), hex(&val(&q)), hex(&w));
                states(1);
                transitions(2);
                validated(1);
            }
            // the Rescue exponents undo each other
            let x: F = of(e);
            ensure!(x.pow(&[F::RESCUE_ALPHA, 0, 0, 0]).pow(&F::RESCUE_INVALPHA) == x && x.pow(&F::RESCUE_INVALPHA).pow(&[F::RESCUE_ALPHA, 0, 0, 0]) == x, "{}: Rescue exponents on {}", F::NAME, hex(e));
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} batch inversion of every zero pattern", F::NAME), |c| {
        let pool: Vec<F> = (0..260u64).map(|i| of::<F>(&[i * i + 3, i, 0, i << 3])).collect();
        let check = |v: &[F]| -> Result<(), String> {
            let mut w = v.to_vec();
            let r = F::batch_invert(&mut w);
            let mut prod = [1, 0, 0, 0];
            for (i, x) in v.iter().enumerate() {
                let a = val(x);
                if is_zero(&a) {
                    ensure!(is_zero(&val(&w[i])), "{}: a zero at position {} of {} became {:?}", F::NAME, i, v.len(), w[i]);
                } else {
                    ensure!(mulmod(&a, &val(&w[i]), &m) == [1, 0, 0, 0], "{}: entry {} of {:?} became {:?}", F::NAME, i, v, w[i]);
                    prod = mulmod(&prod, &val(&w[i]), &m);
                }
            }
            ensure!(val(&r) == prod, "{}: product of inverses of {:?} is {:?}", F::NAME, v, r);
            states(1);
            transitions(v.len() as u64);
            validated(1);
            Ok(())
        };
        let n = c.tier(10, 13);
        let lens: Vec<usize> = (0..=n).collect();
        let rs = par(&lens, |len| {
            for mask in 0u32..(1 << len) {
                let v: Vec<F> = (0..*len).map(|i| if mask >> i & 1 == 1 { F::zero() } else { pool[i] }).collect();
                check(&v)?;
            }
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())?;
        // all words over {0, 1, -1, 2, a}
        let al = [F::zero(), F::one(), -F::one(), of::<F>(&[2, 0, 0, 0]), pool[7]];
        for len in 0..=5usize {
            for k in 0..5usize.pow(len as u32) {
                let mut k = k;
                let v: Vec<F> = (0..len).map(|_| { let x = al[k % 5]; k /= 5; x }).collect();
                check(&v)?;
            }
        }
        for len in 0..260 {
            check(&pool[..len])?;
        }
        Ok(())
    });
}

fn main() {
    let mut c = Ctx::new("F03", "model_checking");
    c.rule("a state is an operand (or vector of operands); the real operation is executed and its result checked by independent integer arithmetic (product with the operand, square, Euler's criterion, square-and-multiply)");
    c.bound("operands over digit alphabets and landmarks; all 2-adic levels and all one/two-bit and run patterns of the 2^32 subgroup for square roots; all zero patterns of vectors up to 10 (13) entries");
    field::<Fp>(&mut c, 7);
    field::<Fq>(&mut c, 5);
    c.finish()
}
