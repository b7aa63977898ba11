//! F02: encodings of field elements are canonical and exact.
use halo::{Field, Fp, Fq};
use halo_mc::big::*;
use halo_mc::realf::*;
use halo_mc::*;
use std::cmp::Ordering::Less;

fn decode<F: RealField>(v: &U256) -> Result<(), String> {
    let b = to_bytes(v);
    let r = F::from_bytes(&b);
    let ok = cmp(v, &F::M) == Less;
    ensure!(bool::from(r.is_some()) == ok && bool::from(r.is_none()) == !ok, "{}: decoding {} accepted={}", F::NAME, hex(v), bool::from(r.is_some()));
    if ok {
        let x = r.unwrap();
        ensure!(x.to_bytes() == b, "{}: {} re-encodes as {}", F::NAME, hex(v), hex(&val(&x)));
        ensure!(x.f_bytes_ref() == b, "{}: {} converts to bytes as {}", F::NAME, hex(v), hexb(&x.f_bytes_ref()));
        let lo = v[0] as u128 | ((v[1] as u128) << 64);
        ensure!(x.get_lower_128() == lo, "{}: low bits of {} are {:x}", F::NAME, hex(v), x.get_lower_128());
        let dbg = format!("{:?}", x);
        ensure!(dbg == hex(v), "{}: {} prints as {}", F::NAME, hex(v), dbg);
    }
    let raw = F::f_from_raw(*v);
    let w = modulo(v, &F::M);
    ensure!(val(&raw) == w, "{}: the integer {} becomes {}", F::NAME, hex(v), hex(&val(&raw)));
    // an element has one representation however it was obtained
    ensure!(raw == F::from_bytes(&to_bytes(&w)).unwrap(), "{}: {} has two representations", F::NAME, hex(v));
    Ok(())
}

fn field<F: RealField>(c: &mut Ctx) {
    let m = F::M;
    let h = 1u64 << 63;
    let mx = u64::MAX;
    c.case(&format!("{} byte strings from a digit alphabet", F::NAME), |c| {
        let alpha: Vec<Vec<u64>> = (0..4)
            .map(|i| {
                let mut v = vec![0, 1, 0x80, h - 1, h, mx - 1, mx, m[i].wrapping_sub(1), m[i], m[i].wrapping_add(1), m[i] ^ h, m[i] ^ 1];
                v.sort();
                v.dedup();
                v
            })
            .collect();
        c.sample(format!("{} digit alphabet {:x?}", F::NAME, alpha[3]));
        let rs = par(&alpha[3], |d| {
            for a in &alpha[0] {
                for b in &alpha[1] {
                    for e in &alpha[2] {
                        decode::<F>(&[*a, *b, *e, *d])?;
                        states(1);
                        transitions(5);
                        validated(1);
                    }
                }
            }
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} neighbourhoods of 0, m, 2m, 2^255, 2^256", F::NAME), |c| {
        let k = c.tier(4096u64, 65536);
        let m2 = add256(&m, &m);
        let marks: [U256; 5] = [[0; 4], m, [m2[0], m2[1], m2[2], m2[3]], [0, 0, 0, h], [mx; 4]];
        for b in &marks {
            for d in 0..k {
                let up = add256(b, &[d, 0, 0, 0]);
                decode::<F>(&[up[0], up[1], up[2], up[3]])?;
                decode::<F>(&sub256(b, &[d, 0, 0, 0]).0)?;
                states(2);
                transitions(10);
                validated(2);
            }
        }
        Ok(())
    });
    c.case(&format!("{} every byte of landmark encodings replaced by every value", F::NAME), |_| {
        let (m1, _) = sub256(&m, &[1, 0, 0, 0]);
        let bases = [[0; 4], m, m1, shr(&m, 1), [mx; 4], [0x0123456789abcdef; 4]];
        for b in &bases {
            let enc = to_bytes(b);
            for i in 0..32 {
                for v in 0..=255u8 {
                    let mut e = enc;
                    e[i] = v;
                    decode::<F>(&from_bytes(&e))?;
                    states(1);
                    transitions(5);
                    validated(1);
                }
            }
        }
        for l in landmarks::<F>() {
            decode::<F>(&l)?;
            states(1);
            transitions(5);
            validated(1);
        }
        Ok(())
    });
    c.case(&format!("{} 512-bit strings from a digit alphabet", F::NAME), |c| {
        let mut alpha: Vec<u64> = c.tier(vec![0, 1, h, mx, m[3]], vec![0, 1, h, mx - 1, mx, m[3], m[0]]);
        alpha.sort();
        alpha.dedup();
        let n = alpha.len();
        let idx: Vec<usize> = (0..n * n).collect();
        let rs = par(&idx, |i| {
            let total = n.pow(6);
            for j in 0..total {
                let mut l = [0u64; 8];
                l[7] = alpha[i / n];
                l[6] = alpha[i % n];
                let mut k = j;
                for d in 0..6 {
                    l[d] = alpha[k % n];
                    k /= n;
                }
                let mut b = [0u8; 64];
                for d in 0..8 {
                    b[8 * d..8 * d + 8].copy_from_slice(&l[d].to_le_bytes());
                }
                let g = F::f_wide(&b);
                let w = modulo(&l, &m);
                ensure!(val(&g) == w, "{}: reducing {} gives {}", F::NAME, hex(&l), hex(&val(&g)));
            }
            states(total as u64);
            transitions(total as u64);
            validated(total as u64);
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} 512-bit strings: one byte set", F::NAME), |_| {
        for i in 0..64 {
            for v in 0..=255u8 {
                for fill in [0u8, 0xff] {
                    let mut b = [fill; 64];
                    b[i] = v;
                    let mut l = [0u64; 8];
                    for d in 0..8 {
                        let mut t = [0u8; 8];
                        t.copy_from_slice(&b[8 * d..8 * d + 8]);
                        l[d] = u64::from_le_bytes(t);
                    }
                    let g = F::f_wide(&b);
                    ensure!(val(&g) == modulo(&l, &m), "{}: reducing {} gives {}", F::NAME, hex(&l), hex(&val(&g)));
                    states(1);
                    transitions(1);
                    validated(1);
                }
            }
        }
        Ok(())
    });
}

fn main() {
    let mut c = Ctx::new("F02", "model_checking");
    c.rule("a state is one 32- or 64-byte string; it is decoded, re-encoded and reduced by the real code and compared with integer arithmetic");
    c.bound("all strings over the digit alphabets, all strings within the stated distance of 0, m, 2m, 2^255 and 2^256, all one-byte replacements of landmark encodings");
    field::<Fp>(&mut c);
    field::<Fq>(&mut c);
    c.finish()
}
