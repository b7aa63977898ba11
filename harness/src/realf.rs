//! The two production fields behind one interface, with their reference moduli.
use crate::big::*;
use halo::{Field, Fp, Fq};

pub trait RealField: Field {
    const NAME: &'static str;
    const M: U256;
    fn f_double(&self) -> Self;
    fn f_square(&self) -> Self;
    fn f_from_raw(v: [u64; 4]) -> Self;
    fn f_wide(b: &[u8; 64]) -> Self;
    fn f_from(v: u64) -> Self;
    fn f_bytes_ref(&self) -> [u8; 32];
    /// ref-ref operator forms
    fn f_refops(a: &Self, b: &Self) -> [Self; 4];
    fn f_inherent(a: &Self, b: &Self) -> [Self; 4];
}
macro_rules! rf {
    ($t:ident, $m:expr) => {
        impl RealField for $t {
            const NAME: &'static str = stringify!($t);
            const M: U256 = $m;
            fn f_double(&self) -> Self {
                $t::double(self)
            }
            fn f_square(&self) -> Self {
                $t::square(self)
            }
            fn f_from_raw(v: [u64; 4]) -> Self {
                $t::from_raw(v)
            }
            fn f_wide(b: &[u8; 64]) -> Self {
                $t::from_bytes_wide(b)
            }
            fn f_from(v: u64) -> Self {
                <$t as From<u64>>::from(v)
            }
            fn f_bytes_ref(&self) -> [u8; 32] {
                <[u8; 32]>::from(self)
            }
            fn f_refops(a: &Self, b: &Self) -> [Self; 4] {
                [a + b, a - b, a * b, -a]
            }
            fn f_inherent(a: &Self, b: &Self) -> [Self; 4] {
                [$t::add(a, b), $t::sub(a, b), $t::mul(a, b), $t::neg(a)]
            }
        }
    };
}
rf!(Fp, MOD_P);
rf!(Fq, MOD_Q);

/// Field element with this canonical value.
pub fn of<F: RealField>(v: &U256) -> F {
    let v = modulo(v, &F::M);
    F::from_bytes(&to_bytes(&v)).unwrap()
}
pub fn val<F: Field>(x: &F) -> U256 {
    from_bytes(&x.to_bytes())
}

/// R^-1 mod m, R = 2^256: value whose Montgomery form has the given digits.
pub fn unmont<F: RealField>() -> U256 {
    let r = modulo(&[0, 0, 0, 0, 1], &F::M);
    invmod(&r, &F::M)
}

/// All four-digit values over an alphabet of digits (per position the
/// modulus digits and their neighbours are added), below the modulus.
pub fn digits<F: RealField>(extra: &[u64], near: bool) -> Vec<U256> {
    let m = F::M;
    let alpha: Vec<Vec<u64>> = (0..4)
        .map(|i| {
            let mut v = extra.to_vec();
            if near {
                v.extend([m[i].wrapping_sub(1), m[i], m[i].wrapping_add(1)]);
            }
            v.sort();
            v.dedup();
            v
        })
        .collect();
    let mut out = vec![];
    for a in &alpha[0] {
        for b in &alpha[1] {
            for c in &alpha[2] {
                for d in &alpha[3] {
                    let v = [*a, *b, *c, *d];
                    if cmp(&v, &m) == std::cmp::Ordering::Less {
                        out.push(v);
                    }
                }
            }
        }
    }
    out
}
/// Single-bit values, their negations, and neighbours of landmarks.
pub fn landmarks<F: RealField>() -> Vec<U256> {
    let m = F::M;
    let mut v: Vec<U256> = vec![];
    for i in 0..255 {
        let mut x = [0u64; 4];
        x[i / 64] = 1 << (i % 64);
        v.push(modulo(&x, &m));
        v.push(negmod(&x, &m));
        let (y, _) = sub256(&x, &[1, 0, 0, 0]);
        v.push(modulo(&y, &m));
    }
    for k in 0..32u64 {
        v.push([k, 0, 0, 0]);
        v.push(negmod(&[k, 0, 0, 0], &m));
        let h = shr(&m, 1);
        v.push(addmod(&h, &[k, 0, 0, 0], &m));
        v.push(submod(&h, &[k, 0, 0, 0], &m));
    }
    v.sort();
    v.dedup();
    v
}
