//! Independent reference arithmetic: schoolbook integers over 32-bit digits and
//! Knuth's algorithm D. Nothing here uses the code under test.

pub type U256 = [u64; 4];

pub const MOD_P: U256 = [
    0x99fffe7d00000001,
    0x81be9c1a32012482,
    0xbac2a757742b3930,
    0x5c5e464a35c12769,
];
// 0x5c5e464a35c12769bac2a757742b39308 1be9c1a32012482 99fffe7d00000001 (p)
// 0x5c5e464a35c12769bac2a757742b3931 1b849d0f18018604 19fffe7d00000001 (q)
pub const MOD_Q: U256 = [
    0x19fffe7d00000001,
    0x1b849d0f18018604,
    0xbac2a757742b3931,
    0x5c5e464a35c12769,
];

pub fn cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    let n = a.len().max(b.len());
    for i in (0..n).rev() {
        let x = a.get(i).copied().unwrap_or(0);
        let y = b.get(i).copied().unwrap_or(0);
        if x != y {
            return x.cmp(&y);
        }
    }
    std::cmp::Ordering::Equal
}

pub fn add256(a: &U256, b: &U256) -> [u64; 5] {
    let mut r = [0u64; 5];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    r[4] = c as u64;
    r
}

/// a - b, wrapping mod 2^256; second value: borrow.
pub fn sub256(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0u64; 4];
    let mut borrow = 0i128;
    for i in 0..4 {
        let d = a[i] as i128 - b[i] as i128 + borrow;
        r[i] = d as u64;
        borrow = d >> 64;
    }
    (r, borrow != 0)
}

pub fn mul256(a: &U256, b: &U256) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += a[i] as u128 * b[j] as u128 + r[i + j] as u128;
            r[i + j] = c as u64;
            c >>= 64;
        }
        r[i + 4] = c as u64;
    }
    r
}

fn digits(a: &[u64]) -> Vec<u32> {
    let mut v = Vec::with_capacity(a.len() * 2);
    for x in a {
        v.push(*x as u32);
        v.push((*x >> 32) as u32);
    }
    v
}

/// a mod m, where m has its top digit non-zero in 255 bits.
pub fn modulo(a: &[u64], m: &U256) -> U256 {
    let m32 = digits(m);
    let mut n = 8;
    while n > 0 && m32[n - 1] == 0 {
        n -= 1;
    }
    assert!(n >= 2);
    let s = m32[n - 1].leading_zeros();
    let mut v = vec![0u32; n];
    for i in (0..n).rev() {
        let lo = if i > 0 && s > 0 { m32[i - 1] >> (32 - s) } else { 0 };
        v[i] = (m32[i] << s) | lo;
    }
    let a32 = digits(a);
    let l = a32.len();
    let mut u = vec![0u32; l + 1];
    u[l] = if s > 0 { a32[l - 1] >> (32 - s) } else { 0 };
    for i in (0..l).rev() {
        let lo = if i > 0 && s > 0 { a32[i - 1] >> (32 - s) } else { 0 };
        u[i] = (a32[i] << s) | lo;
    }
    if l < n {
        let mut r = [0u64; 4];
        r[..a.len()].copy_from_slice(a);
        return r;
    }
    let base = 1u64 << 32;
    for j in (0..=(l - n)).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut q = num / v[n - 1] as u64;
        let mut r = num % v[n - 1] as u64;
        while q >= base || q * v[n - 2] as u64 > ((r << 32) | u[j + n - 2] as u64) {
            q -= 1;
            r += v[n - 1] as u64;
            if r >= base {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = q * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            let mut c = 0u64;
            for i in 0..n {
                c += u[i + j] as u64 + v[i] as u64;
                u[i + j] = c as u32;
                c >>= 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
    }
    let mut r = [0u64; 4];
    for i in 0..n {
        let hi = if s > 0 && i + 1 <= n { (u[i + 1] as u64) << (32 - s) } else { 0 };
        let d = ((u[i] >> s) as u64 | (if i + 1 < n || s > 0 { hi } else { 0 })) & 0xffff_ffff;
        r[i / 2] |= d << (32 * (i % 2));
    }
    r
}

pub fn addmod(a: &U256, b: &U256, m: &U256) -> U256 {
    modulo(&add256(a, b), m)
}
pub fn submod(a: &U256, b: &U256, m: &U256) -> U256 {
    let (r, borrow) = sub256(a, b);
    if borrow {
        let s = add256(&r, m);
        [s[0], s[1], s[2], s[3]]
    } else {
        modulo(&r, m)
    }
}
pub fn mulmod(a: &U256, b: &U256, m: &U256) -> U256 {
    modulo(&mul256(a, b), m)
}
pub fn negmod(a: &U256, m: &U256) -> U256 {
    submod(&[0; 4], a, m)
}
pub fn powmod(a: &U256, e: &U256, m: &U256) -> U256 {
    let mut r = modulo(&[1, 0, 0, 0], m);
    for i in (0..256).rev() {
        r = mulmod(&r, &r, m);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = mulmod(&r, a, m);
        }
    }
    r
}
pub fn invmod(a: &U256, m: &U256) -> U256 {
    let (e, _) = sub256(m, &[2, 0, 0, 0]);
    powmod(a, &e, m)
}
pub fn shr(a: &U256, k: usize) -> U256 {
    let mut r = *a;
    for _ in 0..k {
        for i in 0..4 {
            r[i] = (r[i] >> 1) | if i < 3 { r[i + 1] << 63 } else { 0 };
        }
    }
    r
}
pub fn is_zero(a: &U256) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn to_bytes(a: &U256) -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    b
}
pub fn from_bytes(b: &[u8; 32]) -> U256 {
    let mut a = [0u64; 4];
    for i in 0..4 {
        let mut t = [0u8; 8];
        t.copy_from_slice(&b[8 * i..8 * i + 8]);
        a[i] = u64::from_le_bytes(t);
    }
    a
}
pub fn hex(a: &[u64]) -> String {
    let mut s = String::from("0x");
    for x in a.iter().rev() {
        s += &format!("{:016x}", x);
    }
    s
}
pub fn hexb(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn selfcheck() {
        // slow shift-subtract reduction agrees with algorithm D
        let mut z = 1u64;
        let mut rnd = || {
            z ^= z << 13;
            z ^= z >> 7;
            z ^= z << 17;
            match z % 5 {
                0 => 0,
                1 => u64::MAX,
                _ => z,
            }
        };
        for m in [MOD_P, MOD_Q] {
            for _ in 0..3000 {
                let a: Vec<u64> = (0..8).map(|_| rnd()).collect();
                let mut r = [0u64; 4];
                for i in (0..512).rev() {
                    let top = r[3] >> 63;
                    for k in (0..4).rev() {
                        r[k] = (r[k] << 1) | if k > 0 { r[k - 1] >> 63 } else { 0 };
                    }
                    r[0] |= (a[i / 64] >> (i % 64)) & 1;
                    if top == 1 || cmp(&r, &m) != std::cmp::Ordering::Less {
                        r = sub256(&r, &m).0;
                    }
                }
                assert_eq!(r, modulo(&a, &m));
            }
        }
    }
}
