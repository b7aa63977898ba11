//! G06: SHA-256 in circuits.
use halo::sha256::{sha256, sha256_block_no_padding};
use halo::{Boolean, ConstraintSystem, Field, Fp, Fq};
use halo_mc::gad::*;
use halo_mc::r1cs::*;
use halo_mc::*;

/// FIPS 180-4, with the constants derived from primes.
mod reference {
    fn primes(n: usize) -> Vec<u64> {
        let mut v = vec![];
        let mut k = 2u64;
        while v.len() < n {
            if v.iter().all(|p| k % p != 0) {
                v.push(k);
            }
            k += 1;
        }
        v
    }
    /// floor(frac(p^(1/r)) * 2^32) by integer bisection
    fn frac(p: u64, r: u32) -> u32 {
        // find the largest x with x^r <= p * 2^(32 r)
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        let le = |x: u128| -> bool {
            if r == 2 {
                x * x <= (p as u128) << 64
            } else {
                // x^3 <= p * 2^96: compare x^2 * x in parts
                let sq = x * x;
                let (h, l) = (sq >> 64, sq & 0xffff_ffff_ffff_ffff);
                let lo = l * x;
                let hi = h * x + (lo >> 64);
                hi < (p as u128) << 32 || (hi == (p as u128) << 32 && lo & 0xffff_ffff_ffff_ffff == 0)
            }
        };
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            if le(m) {
                lo = m
            } else {
                hi = m
            }
        }
        lo as u32
    }
    pub fn constants() -> ([u32; 8], [u32; 64]) {
        let p = primes(64);
        let mut iv = [0; 8];
        let mut k = [0; 64];
        for i in 0..8 {
            iv[i] = frac(p[i], 2);
        }
        for i in 0..64 {
            k[i] = frac(p[i], 3);
        }
        (iv, k)
    }
    pub fn block(h: &mut [u32; 8], b: &[u8], k: &[u32; 64]) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..64 {
            let a = w[i - 15];
            let c = w[i - 2];
            let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
            let s1 = c.rotate_right(17) ^ c.rotate_right(19) ^ (c >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = *h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v = [t1.wrapping_add(s0.wrapping_add(maj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    pub fn hash(m: &[u8], pad: bool) -> Vec<u8> {
        let (mut h, k) = constants();
        let mut m2 = m.to_vec();
        if pad {
            m2.push(0x80);
            while m2.len() % 64 != 56 {
                m2.push(0);
            }
            m2.extend_from_slice(&(m.len() as u64 * 8).to_be_bytes());
        }
        for b in m2.chunks(64) {
            block(&mut h, b, &k);
        }
        h.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
}

fn bits(m: &[u8]) -> Vec<bool> {
    m.iter().flat_map(|b| (0..8).rev().map(move |i| (b >> i) & 1 == 1)).collect()
}
/// kind 0 constant bits, 1 allocated, 2 negated, 3 mixed
fn one<F: Field>(m: &[u8], kind: u8, pad: bool, sound: bool) -> Result<(), String> {
    let want: Vec<F> = bits(&reference::hash(m, pad)).into_iter().map(F::from).collect();
    let mb = bits(m);
    let what = format!("digest of {} bytes {} kind {} padding {}", m.len(), big::hexb(m), kind, pad);
    gadget_with::<F>(&what, Expect::Is(want), sound, &|g| {
        let input: Vec<Boolean> = mb.iter().enumerate().map(|(i, b)| g.boolean(if kind == 3 { (i % 3) as u8 } else { kind }, *b)).collect();
        g.cs.fix();
        let d = if pad { sha256(&mut g.cs, &input)? } else { sha256_block_no_padding(&mut g.cs, &input)? };
        Ok(d.iter().map(|b| g.out_bool(b)).collect())
    })?;
    // one instance is one fully explored execution of the emitted system
    states(1);
    transitions(m.len() as u64 * 8 + 1);
    Ok(())
}
fn pattern(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| match k {
        0 => 0,
        1 => 0xff,
        _ => (i as u8).wrapping_mul(k).wrapping_add(k),
    })
    .collect()
}

fn field<F: Field>(c: &mut Ctx, name: &str, first: bool) {
    let th = c.thorough;
    let all = |r: Vec<Result<(), String>>| r.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ());
    c.case(&format!("{} message lengths", name), |c| {
        let mut items = vec![];
        let max = if th { 260 } else if first { 130 } else { 70 };
        for n in 0..=max {
            for k in if th { vec![0, 1, 29, 77] } else { vec![29] } {
                for kind in if th || n % 32 < 2 || n % 64 == 55 || n % 64 == 56 { vec![0, 1, 2, 3] } else { vec![1] } {
                    items.push((pattern(n, k), kind));
                }
            }
        }
        c.sample(format!("all lengths 0..={}: {} messages", max, items.len()));
        all(par(&items, |(m, k)| one::<F>(m, *k, true, false)))
    });
    c.case(&format!("{} single-bit blocks", name), |c| {
        let step = if th { 1 } else if first { 3 } else { 16 };
        let mut items = vec![];
        for i in (0..512).step_by(step) {
            let mut m = vec![0u8; 64];
            m[i / 8] = 0x80 >> (i % 8);
            items.push((m.clone(), (i % 4) as u8));
            for b in &mut m {
                *b = !*b;
            }
            items.push((m, 1));
        }
        c.sample(format!("{} blocks with one differing bit", items.len()));
        all(par(&items, |(m, k)| one::<F>(m, *k, false, false)))
    });
    c.case(&format!("{} forced digests", name), |c| {
        let mut items: Vec<(Vec<u8>, u8, bool)> = vec![];
        let lens = if th { (0..130).step_by(5).chain([55, 56, 63, 64]).collect() } else if first { vec![0, 1, 3, 55, 56, 64] } else { vec![3, 64] };
        for n in lens {
            items.push((pattern(n, 29), 1, true));
        }
        items.push((pattern(64, 0), 1, false));
        items.push((pattern(64, 1), 2, false));
        items.push((pattern(64, 77), 3, false));
        c.sample(format!("{} messages with all satisfying assignments explored", items.len()));
        all(par(&items, |(m, k, p)| one::<F>(m, *k, *p, true)))
    });
    let _ = <Rec<F> as ConstraintSystem<F>>::ONE;
}

fn main() {
    let mut c = Ctx::new("G06", "model_checking");
    c.rule("a state is one message (bits in one representation) run through the circuit, or a node of the search for satisfying assignments with the message fixed");
    c.bound("all byte lengths up to the stated maximum, one-bit differences over a block; exhaustive assignment search for selected lengths around the padding boundaries");
    c.case("reference", |_| {
        ensure!(big::hexb(&reference::hash(b"abc", true)) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "reference digest of abc is {}", big::hexb(&reference::hash(b"abc", true)));
        ensure!(big::hexb(&reference::hash(b"", true)) == "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "reference digest of the empty string");
        Ok(())
    });
    field::<Fp>(&mut c, "Fp", true);
    field::<Fq>(&mut c, "Fq", false);
    ensure_complete(&mut c);
    c.finish()
}
