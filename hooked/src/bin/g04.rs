//! G04: 32-bit words (needs the hook that exports the word type).
use halo::{Boolean, ConstraintSystem, Field, Fp, Fq, UInt32};
use halo_mc::gad::*;
use halo_mc::r1cs::*;
use halo_mc::*;

fn word<F: Field>(g: &mut G<F>, kind: u8, v: u32) -> UInt32 {
    match kind {
        0 => UInt32::constant(v),
        1 => {
            let o = g.opt(v);
            UInt32::alloc(&mut g.cs, o).unwrap()
        }
        _ => {
            let mut b: Vec<Boolean> = (0..32)
                .map(|i| {
                    let k = match kind {
                        2 => 1,
                        3 => 2,
                        _ => (i % 3) as u8,
                    };
                    g.boolean(k, (v >> i) & 1 == 1)
                })
                .collect();
            if kind == 2 {
                b.reverse();
                UInt32::from_bits_be(&b)
            } else {
                UInt32::from_bits(&b)
            }
        }
    }
}
fn bits_of<F: Field>(v: u32) -> Vec<F> {
    (0..32).map(|i| F::from((v >> i) & 1 == 1)).collect()
}
fn outs<F: Field>(g: &mut G<F>, w: UInt32) -> Vec<Out<F>> {
    w.into_bits().iter().map(|b| g.out_bool(b)).collect()
}
/// Result bits, and a sum with the result as operand (which uses its claimed value).
fn used<F: Field>(g: &mut G<F>, w: UInt32) -> Res<Vec<Out<F>>> {
    let s = UInt32::addmany(&mut g.cs, &[w.clone(), UInt32::constant(0x8000_0001)])?;
    let mut o = outs(g, w);
    o.extend(outs(g, s));
    Ok(o)
}
fn want<F: Field>(v: u32) -> Vec<F> {
    let mut w = bits_of(v);
    w.extend(bits_of::<F>(v.wrapping_add(0x8000_0001)));
    w
}

fn unary<F: Field>(v: u32, kind: u8) -> Result<(), String> {
    let what = |s: &str| format!("{} of {:#x} kind {}", s, v, kind);
    gadget::<F>(&what("conversion"), Expect::Is(want(v)), &|g| {
        let w = word(g, kind, v);
        g.cs.fix();
        let w = UInt32::from_bits_be(&UInt32::from_bits(&w.into_bits()).into_bits_be());
        used(g, w)
    })?;
    for by in 0..64usize {
        gadget::<F>(&what(&format!("rotation by {}", by)), Expect::Is(want(v.rotate_right(by as u32 % 32))), &|g| {
            let w = word(g, kind, v);
            g.cs.fix();
            let r = w.rotr(by);
            used(g, r)
        })?;
        if by < 32 {
            gadget::<F>(&what(&format!("shift by {}", by)), Expect::Is(want(v >> by)), &|g| {
                let w = word(g, kind, v);
                g.cs.fix();
                let r = w.shr(by);
                used(g, r)
            })?;
        }
    }
    Ok(())
}
fn bitwise<F: Field>(w: [u32; 3], k: [u8; 3]) -> Result<(), String> {
    let [a, b, c] = w;
    let what = |s: &str| format!("{} of {:x?} kinds {:?}", s, w, k);
    for op in 0..3 {
        if op == 0 && k[2] != 0 {
            continue;
        }
        let v = [a ^ b, (a & b) ^ (a & c) ^ (b & c), (a & b) ^ (!a & c)][op];
        gadget::<F>(&what(["xor", "majority", "choice"][op]), Expect::Is(want(v)), &|g| {
            let o: Vec<UInt32> = (0..3).map(|i| word(g, k[i], w[i])).collect();
            g.cs.fix();
            let r = match op {
                0 => o[0].xor(&mut g.cs, &o[1])?,
                1 => UInt32::sha256_maj(&mut g.cs, &o[0], &o[1], &o[2])?,
                _ => UInt32::sha256_ch(&mut g.cs, &o[0], &o[1], &o[2])?,
            };
            used(g, r)
        })?;
    }
    Ok(())
}
fn sum<F: Field>(w: &[u32], k: &[u8]) -> Result<(), String> {
    let v = w.iter().fold(0u32, |a, b| a.wrapping_add(*b));
    gadget::<F>(&format!("sum of {:x?} kinds {:?}", w, k), Expect::Is(want(v)), &|g| {
        let o: Vec<UInt32> = (0..w.len()).map(|i| word(g, k[i], w[i])).collect();
        g.cs.fix();
        let r = UInt32::addmany(&mut g.cs, &o)?;
        used(g, r)
    })?;
    Ok(())
}

fn field<F: Field>(c: &mut Ctx, name: &str) {
    let th = c.thorough;
    let mut ws = vec![0u32, 1, !0, 0xdead_beef, 0x5555_5555, 0xaaaa_aaaa, 0x0f0f_f0f0];
    for i in 0..32 {
        ws.push(1 << i);
        ws.push(!(1 << i));
        ws.push((1u32 << i).wrapping_sub(1));
    }
    ws.sort();
    ws.dedup();
    let all = |r: Vec<Result<(), String>>| r.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ());
    c.case(&format!("{} conversions, rotations, shifts", name), |c| {
        c.sample(format!("{} words, all rotations and shifts", ws.len()));
        let few: Vec<u32> = if th { ws.clone() } else { vec![0, !0, 1, 1 << 31, 0xdead_beef, 0x5555_5555] };
        let items: Vec<_> = few.iter().flat_map(|v| (0..5).map(move |k| (*v, k))).collect();
        all(par(&items, |(v, k)| unary::<F>(*v, *k)))
    });
    c.case(&format!("{} bitwise", name), |c| {
        c.sample("all 8 operand-bit combinations at every position in all 125 kind combinations");
        let mut items = vec![];
        for k in 0..125u32 {
            let k = [(k % 5) as u8, (k / 5 % 5) as u8, (k / 25) as u8];
            for r in 0..if th { 8 } else { 2 } {
                items.push(([0xf0f0_f0f0u32.rotate_left(r), 0xcccc_ccccu32.rotate_left(r), 0xaaaa_aaaau32.rotate_left(r)], k));
            }
        }
        for r in 0..8 {
            items.push(([0xf0f0_f0f0u32.rotate_left(r), 0xcccc_ccccu32.rotate_left(r), 0xaaaa_aaaau32.rotate_left(r)], [1, 1, 1]));
        }
        all(par(&items, |(w, k)| bitwise::<F>(*w, *k)))
    });
    c.case(&format!("{} sums", name), |c| {
        let mut items: Vec<(Vec<u32>, Vec<u8>)> = vec![];
        // two operands: every pair of carry patterns
        for a in &ws {
            for b in &ws {
                if th || *a == *b || b.count_ones() <= 1 && a.count_zeros() <= 1 || a.wrapping_add(*b) == 0 {
                    items.push((vec![*a, *b], vec![1, 1]));
                }
            }
        }
        for n in 2..=10usize {
            for x in [0u32, 1, !0, 1 << 31, 0x5555_5555, !0 - 1] {
                for y in [0u32, 1, !0] {
                    let mut w = vec![x; n];
                    w[n / 2] = y;
                    items.push((w.clone(), vec![1; n]));
                    // one operand of each other kind in each position
                    for p in 0..n {
                        for k in [0u8, 3, 4] {
                            if th || (x == !0 && y == 1) {
                                let mut ks = vec![1; n];
                                ks[p] = k;
                                items.push((w.clone(), ks));
                            }
                        }
                    }
                    items.push((w.clone(), vec![0; n]));
                    let mut ks = vec![0; n];
                    ks[n - 1] = 3;
                    items.push((w, ks));
                }
            }
            // all kind combinations of the first three operands
            for k in 0..125u32 {
                let mut w = vec![!0u32; n];
                w[0] = 0xdead_beef;
                let mut ks = vec![0u8; n];
                ks[0] = (k % 5) as u8;
                ks[1] = (k / 5 % 5) as u8;
                if n > 2 {
                    ks[2] = (k / 25) as u8;
                } else if k >= 25 {
                    continue;
                }
                if n < 4 || th {
                    items.push((w, ks));
                }
            }
        }
        // the same wires in several operands
        c.sample(format!("{} sums of 2 to 10 operands", items.len()));
        all(par(&items, |(w, k)| sum::<F>(w, k)))
    });
    c.case(&format!("{} repeated operands", name), |_| {
        for v in [0u32, 1, !0, 1 << 31, 0xdead_beef] {
            for n in 2..=10usize {
                for kind in 0..5 {
                    gadget::<F>(&format!("{} copies of {:#x} kind {}", n, v, kind), Expect::Is(want(v.wrapping_mul(n as u32))), &|g| {
                        let w = word(g, kind, v);
                        g.cs.fix();
                        let r = UInt32::addmany(&mut g.cs, &vec![w; n])?;
                        used(g, r)
                    })?;
                }
            }
            for kind in 0..5 {
                gadget::<F>(&format!("self operations of {:#x} kind {}", v, kind), Expect::Is([want::<F>(0), want(v), want(v)].concat()), &|g| {
                    let w = word(g, kind, v);
                    g.cs.fix();
                    let x = w.xor(&mut g.cs, &w)?;
                    let m = UInt32::sha256_maj(&mut g.cs, &w, &w, &w)?;
                    let h = UInt32::sha256_ch(&mut g.cs, &w, &w, &w)?;
                    let mut o = used(g, x)?;
                    o.extend(used(g, m)?);
                    o.extend(used(g, h)?);
                    Ok(o)
                })?;
            }
        }
        Ok(())
    });
    let _ = <Rec<F> as ConstraintSystem<F>>::ONE;
}

fn main() {
    let mut c = Ctx::new("G04", "model_checking");
    c.rule("a state is a node of the search for satisfying assignments of the constraints emitted for a word operation with operands fixed; each must carry the bits of the 32-bit result, and of its sum with a constant");
    c.bound("operands: 0, extremes, all powers of two, complements, predecessors, patterns with all bit combinations at all positions; all representations; 2..10 summands");
    field::<Fp>(&mut c, "Fp");
    field::<Fq>(&mut c, "Fq");
    ensure_complete(&mut c);
    c.finish()
}
