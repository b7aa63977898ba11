//! G05: 64-bit words.
use halo::{Boolean, ConstraintSystem, Field, Fp, Fq, UInt64};
use halo_mc::gad::*;
use halo_mc::r1cs::*;
use halo_mc::*;

/// kind 0 constant, 1 allocated word, 2 from allocated bits, 3 from negated bits, 4 mixed bits
fn word<F: Field>(g: &mut G<F>, kind: u8, v: u64) -> UInt64 {
    match kind {
        0 => UInt64::constant(v),
        1 => {
            let o = g.opt(v);
            UInt64::alloc(&mut g.cs, o).unwrap()
        }
        _ => {
            let b: Vec<Boolean> = (0..64)
                .map(|i| {
                    let k = match kind {
                        2 => 1,
                        3 => 2,
                        _ => (i % 3) as u8,
                    };
                    g.boolean(k, (v >> i) & 1 == 1)
                })
                .collect();
            UInt64::from_bits(&b)
        }
    }
}
fn bits_of<F: Field>(v: u128, n: usize) -> Vec<F> {
    (0..n).map(|i| F::from((v >> i) & 1 == 1)).collect()
}

fn conv<F: Field>(v: u64, kind: u8) -> Result<(), String> {
    let mut want = bits_of::<F>(v as u128, 64);
    want.push(F::from_u64(v));
    gadget::<F>(&format!("conversion of {:#x} kind {}", v, kind), Expect::Is(want), &|g| {
        let w = word(g, kind, v);
        g.cs.fix();
        let lc = w.lc::<F, Rec<F>>();
        // through a round trip as well
        let bits = UInt64::from_bits(&w.into_bits()).into_bits();
        let mut o: Vec<Out<F>> = bits.iter().map(|b| g.out_bool(b)).collect();
        let val = if g.is_blank() { None } else { Some(F::from_u64(v)) };
        o.push((lc, val));
        Ok(o)
    })?;
    Ok(())
}

fn mac<F: Field>(w: [u64; 4], k: [u8; 4]) -> Result<(), String> {
    let r = (w[0] as u128) * (w[1] as u128) + w[2] as u128 + w[3] as u128;
    gadget::<F>(&format!("{:#x} * {:#x} + {:#x} + {:#x} kinds {:?}", w[0], w[1], w[2], w[3], k), Expect::Is(bits_of(r, 128)), &|g| {
        let o: Vec<UInt64> = (0..4).map(|i| word(g, k[i], w[i])).collect();
        g.cs.fix();
        let (lo, hi) = o[0].mul_acc2(&mut g.cs, &o[1], &o[2], &o[3])?;
        let (lo, hi) = (lo.into_bits(), hi.into_bits());
        Ok(lo.iter().chain(&hi).map(|b| g.out_bool(b)).collect())
    })?;
    Ok(())
}
/// Two steps of a multi-word product: results feed the next call.
fn chain<F: Field>(w: [u64; 4]) -> Result<(), String> {
    let r1 = (w[0] as u128) * (w[1] as u128) + w[2] as u128 + w[3] as u128;
    let (l, h) = (r1 as u64, (r1 >> 64) as u64);
    let r2 = (l as u128) * (w[0] as u128) + h as u128 + w[1] as u128;
    gadget::<F>(&format!("chained product of {:x?}", w), Expect::Is(bits_of(r2, 128)), &|g| {
        let o: Vec<UInt64> = (0..4).map(|i| word(g, 1, w[i])).collect();
        g.cs.fix();
        let (lo, hi) = o[0].mul_acc2(&mut g.cs, &o[1], &o[2], &o[3])?;
        let (lo, hi) = lo.mul_acc2(&mut g.cs, &o[0], &hi, &o[1])?;
        let (lo, hi) = (lo.into_bits(), hi.into_bits());
        Ok(lo.iter().chain(&hi).map(|b| g.out_bool(b)).collect())
    })?;
    Ok(())
}

fn field<F: Field>(c: &mut Ctx, name: &str, full: bool, part: usize) {
    let mut ws = vec![0u64, 1, 2, 3, !0, !1, 1 << 63, (1 << 63) - 1, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0xdead_beef_0bad_cafe, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa];
    for i in 0..64 {
        ws.push(1 << i);
        ws.push(!(1 << i));
        ws.push((1u64 << i).wrapping_sub(1));
    }
    ws.sort();
    ws.dedup();
    c.case(&format!("{} conversions", name), |c| {
        c.sample(format!("{} words in 5 representations", ws.len()));
        par(&ws, |v| (0..5).try_for_each(|k| conv::<F>(*v, k))).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    let core = [0u64, 1, 2, !0, !1, 1 << 63, 0xffff_ffff, 0x1_0000_0000, 0xdead_beef_0bad_cafe];
    c.case(&format!("{} products", name), |c| {
        let mut items = vec![];
        for a in &core {
            for b in &core {
                for d in if part == 1 || full { vec![0, 1, !0, 1 << 63] } else { vec![0, !0] } {
                    for e in [0, 1, !0] {
                        items.push(([*a, *b, d, e], [1, 1, 1, 1]));
                    }
                }
            }
        }
        let step = if full { 1 } else { 4 };
        for (i, a) in ws.iter().enumerate() {
            for (j, b) in ws.iter().enumerate() {
                if (i * 7 + j) % step == 0 && (full || i % (7 * part) == j % (7 * part)) {
                    items.push(([*a, *b, ws[(i + j) % ws.len()], ws[(i * j) % ws.len()]], [1, 1, 1, 1]));
                }
            }
        }
        for k in (0..5u32.pow(4)).step_by(if full { 1 } else { part }) {
            let ks = [(k % 5) as u8, (k / 5 % 5) as u8, (k / 25 % 5) as u8, (k / 125) as u8];
            items.push(([0xdead_beef_0bad_cafe, !0, 0x5555_5555_5555_5555, 1 << 63 | 1], ks));
            if full {
                items.push(([!0; 4], ks));
                items.push(([0; 4], ks));
            }
        }
        c.sample(format!("{} multiply-accumulate operand tuples", items.len()));
        par(&items, |(w, k)| mac::<F>(*w, *k)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} chained products", name), |_| {
        let mut items = vec![];
        for a in &core {
            for b in &core {
                items.push([*a, *b, !0, !0]);
                items.push([*a, *b, *b, 0]);
            }
        }
        par(&items, |w| chain::<F>(*w)).into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    // moving any single result or operand bit must break the constraints
    c.case(&format!("{} bit flips", name), |_| {
        for w in [[0xdead_beef_0bad_cafeu64, 0x0123_4567_89ab_cdef, 0x5555_5555_5555_5555, 1 << 63 | 1], [!0; 4], [0; 4]] {
            let mut g = G::<F>::new(false);
            let o: Vec<UInt64> = (0..4).map(|i| word(&mut g, 1, w[i])).collect();
            let (lo, hi) = o[0].mul_acc2(&mut g.cs, &o[1], &o[2], &o[3]).map_err(|e| format!("{:?}", e))?;
            g.cs.honest()?;
            for b in o.iter().cloned().chain([lo, hi]).flat_map(|x| x.into_bits()) {
                let (lc, v) = g.out_bool(&b);
                let var = lc.as_ref()[0].0;
                let v = v.unwrap();
                g.cs.set(var, F::one() - v);
                ensure!(g.cs.honest().is_err(), "{} bit flip accepted", name);
                g.cs.set(var, v);
                states(1);
                transitions(1);
            }
            g.cs.honest()?;
        }
        Ok(())
    });
    let _ = <Rec<F> as ConstraintSystem<F>>::ONE;
}

fn main() {
    let mut c = Ctx::new("G05", "model_checking");
    c.rule("a state is a node of the search for satisfying assignments of the constraints emitted for a word operation with operands fixed; each must carry the bits of the exact integer result");
    c.bound("operands: 0, extremes, all powers of two, their complements and predecessors, alternating patterns; every representation of every operand");
    let t = c.thorough;
    field::<Fp>(&mut c, "Fp", t, 1);
    field::<Fq>(&mut c, "Fq", t, 3);
    ensure_complete(&mut c);
    c.finish()
}
