//! G02: bit decomposition.
use halo::{unpack_fe, Coeff, ConstraintSystem, Field, Fp, Fq, LinearCombination, Num};
use halo_mc::big::*;
use halo_mc::gad::*;
use halo_mc::r1cs::*;
use halo_mc::realf::*;
use halo_mc::*;
use std::sync::Mutex;

fn one<F: RealField>(v: &U256, kind: u8, noncanon: &Mutex<Vec<String>>) -> Result<(), String> {
    let x: F = of(v);
    let what = format!("unpack of {} ({} kind {})", hex(v), F::NAME, kind);
    let bits = |w: &U256| -> Vec<F> { (0..256).map(|i| F::from((w[i / 64] >> (i % 64)) & 1 == 1)).collect() };
    let want = bits(v);
    // all representations of v below 2^256 other than the canonical one
    let mut others = vec![];
    let mut t = *v;
    loop {
        let s = add256(&t, &F::M);
        if s[4] != 0 {
            break;
        }
        t = [s[0], s[1], s[2], s[3]];
        others.push(bits(&t));
    }
    let found = std::cell::Cell::new(0u32);
    let ok = |o: &[F]| {
        if o == &want[..] {
            return true;
        }
        if others.iter().any(|w| o == &w[..]) {
            found.set(found.get() + 1);
            return true;
        }
        false
    };
    gadget::<F>(&what, Expect::Where(&ok), &|g| {
        let n = g.anum(kind, x);
        g.cs.fix();
        let b = unpack_fe(&mut g.cs, &n)?;
        // the honest bits are the canonical ones
        if !g.is_blank() {
            for (i, b) in b.iter().enumerate() {
                assert!(b.get_value().map(F::from) == Some(want[i]), "bit {} of {}", i, hex(v));
            }
        }
        Ok(b.iter().map(|b| g.out_bit(b)).collect())
    })?;
    if found.get() > 0 {
        noncanon.lock().unwrap().push(format!("{}: {} other decompositions are accepted", what, found.get()));
    }
    Ok(())
}

fn field<F: RealField>(c: &mut Ctx) {
    let mut vals = landmarks::<F>();
    let step = c.tier(6, 1);
    vals = vals.into_iter().step_by(step).collect();
    for k in 0..4u64 {
        vals.push([k, 0, 0, 0]);
        vals.push(negmod(&[k + 1, 0, 0, 0], &F::M));
    }
    let nc = Mutex::new(vec![]);
    c.case(&format!("{} decomposition", F::NAME), |c| {
        c.sample(format!("{} values of {}: {} ... {}", vals.len(), F::NAME, hex(&vals[0]), hex(&vals[vals.len() - 1])));
        let rs = par(&vals, |v| {
            for kind in 0..3 {
                one::<F>(v, kind, &nc)?;
            }
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    // every sum of bits with some weight pattern that is not the decomposition
    // of the number must be rejected: move the number instead of the bits
    c.case(&format!("{} decomposition of another number", F::NAME), |_| {
        for v in vals.iter().step_by(7) {
            for delta in 0..255 {
                let mut d = [0u64; 4];
                d[delta / 64] = 1 << (delta % 64);
                let w = addmod(v, &d, &F::M);
                let mut g = G::<F>::new(false);
                let n = g.num(of(v));
                let b = unpack_fe(&mut g.cs, &Num::from(n)).map_err(|e| format!("{:?}", e))?;
                let mut lc = LinearCombination::zero();
                let mut p = F::one();
                for x in &b {
                    lc = lc + (Coeff::Full(p), x.get_variable());
                    p = p + p;
                }
                ensure!(g.cs.honest().is_ok() && g.cs.eval(&lc) == Some(of(v)), "{}: bits of {} do not sum to it", F::NAME, hex(v));
                g.cs.set(n.get_variable(), of(&w));
                ensure!(g.cs.honest().is_err(), "{}: the bits of {} are accepted for {}", F::NAME, hex(v), hex(&w));
                states(1);
                transitions(1);
            }
        }
        Ok(())
    });
    let nc = nc.into_inner().unwrap();
    if let Some(m) = nc.first() {
        c.fail(&format!("noncanonical-{}", F::NAME), m.clone());
    }
    let _ = <Rec<F> as ConstraintSystem<F>>::ONE;
}

fn main() {
    let mut c = Ctx::new("G02", "model_checking");
    c.rule("a state is a node of the search for satisfying assignments of the decomposition constraints with the number fixed: all 0/1 assignments of the 256 bits are covered by the subset-sum enumeration");
    c.bound("numbers: zero, one, powers of two, their negations and neighbours, the neighbourhood of the modulus; constant, allocated and scaled operands");
    field::<Fp>(&mut c);
    field::<Fq>(&mut c);
    ensure_complete(&mut c);
    c.finish()
}
