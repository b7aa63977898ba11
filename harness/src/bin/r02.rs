//! R02: the sponge in circuits against the native sponge.
use halo::rescue::Rescue;
use halo::{Field, Fp, Fq, Num, RescueGadget};
use halo_mc::gad::*;
use halo_mc::tiny::T;
use halo_mc::*;

fn all<T>(r: Vec<Result<T, String>>) -> Result<(), String> {
    r.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
}
/// `hist`: 'a' absorbs, 's' squeezes. `kind`: constant, allocated, scaled, mixed.
fn one<F: Field>(name: &str, hist: &str, kind: u8, sound: bool, value: &dyn Fn(u64) -> F) -> Result<(), String> {
    let n = hist.chars().filter(|c| *c == 'a').count() as u64;
    let vals: Vec<F> = (0..n).map(value).collect();
    let mut native = Rescue::new();
    let mut want = vec![];
    let mut i = 0;
    for c in hist.chars() {
        if c == 'a' {
            native.absorb(vals[i]);
            i += 1;
        } else {
            want.push(native.squeeze());
        }
    }
    let what = format!("{} history {} kind {}", name, hist, kind);
    gadget_with::<F>(&what, Expect::Is(want), sound, &|g| {
        let ins: Vec<Num<F>> = vals.iter().enumerate().map(|(i, v)| g.anum(if kind == 3 { (i % 3) as u8 } else { kind }, *v)).collect();
        g.cs.fix();
        let mut s = RescueGadget::new(&mut g.cs)?;
        let mut out = vec![];
        let mut i = 0;
        for c in hist.chars() {
            if c == 'a' {
                s.absorb(&mut g.cs, ins[i])?;
                i += 1;
            } else {
                let x = s.squeeze(&mut g.cs)?;
                out.push(g.out_anum(&x));
            }
        }
        Ok(out)
    })?;
    states(1);
    transitions(hist.len() as u64 + 1);
    Ok(())
}
fn hist(runs: &[usize]) -> String {
    runs.iter().enumerate().map(|(i, n)| (if i % 2 == 0 { "a" } else { "s" }).repeat(*n)).collect()
}
/// every combination of run lengths, ending in a squeeze
fn combos(lens: &[usize], phases: usize) -> Vec<String> {
    let mut v = vec![];
    for j in 0..lens.len().pow(phases as u32) {
        let mut k = j;
        let r: Vec<usize> = (0..phases)
            .map(|_| {
                let x = lens[k % lens.len()];
                k /= lens.len();
                x
            })
            .collect();
        v.push(hist(&r) + "s");
    }
    v.sort();
    v.dedup();
    v
}
fn sequences(depth: u32) -> Vec<String> {
    (0..1u32 << depth).map(|m| (0..depth).map(|i| if (m >> i) & 1 == 1 { 'a' } else { 's' }).collect::<String>() + "s").collect()
}
fn group<F: Field>(c: &mut Ctx, name: &str, sound: bool, hs: &[String], kinds: &[u8], value: impl Fn(u64) -> F + Sync) {
    c.case(&format!("{} {} histories{}", name, hs.len(), if sound { ", every assignment" } else { "" }), |c| {
        c.sample(format!("{}: histories such as {:?}, operand kinds {:?}", name, hs.iter().take(3).collect::<Vec<_>>(), kinds));
        let jobs: Vec<(String, u8)> = hs.iter().flat_map(|h| kinds.iter().map(move |k| (h.clone(), *k))).collect();
        all(par(&jobs, |(h, k)| one::<F>(name, h, *k, sound, &value)))
    });
}

fn main() {
    let mut c = Ctx::new("R02", "model_checking");
    c.rule("a state is a history of absorbs and squeezes (and, for soundness, an assignment of the emitted constraint system); the outputs must be those of the native sponge in every satisfying assignment");
    c.bound("every assignment of the emitted constraints over F7, F13, F103 for run lengths around the rate in 3 (4) phases and every sequence to depth 6 (11), and over Fp, Fq for run lengths in 3 phases");
    c.assume("the native sponge is decided by R01");
    let th = c.thorough;
    let h1 = combos(if th { &[0, 1, 2, 11, 12, 13, 24, 25] } else { &[0, 1, 2, 11, 12, 13, 25] }, if th { 4 } else { 3 });
    let h2 = sequences(if th { 11 } else { 6 });
    group::<T<7, 0>>(&mut c, "F7", true, &h1, &[3], |i| T((i * i * 2 + i + 1) % 7));
    group::<T<7, 0>>(&mut c, "F7", true, &h2, &[0, 1, 2], |i| T((i * 3 + 2) % 7));
    group::<T<13, 0>>(&mut c, "F13", true, &h2, &[1, 3], |i| T((i * 5 + 2) % 13));
    let h3: Vec<String> = ["aaas", "as", "s", "aaaaaaaaaaaaas"].iter().map(|s| s.to_string()).collect();
    group::<T<103, 0>>(&mut c, "F103", true, &h3, &[1, 2], |i| T((i * 45 + 77) % 103));
    // every value of one element
    c.case("F13 every value", |_| {
        let jobs: Vec<u64> = (0..13 * 3).collect();
        all(par(&jobs, |v| one::<T<13, 0>>("F13", "aas", 1, true, &|i| if i == v / 13 { T(v % 13) } else { T(4) })))
    });
    fn val<F: Field>(i: u64) -> F {
        match i % 5 {
            0 => F::from_u64(i) - F::from_u64(3),
            1 => F::ALPHA * F::from_u64(i + 1),
            2 => F::zero(),
            3 => -F::one(),
            _ => F::BETA + F::from_u64(i),
        }
    }
    let h4 = combos(if th { &[0, 1, 2, 11, 12, 13, 25] } else { &[0, 1, 12, 13] }, 3);
    group::<Fp>(&mut c, "Fp", true, &h4, &[3], val::<Fp>);
    group::<Fq>(&mut c, "Fq", true, &h4, &[3], val::<Fq>);
    group::<Fp>(&mut c, "Fp", false, &h2, &[0, 1, 2], val::<Fp>);
    group::<Fq>(&mut c, "Fq", false, &h2, &[0, 1, 2], val::<Fq>);
    halo_mc::r1cs::ensure_complete(&mut c);
    c.finish()
}
