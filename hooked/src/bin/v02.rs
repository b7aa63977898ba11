//! V02: the recursive statement is bound to its payload and history.
use halo::*;
use halo_mc::dlog::D;
use halo_mc::proofref::{fixed_params, name, parts, slot, start, Slot};
use halo_mc::*;
use halo_mc_hooked::*;
use std::sync::Mutex;

// ------------------------------------------------- the circuit, small

fn run<E1, E2>(what: &str, c: &Case<E1, E2>, w: &World<E1, E2>, want: bool) -> Result<(), String>
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    let r = c.satisfied(&w.params).map_err(|e| format!("{}: {}", what, e))?;
    states(1);
    validated(1);
    match (r, want) {
        (Err(m), true) => Err(format!("{}: the circuit is not satisfied: {}", what, m)),
        (Ok(()), false) => Err(format!("{}: the circuit is satisfied", what)),
        _ => Ok(()),
    }
}
/// Repairs per search.
const LIMIT: u64 = 4000;
/// Searches for other witnesses of false statements.
fn attack<E1, E2>(jobs: &[(String, Case<E1, E2>)], truth: &Case<E1, E2>, w: &World<E1, E2>) -> Result<(), String>
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    let truth = truth.record(&w.params)?;
    par(jobs, |(what, c)| {
        let mut spent = Spent::default();
        let found = c.attack(&truth, &w.params, LIMIT, &mut spent).map_err(|e| format!("{}: {}", what, e))?;
        states(spent.starts);
        match found {
            Some(how) => Err(format!("{}: there is a witness: {}", what, how)),
            None => Ok(()),
        }
    })
    .into_iter()
    .collect()
}
fn circuit<E1, E2>(c: &mut Ctx, nm: &str, salt: u64)
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    let w = World::<E1, E2>::new(salt);
    let th = c.thorough;
    c.case(&format!("{}: base case", nm), |c| {
        let f = w.first();
        run(&format!("{}: first step", nm), &f, &w, true)?;
        // what the first step does not determine
        for i in 0..4 {
            let mut f = w.first();
            match i {
                0 => f.new = w.old.clone(),
                1 => f.l1 = w.l1.clone(),
                2 => f.deferred.b_x = E2::Scalar::from_u64(77),
                _ => f.forks = vec![9; 4],
            }
            // only that it does not fail for another reason than its claim
            run(&format!("{}: first step with other state {}", nm, i), &f, &w, true)?;
        }
        // claimed for any other payload, by a step that has a previous proof
        let h = w.later(0x6c);
        let mut jobs: Vec<(String, Case<E1, E2>, bool)> = vec![];
        for p in 0..=255u8 {
            let mut b = h.clone();
            b.base = Some(true);
            b.old_payload = p;
            b.new_payload = step(p);
            jobs.push((format!("{}: base case claimed after payload {:#x}", nm, p), b, p == BASE));
        }
        // first steps to payloads the application does not allow
        for i in 0..8 {
            let mut f = w.first();
            f.new_payload ^= 1 << i;
            jobs.push((format!("{}: first step to payload {:#x}", nm, f.new_payload), f, false));
        }
        // a base case may not carry wrong deferred data
        let mut f = h.clone();
        f.base = Some(true);
        f.old_payload = BASE;
        f.new_payload = step(BASE);
        f.old_deferred.b_x = f.old_deferred.b_x + E1::Scalar::one();
        jobs.push((format!("{}: base case with wrong deferred data", nm), f, false));
        // a later step without a previous proof
        let mut f = w.first();
        f.base = Some(false);
        jobs.push((format!("{}: later step without a previous proof", nm), f, false));
        let n = par(&jobs, |(what, c, want)| run(what, c, &w, *want)).into_iter().collect::<Result<Vec<_>, String>>()?.len();
        c.sample(format!("{}: {} claimed base cases", nm, n));
        // other witnesses; the proof must not make it a true later step
        let mut t = h.clone();
        t.base = Some(true);
        t.old_payload = BASE;
        t.new_payload = step(BASE);
        t.new.y_new = t.new.y_new + E2::Scalar::from_u64(4);
        t.deferred.x = t.deferred.x + E2::Scalar::from_u64(4);
        let ps: Vec<u8> = if th { (0..=255).filter(|p| *p != BASE).collect() } else { (0..8).map(|i| BASE ^ 1 << i).chain([!BASE]).collect() };
        let mut jobs = vec![];
        for p in ps {
            let mut b = t.clone();
            b.old_payload = p;
            b.new_payload = step(p);
            jobs.push((format!("{}: base case claimed after payload {:#x}", nm, p), b.clone()));
            b.old_payload = BASE;
            jobs.push((format!("{}: base case claimed to payload {:#x}", nm, b.new_payload), b));
        }
        attack(&jobs, &t, &w)?;
        let mut jobs = vec![];
        for i in 0..8 {
            let mut f = w.first();
            f.new_payload ^= 1 << i;
            jobs.push((format!("{}: first step to payload {:#x}", nm, f.new_payload), f));
        }
        attack(&jobs, &w.first(), &w)?;
        Ok(())
    });
    c.case(&format!("{}: payloads", nm), |c| {
        let mut n = 0;
        for p in [0x6cu8, BASE] {
            let mut jobs: Vec<(String, Case<E1, E2>)> = vec![];
            let h = w.later(p);
            let ds: Vec<u8> = if th { (1..=255).collect() } else { (0..8).map(|i| 1 << i).collect() };
            for d in ds {
                // to another payload
                let mut b = h.clone();
                b.new_payload ^= d;
                jobs.push((format!("{}: {:#x} to {:#x}", nm, p, b.new_payload), b));
                if th && d.count_ones() > 2 || p == BASE {
                    continue;
                }
                // from another payload than was proved
                let mut b = h.clone();
                b.old_payload ^= d;
                b.new_payload = step(b.old_payload);
                jobs.push((format!("{}: from {:#x}, the proof is of {:#x}", nm, b.old_payload, p), b));
            }
            n += par(&jobs, |(what, c)| run(what, c, &w, false)).into_iter().collect::<Result<Vec<_>, String>>()?.len();
            attack(&jobs, &h, &w)?;
        }
        c.sample(format!("{}: {} wrong payloads, all rejected", nm, n));
        Ok(())
    });
}

/// The group the large runs use is the production curve's.
fn model<C: Curve>(c: &mut Ctx, nm: &str)
where
    D<C>: Curve<Scalar = C::Scalar, Base = C::Base>,
{
    c.case(&format!("{}: logarithms in place of points", nm), |_| {
        let p: Params<C> = fixed_params(4, 3);
        let q: Params<D<C>> = known_params(4, 3);
        ensure!(p.generators_xy == q.generators_xy, "{}: other generators", nm);
        let v = [2, 3, 4].map(C::Scalar::from_u64);
        let (mut l, mut m) = (start(&p), start(&q));
        for i in 0..3 {
            let (a, al) = Proof::new::<_, Basic>(&p, &Carrier(v.to_vec(), true), &l).unwrap();
            let (b, bl) = Proof::new::<_, Basic>(&q, &Carrier(v.to_vec(), true), &m).unwrap();
            ensure!(al.to_bytes() == bl.to_bytes(), "{}: proof {}: other leftovers", nm, i);
            let x = a.verify::<_, Basic>(&l, &p, &Carrier(v.to_vec(), false), &v, None).unwrap();
            let y = b.verify::<_, Basic>(&m, &q, &Carrier(v.to_vec(), false), &v, None).unwrap();
            ensure!(x.0 && y.0 && x.1.to_bytes() == y.1.to_bytes() && x.2.to_bytes() == y.2.to_bytes() && x.3 == y.3, "{}: proof {}: the verifiers differ", nm, i);
            for part in parts(4) {
                let (mut a, mut b) = (a.clone(), b.clone());
                let same = match (slot(&mut a, part), slot(&mut b, part)) {
                    (Slot::P(a), Slot::P(b)) => a.to_bytes() == b.to_bytes(),
                    (Slot::S(a), Slot::S(b)) => a == b,
                    _ => false,
                };
                ensure!(same, "{}: proof {}: {} differs", nm, i, name(part));
                states(1);
            }
            validated(1);
            transitions(1);
            (l, m) = (al, bl);
        }
        Ok(())
    });
}
/// The generators of `fixed_params`, as logarithms.
fn known_params<C: Curve>(k: usize, salt: u64) -> Params<D<C>>
where
    D<C>: Curve<Scalar = C::Scalar, Base = C::Base>,
{
    let d = 1 << k;
    let mut s = C::Scalar::from_u64(5 + salt);
    let mut generators = vec![];
    for _ in 0..d {
        generators.push(D::Known(s));
        s = s * C::Scalar::from_u64(7) + C::Scalar::one();
    }
    let generators_xy = generators.iter().map(|g: &D<C>| g.get_xy().unwrap()).collect();
    Params { g: D::Known(C::Scalar::one()), d, n: d / 4, k, generators, generators_xy }
}

// ------------------------------------------------- whole recursion

const K: usize = 22;
fn large<C: Curve>(salt: u64) -> Params<D<C>>
where
    D<C>: Curve<Scalar = C::Scalar, Base = C::Base>,
{
    let d = 1usize << K;
    let mut s = C::Scalar::from_u64(5 + salt);
    let m = C::Scalar::from_u128(0x1234_5678_9abc_def1_1357_9bdf_0246_8ace);
    let mut generators = Vec::with_capacity(d);
    for _ in 0..d {
        s = s * s + m;
        generators.push(D::Known(s));
    }
    // one per bit of the statement
    let n = 8 + 2 * (1024 + 128 * (K + 1)) + 12 * 256 + (4 + 2 * K) * 128 + 2;
    let generators_xy = par(&generators[..n], |g: &D<C>| Ok(g.get_xy().unwrap())).into_iter().map(|x| x.unwrap()).collect();
    Params { g: D::Known(C::Scalar::one()), d, n: d / 4, k: K, generators, generators_xy }
}
/// As `par`, a few at a time.
fn few<T: Sync, R: Send>(n: usize, items: &[T], f: impl Fn(&T) -> Result<R, String> + Sync) -> Vec<Result<R, String>> {
    let next = Mutex::new(0);
    let out: Mutex<Vec<Option<Result<R, String>>>> = Mutex::new(items.iter().map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = {
                        let mut x = next.lock().unwrap();
                        *x += 1;
                        *x - 1
                    };
                    if i >= items.len() {
                        return;
                    }
                    let r = guard2(|| f(&items[i]));
                    out.lock().unwrap()[i] = Some(r);
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

/// The application without its rule.
struct Lawless;
impl<F: Field> RecursiveCircuit<F> for Lawless {
    fn base_payload(&self) -> Vec<bool> {
        <Inner as RecursiveCircuit<F>>::base_payload(&Inner)
    }
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS, _: &[AllocatedBit], new: &[AllocatedBit]) -> Res<()> {
        for b in new.iter().take(8) {
            cs.enforce_zero(LinearCombination::from(b.get_variable()) - b.get_variable());
        }
        Ok(())
    }
}

type E = D<Ec1>;
type O = D<Ec0>;
type P1 = RecursiveProof<E, O>;
type P0 = RecursiveProof<O, E>;

/// First steps that an honest prover does not make. The circuit leaves the new
/// state of a first step to whoever verifies it, so each is wrong in one way only.
fn forge(which: usize, p1: &Params<E>, p0: &Params<O>) -> Result<P1, String> {
    let l1 = Leftovers::dummy(p1);
    let mut new = Leftovers::dummy(p0);
    let mut deferred = Deferred::dummy(K);
    let mut payload = vec![step(BASE)];
    match which {
        0 => {}
        1 => deferred.b_x = deferred.b_x + <O as Curve>::Scalar::one(),
        2 => new.s_new_commitment = new.s_new_commitment + O::one(),
        3 => new.challenges_sq_packed_new[3] = other_challenge(new.challenges_sq_packed_new[3]),
        _ => payload[0] ^= 0x10,
    }
    let forks = vec![0; K];
    let proof = if which == 4 {
        let v = mc::Verifier::<E, O, Lawless> { params: p0, base_case: Some(true), inner_circuit: &Lawless, proof: None, new_payload: &payload, forkvalues: Some(&forks), old_leftovers: Some(l1.clone()), new_leftovers: Some(new.clone()), deferred: Some(deferred.clone()) };
        Proof::new::<_, Basic>(p1, &v, &l1)
    } else {
        let v = mc::Verifier::<E, O, Inner> { params: p0, base_case: Some(true), inner_circuit: &Inner, proof: None, new_payload: &payload, forkvalues: Some(&forks), old_leftovers: Some(l1.clone()), new_leftovers: Some(new.clone()), deferred: Some(deferred.clone()) };
        Proof::new::<_, Basic>(p1, &v, &l1)
    }
    .map_err(|e| format!("{:?}", e))?
    .0;
    Ok(P1::mc_from(mc::Parts { proof, oldproof1: l1, oldproof2: new, deferred, payload }))
}
const FORGED: [&str; 5] = [
    "nothing",
    "carries wrong deferred data",
    "carries a wrong commitment to s(X, y)",
    "carries a wrong generator",
    "has a payload the application does not allow, and is of another application's circuit",
];

type Change<A, B> = (String, Box<dyn Fn(&mut mc::Parts<A, B>) + Sync + Send>);
fn changes<A: Curve + 'static, B: Curve + 'static>(r: &mc::Parts<A, B>, th: bool) -> Vec<Change<A, B>> {
    let mut v: Vec<Change<A, B>> = vec![];
    for i in 0..8 {
        v.push((format!("bit {} of the payload", i), Box::new(move |p| p.payload[0] ^= 1 << i)));
    }
    v.push(("longer payload".into(), Box::new(|p| p.payload.push(0))));
    v.push(("longer payload, at the front".into(), Box::new(|p| p.payload.insert(0, 0))));
    v.push(("empty payload".into(), Box::new(|p| p.payload.clear())));
    let keep = |n: &str| th || n == "s_new" || n == "-g_new" || n == "y_new (bit 2)" || n == "challenge 21 (bit 2)" || n == "challenge 0 (bit 0)";
    for (n, l) in leftover_faults(&r.oldproof1) {
        if keep(&n) {
            v.push((format!("{} of the leftovers it was made with", n), Box::new(move |p| p.oldproof1 = l.clone())));
        }
    }
    for (n, l) in leftover_faults(&r.oldproof2) {
        if keep(&n) {
            v.push((format!("{} of the leftovers it carries", n), Box::new(move |p| p.oldproof2 = l.clone())));
        }
    }
    for (n, f) in deferred_fields::<B::Scalar>(K) {
        if th || ["x", "ky_opening", "gx_old_opening", "b_y_new", "old challenge 21"].contains(&&n[..]) {
            v.push((format!("{} of the deferred data", n), Box::new(move |p| {
                let s = f(&mut p.deferred);
                *s = *s + B::Scalar::from_u64(4)
            })));
        }
    }
    for part in parts(K) {
        let n = name(part);
        if n == "s_new_commitment" || th && (!n.starts_with("round") || n.starts_with("round 21")) {
            v.push((format!("{} of the proof", n), Box::new(move |p| match slot(&mut p.proof, part) {
                Slot::P(s) => *s = *s + A::one(),
                Slot::S(s) => *s = *s + A::Scalar::one(),
            })));
        }
    }
    v
}
fn says<A, B>(what: &str, r: Res<bool>, want: bool) -> Result<(), String> {
    states(1);
    validated(1);
    transitions(1);
    match r {
        Ok(x) if x == want => Ok(()),
        Err(_) if !want => Ok(()),
        r => Err(format!("{}: verification says {:?}", what, r)),
    }
}
fn altered<A, B>(c: &mut Ctx, nm: &str, r: &RecursiveProof<A, B>, pa: &Params<A>, pb: &Params<B>, full: bool) -> Result<(), String>
where
    A: Curve<Base = <B as Curve>::Scalar>,
    B: Curve<Base = <A as Curve>::Scalar>,
{
    let th = c.thorough;
    let mut v = changes(&r.mc_parts(), th);
    if !full && !th {
        v.retain(|x| x.0 == "bit 3 of the payload" || x.0.contains("s_new of"));
    }
    let n = few(6, &v, |(what, f)| {
        let mut p = r.mc_parts();
        f(&mut p);
        says::<A, B>(&format!("{} with another {}", nm, what), RecursiveProof::mc_from(p).verify(pa, pb, &Inner), false)
    })
    .into_iter()
    .collect::<Result<Vec<_>, String>>()?
    .len();
    says::<A, B>(&format!("{} for another application", nm), r.verify(pa, pb, &Lawless), false)?;
    c.sample(format!("{}: {} single changes, all rejected", nm, n));
    Ok(())
}

fn recursion(c: &mut Ctx) {
    let p0 = large::<Ec0>(1);
    let p1 = large::<Ec1>(2);
    let mut a: Option<P1> = None;
    c.case("recursion: first steps", |c| {
        let which: Vec<usize> = (0..FORGED.len()).collect();
        let made = few(5, &which, |w| {
            if *w == 0 {
                let a = P1::create_proof(&p1, &p0, None, &Inner, &[step(BASE)]).map_err(|e| format!("first step: {:?}", e))?;
                says::<E, O>("the first step", a.verify(&p1, &p0, &Inner), true)?;
                return Ok(Some(a));
            }
            let f = forge(*w, &p1, &p0)?;
            says::<E, O>(&format!("a first step that {}", FORGED[*w]), f.verify(&p1, &p0, &Inner), false)?;
            Ok(None)
        });
        for m in made {
            if let Some(m) = m? {
                a = Some(m);
            }
        }
        c.sample(format!("recursion at k = {}: {} forged first steps, all rejected", K, which.len() - 1));
        Ok(())
    });
    let Some(a) = a else { return };
    let mut b: Option<P0> = None;
    c.case("recursion: second step", |c| {
        let second = step(step(BASE));
        let r = P0::create_proof(&p0, &p1, Some(&a), &Inner, &[second]).map_err(|e| format!("second step: {:?}", e))?;
        says::<O, E>("the second step", r.verify(&p0, &p1, &Inner), true)?;
        b = Some(r);
        altered(c, "the first step", &a, &p1, &p0, false)
    });
    let Some(b) = b else { return };
    c.case("recursion: second step, altered", |c| altered(c, "the second step", &b, &p0, &p1, true));
    if c.thorough {
        c.case("recursion: third step", |c| {
            let pay = |n| (0..n).fold(BASE, |p, _| step(p));
            let d = P1::create_proof(&p1, &p0, Some(&b), &Inner, &[pay(3)]).map_err(|e| format!("third step: {:?}", e))?;
            says::<E, O>("the third step", d.verify(&p1, &p0, &Inner), true)?;
            // parts of the first and of the third step do not mix
            for i in 0..5 {
                let mut x = d.mc_parts();
                let y = a.mc_parts();
                match i {
                    0 => x.proof = y.proof,
                    1 => x.oldproof1 = y.oldproof1,
                    2 => x.oldproof2 = y.oldproof2,
                    3 => x.deferred = y.deferred,
                    _ => x.payload = y.payload,
                }
                says::<E, O>(&format!("the third step with part {} of the first", i), P1::mc_from(x).verify(&p1, &p0, &Inner), false)?;
            }
            // a step from the third to a payload that does not follow
            if let Ok(e) = P0::create_proof(&p0, &p1, Some(&d), &Inner, &[pay(5)]) {
                says::<O, E>("a fourth step to the fifth payload", e.verify(&p0, &p1, &Inner), false)?;
            }
            altered(c, "the third step", &d, &p1, &p0, true)
        });
    }
}

fn main() {
    let mut c = Ctx::new("V02", "model_checking");
    c.rule("a state is a recursive statement with its previous proof, or a recursive proof object; every alteration is run through the verification circuit or the recursive verifier, which must accept only the unaltered one");
    num_cpus::mc_set(1);
    circuit::<D<Ec0>, D<Ec1>>(&mut c, "Ec1 in Ec0", 21);
    circuit::<D<Ec1>, D<Ec0>>(&mut c, "Ec0 in Ec1", 22);
    model::<Ec0>(&mut c, "Ec0");
    model::<Ec1>(&mut c, "Ec1");
    num_cpus::mc_set(0);
    recursion(&mut c);
    c.bound("circuit at k = 4, both directions: all 256 payloads for a claimed base case, every payload bit (thorough: every payload); recursive proofs at k = 22: two steps (thorough three), every bit of the payload and single fields of every part, four forged first steps");
    c.assume("the large runs hold points as logarithms; that this is the same group is checked on whole proofs at k = 4 and the coordinates are always the curve's");
    c.finish()
}
