//! T01: challenges depend on every message sent before them.
use halo::*;
use halo_mc::prog::*;
use halo_mc::proofref::*;
use halo_mc::*;
use std::collections::BTreeMap;

/// The challenges of one run of the verifier, in order: y_cur, x, y_new, then
/// one per round. (z is drawn between y_new and the rounds and not reported;
/// the case comparing with the protocol's transcript covers it.)
fn challenges<C: Curve>(what: &str, st: &Stage<C>, p: &Proof<C>, old: &Leftovers<C>, inputs: &[C::Scalar]) -> Result<Vec<[u8; 32]>, String> {
    transitions(1);
    let s = guard(|| {
        let c = Prog { ops: &st.ops, witness: false };
        p.verify::<_, Basic>(old, &st.params, &c, inputs, None)
    })
    .map_err(|e| format!("{}: {}", what, e))?
    .map_err(|e| format!("{}: verification fails with {:?}", what, e))?;
    let mut v = vec![s.2.y_cur, s.2.x, s.1.y_new];
    if s.2.y_new != s.1.y_new || s.2.challenges_sq_packed_new != s.1.challenges_sq_packed_new {
        return Err(format!("{}: deferred data and leftovers carry different challenges", what));
    }
    v.extend(s.1.challenges_sq_packed_new.iter());
    Ok(v.iter().map(|x| x.to_bytes()).collect())
}
const Y_CUR: usize = 0;
const X: usize = 1;
const Y_NEW: usize = 2;
const ROUND: usize = 3;
/// The first challenge drawn after a message.
fn after(p: Part) -> Option<usize> {
    Some(match p {
        Part::Commit(0) => Y_CUR,
        Part::Commit(1..=3) => X,
        Part::Commit(4) => Y_NEW,
        Part::Commit(_) | Part::Open(_) => ROUND,
        Part::RL(i, _) | Part::RR(i, _) | Part::Rl(i, _) | Part::Rr(i, _) => ROUND + i,
        Part::A(_) | Part::G => return None,
    })
}
fn called(i: usize) -> String {
    ["y_cur", "x", "y_new"].get(i).map(|s| s.to_string()).unwrap_or_else(|| format!("the challenge of round {}", i - ROUND))
}

struct Stage<C: Curve> {
    name: String,
    params: Params<C>,
    ops: Vec<Op>,
    old: Leftovers<C>,
    proof: Proof<C>,
    made: Leftovers<C>,
    inputs: Vec<C::Scalar>,
}
fn stage<C: Curve>(name: &str, params: Params<C>, ops: Vec<Op>, links: usize) -> Stage<C> {
    let mut old = start(&params);
    let mut last = None;
    for _ in 0..=links {
        let (p, l) = Proof::new::<_, Basic>(&params, &Prog { ops: &ops, witness: true }, &old).unwrap();
        last = Some((old, p, l.clone()));
        old = l;
    }
    let (old, proof, made) = last.unwrap();
    let inputs = Model::<C::Scalar>::new(&ops).public();
    Stage { name: name.into(), params, ops, old, proof, made, inputs }
}
fn stages<C: Curve>(name: &str, th: bool) -> Vec<Stage<C>> {
    let lin = |t: &[(K, R)]| Op::Lin(t.to_vec());
    let one = vec![Op::Mult(7, 6, 0), Op::Input(42), lin(&[(K::One, R::Back(0)), (K::Neg, R::Back(1))])];
    let two = vec![Op::Input(42), Op::Input(9)];
    let mut v = vec![stage(&format!("{}, first proof", name), fixed_params::<C>(4, 3), one.clone(), 0), stage(&format!("{}, third proof", name), fixed_params::<C>(4, 5), two.clone(), 2)];
    if th {
        v.push(stage(&format!("{}, k = 5", name), fixed_params::<C>(5, 4), one, 1));
        v.push(stage(&format!("{}, no inputs", name), fixed_params::<C>(4, 6), vec![Op::Mult(1, 2, 0)], 0));
        v.push(stage(&format!("{}, k = 6", name), fixed_params::<C>(6, 4), two, 1));
    }
    v
}

/// Every way a single message is changed: name and new value.
fn points<C: Curve>(p: C) -> Vec<(String, C)> {
    let g = C::one();
    let mut v = vec![
        ("negated".into(), -p),
        ("plus G".into(), p + g),
        ("minus G".into(), p - g),
        ("doubled".into(), p + p),
        ("replaced by the identity".into(), C::zero()),
        ("replaced by G".into(), g),
        ("endomorphism image".into(), p * C::BETA_SCALAR),
        ("second endomorphism image".into(), p * C::BETA_SCALAR * C::BETA_SCALAR),
        ("negated endomorphism image".into(), -(p * C::BETA_SCALAR)),
    ];
    v.retain(|x| x.1 != p);
    v
}
fn scalars<F: Field>(s: F, beta: F) -> Vec<(String, F)> {
    let mut v: Vec<(String, F)> = vec![
        ("negated".into(), -s),
        ("plus 1".into(), s + F::one()),
        ("minus 1".into(), s - F::one()),
        ("doubled".into(), s + s),
        ("replaced by 0".into(), F::zero()),
        ("replaced by 1".into(), F::one()),
        ("plus 2^128".into(), s + F::from_u128(1 << 127) + F::from_u128(1 << 127)),
        ("endomorphism image".into(), s * beta),
        ("second endomorphism image".into(), s * beta * beta),
        ("negated endomorphism image".into(), -(s * beta)),
    ];
    v.retain(|x| x.1 != s);
    v
}
/// Position in its round or its name.
fn site(p: Part) -> String {
    match p {
        Part::RL(_, j) => format!("L[{}]", j),
        Part::RR(_, j) => format!("R[{}]", j),
        Part::Rl(_, j) => format!("l[{}]", j),
        Part::Rr(_, j) => format!("r[{}]", j),
        p => name(p),
    }
}
fn put<C: Curve>(p: &mut Proof<C>, part: Part, v: &(Option<C>, Option<C::Scalar>)) {
    match slot(p, part) {
        Slot::P(s) => *s = v.0.unwrap(),
        Slot::S(s) => *s = v.1.unwrap(),
    }
}

fn single<C: Curve>(c: &mut Ctx, st: &Stage<C>) -> Result<(), String> {
    let honest = challenges(&st.name, st, &st.proof, &st.old, &st.inputs)?;
    let mut jobs = vec![];
    for part in parts(st.params.k) {
        if after(part).is_none() {
            continue;
        }
        let mut q = st.proof.clone();
        match slot(&mut q, part) {
            Slot::P(s) => jobs.extend(points(*s).into_iter().map(|(n, v)| (part, n, (Some(v), None)))),
            Slot::S(s) => jobs.extend(scalars(*s, C::BETA_SCALAR).into_iter().map(|(n, v)| (part, n, (None, Some(v))))),
        }
    }
    let r = par(&jobs, |(part, how, v)| {
        let mut q = st.proof.clone();
        put(&mut q, *part, v);
        let what = format!("{}: {} {}", st.name, name(*part), how);
        let got = challenges(&what, st, &q, &st.old, &st.inputs)?;
        states(1);
        validated(1);
        // what changed, and what had to
        let first = after(*part).unwrap();
        Ok((first..honest.len()).filter(|i| got[*i] == honest[*i]).map(called).collect::<Vec<_>>())
    });
    for ((part, how, _), r) in jobs.iter().zip(r) {
        let same = r?;
        if !same.is_empty() {
            let key = if how.contains("endomorphism") && !how.contains("negated") { format!("endomorphism-image:{}", site(*part)) } else { format!("{} {}", name(*part), how) };
            c.fail(&key, format!("{}: with {} {}, these stay the same: {}", st.name, name(*part), how, same.join(", ")));
        }
    }
    c.sample(format!("{}: {} single changes, {} challenges each", st.name, jobs.len(), honest.len()));
    Ok(())
}

/// Neighbouring messages of the same kind: over {O, G, 2G, -G} x {O, G, 2G, -G}
/// (or the scalars 0, 1, 2, -1) all sixteen pairs give different challenges.
fn pairs<C: Curve>(c: &mut Ctx, st: &Stage<C>) -> Result<(), String> {
    let ps: Vec<Part> = {
        // the order in which the messages are sent
        let mut v: Vec<Part> = (0..6).map(Part::Commit).collect();
        v.extend([0, 1, 2, 3, 4, 5, 6].map(Part::Open));
        for i in 0..st.params.k {
            for j in 0..5 {
                v.extend([Part::RL(i, j), Part::RR(i, j), Part::Rl(i, j), Part::Rr(i, j)]);
            }
        }
        v
    };
    let last_round = |p: &Part| after(*p).unwrap() < ROUND + if c.thorough { 99 } else { 1 };
    let jobs: Vec<(Part, Part)> = ps.windows(2).map(|w| (w[0], w[1])).filter(|w| last_round(&w.1)).collect();
    let g = C::one();
    let s1 = C::Scalar::one();
    let vp = [C::zero(), g, g + g, -g];
    let vs = [C::Scalar::zero(), s1, s1 + s1, -s1];
    let n = par(&jobs, |(a, b)| {
        let mut seen: BTreeMap<Vec<[u8; 32]>, (usize, usize)> = BTreeMap::new();
        let from = after(*a).unwrap().max(after(*b).unwrap());
        for i in 0..4 {
            for j in 0..4 {
                let mut q = st.proof.clone();
                put(&mut q, *a, &(Some(vp[i]), Some(vs[i])));
                put(&mut q, *b, &(Some(vp[j]), Some(vs[j])));
                let what = format!("{}: {} = {}, {} = {}", st.name, name(*a), i, name(*b), j);
                let got = challenges(&what, st, &q, &st.old, &st.inputs)?;
                states(1);
                validated(1);
                for at in from..got.len() {
                    let mut key = got.clone();
                    key.truncate(at + 1);
                    let key = vec![[at as u8; 32], key[at]];
                    if let Some(o) = seen.insert(key, (i, j)) {
                        return Err(format!("{}: {} and {} carrying multiples {:?} and {:?} of the generator lead to the same value of {}", st.name, name(*a), name(*b), o, (i, j), called(at)));
                    }
                }
            }
        }
        Ok(())
    })
    .into_iter()
    .collect::<Result<Vec<_>, String>>()?
    .len();
    c.sample(format!("{}: {} neighbouring pairs, 16 values each, all distinct", st.name, n));
    Ok(())
}

/// Public inputs (through the commitment k) and the old challenges (through the
/// opening of the old generator).
fn statement<C: Curve>(_: &mut Ctx, st: &Stage<C>) -> Result<(), String> {
    let honest = challenges(&st.name, st, &st.proof, &st.old, &st.inputs)?;
    let mut jobs: Vec<(String, usize, Vec<C::Scalar>, Leftovers<C>)> = vec![];
    for i in 0..st.inputs.len() {
        for (how, v) in scalars(st.inputs[i], C::BETA_SCALAR) {
            let mut w = st.inputs.clone();
            w[i] = v;
            jobs.push((format!("input {} {}", i, how), Y_CUR, w, st.old.clone()));
        }
    }
    if st.inputs.len() > 1 {
        let mut w = st.inputs.clone();
        w.reverse();
        jobs.push(("inputs exchanged".into(), Y_CUR, w, st.old.clone()));
    }
    for i in 0..st.params.k {
        let mut l = st.old.clone();
        // another square challenge
        let mut v = l.challenges_sq_packed_new[i];
        loop {
            v = v + C::Scalar::from_u64(4);
            let s: C::Scalar = get_challenge_scalar(v);
            if bool::from(s.sqrt().is_some()) {
                break;
            }
        }
        l.challenges_sq_packed_new[i] = v;
        jobs.push((format!("old challenge {} changed", i), ROUND, st.inputs.clone(), l));
    }
    par(&jobs, |(what, first, inp, old)| {
        let got = challenges(&format!("{}: {}", st.name, what), st, &st.proof, old, inp)?;
        states(1);
        validated(1);
        for i in *first..got.len() {
            ensure!(got[i] != honest[i], "{}: {}, {} stays the same", st.name, what, called(i));
        }
        Ok(())
    })
    .into_iter()
    .collect::<Result<Vec<_>, String>>()
    .map(|_| ())
}

/// The same messages give the same challenges: the prover's, the verifier's
/// (twice, on every processor count) and the protocol's.
fn same<C: Curve>(c: &mut Ctx, st: &Stage<C>) -> Result<(), String> {
    let first = challenges(&st.name, st, &st.proof, &st.old, &st.inputs)?;
    for cpu in [1, 2, 3, 8] {
        num_cpus::mc_set(cpu);
        let r = challenges(&st.name, st, &st.proof, &st.old, &st.inputs);
        num_cpus::mc_set(1);
        ensure!(r? == first, "{}: another run of the verifier on {} CPUs draws other challenges", st.name, cpu);
        states(1);
    }
    let made: Vec<[u8; 32]> = std::iter::once(&st.made.y_new).chain(st.made.challenges_sq_packed_new.iter()).map(|x| x.to_bytes()).collect();
    ensure!(made == first[Y_NEW..], "{}: the prover and the verifier draw different challenges", st.name);
    let e = reference(&st.proof, &st.old, &st.params, &st.ops, &st.inputs).ok_or("no reference")?;
    let want: Vec<[u8; 32]> = [e.y_cur, e.x, e.y_new].iter().chain(e.packed.iter()).map(|x| x.to_bytes()).collect();
    ensure!(want == first, "{}: the challenges are not those of the protocol's transcript", st.name);
    ensure!(e.inner_product, "{}: the proof does not satisfy the protocol's equations, its z is another", st.name);
    // z itself, from the argument's last equation
    let mut z = st.proof.inner_product.a[3] * e.b[3] - st.proof.sx_cur_opening;
    for (r, p) in st.proof.inner_product.rounds.iter().zip(&e.packed) {
        let sq: C::Scalar = get_challenge_scalar(*p);
        let isq: C::Scalar = sq.invert().unwrap();
        z = z - r.l[3] * sq - r.r[3] * isq;
    }
    ensure!(e.ky != C::Scalar::zero() && z * e.ky.invert().unwrap() == e.z, "{}: the prover's z is not the transcript's", st.name);
    validated(1);
    c.sample(format!("{}: prover, verifier and protocol draw the same {} challenges", st.name, first.len() + 1));
    Ok(())
}

fn main() {
    let mut c = Ctx::new("T01", "model_checking");
    c.rule("a state is a proof with one or two messages changed; running the verifier on it must change every challenge drawn after the message");
    num_cpus::mc_set(1);
    fn run<C: Curve>(c: &mut Ctx, name: &str, which: usize) {
        let th = c.thorough;
        for (i, st) in stages::<C>(name, th).into_iter().enumerate() {
            if !th && i != which {
                continue;
            }
            c.case(&format!("{}: same messages", st.name), |c| same(c, &st));
            c.case(&format!("{}: single changes", st.name), |c| single(c, &st));
            c.case(&format!("{}: statement", st.name), |c| statement(c, &st));
            c.case(&format!("{}: neighbouring messages", st.name), |c| pairs(c, &st));
        }
    }
    run::<Ec0>(&mut c, "Ec0", 0);
    run::<Ec1>(&mut c, "Ec1", 1);
    c.bound("first proof on Ec0 and third proof of a chain on Ec1, k = 4 (thorough: both on both, k = 5 and 6, no inputs); every message with nine or ten changes; every neighbouring pair of messages over sixteen pairs of values (quick: up to the first round)");
    c.assume("challenges are 127-bit hashes: a changed message leads to another value except with negligible probability");
    c.finish()
}
