//! V01: the verification circuit accepts exactly what the native verifier does.
use halo::*;
use halo_mc::dlog::{honest, lie_xy, D};
use halo_mc::proofref::{msm, name, parts, roots, slot, weights, Part, Slot};
use halo_mc::*;
use halo_mc_hooked::*;

/// Satisfied exactly when the native verifier accepts the previous proof with
/// these leftovers and ends with these leftovers, deferred data and forks, and
/// the deferred data the proof carries is right.
fn expect<E1, E2>(c: &Case<E1, E2>, w: &World<E1, E2>) -> (bool, bool)
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    let carried = guard(|| c.old_deferred.verify(4)).unwrap_or(false);
    let proof = match guard(|| c.native(&w.params, &c.old)) {
        Ok(Some((ok, l, d, f))) => ok && l.to_bytes() == c.new.to_bytes() && d.to_bytes() == c.deferred.to_bytes() && f == c.forks,
        _ => false,
    };
    (proof, carried)
}
fn check<E1, E2>(what: &str, c: &Case<E1, E2>, w: &World<E1, E2>, want: Option<bool>) -> Result<bool, String>
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    let (proof, carried) = expect(c, w);
    let e = proof && carried;
    if let Some(want) = want {
        ensure!(e == want, "{}: the native verifier says {} (carried data: {}), expected {}", what, proof, carried, want);
    }
    let got = c.satisfied(&w.params).map_err(|e| format!("{}: {}", what, e))?;
    states(1);
    validated(1);
    if std::env::var("MC_WHY").is_ok() {
        eprintln!("why {}: {:?}", what, got);
    }
    match (&got, e) {
        (Ok(()), true) | (Err(_), false) => Ok(e),
        (Err(m), true) => Err(format!("{}: the native verifier accepts, the circuit does not: {}", what, m)),
        (Ok(()), false) => Err(format!("{}: the circuit is satisfied, the native verifier rejects (proof {}, carried data {})", what, proof, carried)),
    }
}
type Job<'a, E1, E2> = (String, Box<dyn Fn() -> Result<(Case<E1, E2>, Option<bool>), String> + Sync + Send + 'a>);
/// With `truth`, the satisfying assignment of a true statement, other witnesses
/// are searched for too.
fn all<'a, E1, E2>(jobs: Vec<Job<'a, E1, E2>>, w: &World<E1, E2>, truth: Option<&Full<E1::Scalar>>) -> Result<(usize, usize), String>
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    let r = par(&jobs, |(what, make)| {
        let (c, want) = make().map_err(|e| format!("{}: {}", what, e))?;
        let r = check(what, &c, w, want);
        honest();
        if let (Ok(false), Some(t), true) = (&r, truth, attackable(what)) {
            let mut spent = Spent::default();
            let found = c.attack(t, &w.params, LIMIT, &mut spent).map_err(|e| format!("{}: {}", what, e))?;
            states(spent.starts);
            if let Some(how) = found {
                return Err(format!("{}: the native verifier rejects, but there is a witness: {}", what, how));
            }
        }
        r
    });
    let r = r.into_iter().collect::<Result<Vec<_>, String>>()?;
    Ok((r.iter().filter(|x| **x).count(), r.len()))
}

/// Two fields of deferred data changed at once: exchanged, or negated.
fn pairs<F: Field>(k: usize) -> Vec<(String, Box<dyn Fn(&mut Deferred<F>) + Sync + Send>)> {
    let n = deferred_fields::<F>(k).len();
    let mut v: Vec<(String, Box<dyn Fn(&mut Deferred<F>) + Sync + Send>)> = vec![];
    for i in 0..n {
        for j in 0..i {
            let f = deferred_fields::<F>(k);
            let (a, b) = (&f[i].0, &f[j].0);
            // 128 bits or 256
            let short = |s: &str| matches!(s, "x" | "y_old" | "y_cur" | "y_new") || s.contains("challenge");
            if short(a) != short(b) {
                continue;
            }
            let names = format!("{} and {}", b, a);
            let g = deferred_fields::<F>(k);
            if !short(a) {
                v.push((format!("{} negated together", names), Box::new(move |d| {
                    for t in [i, j] {
                        let s = g[t].1(d);
                        *s = -*s;
                    }
                })));
            }
            v.push((format!("{} exchanged", names), Box::new(move |d| {
                let (x, y) = (*f[i].1(d), *f[j].1(d));
                *f[i].1(d) = y;
                *f[j].1(d) = x;
            })));
        }
    }
    v
}

/// Repairs per search.
const LIMIT: u64 = 4000;
/// Cases whose public inputs are false. In the others a witness may just take
/// back what was changed.
fn attackable(what: &str) -> bool {
    !what.contains("exchanged") && !what.ends_with("together") && !what.contains("fork") && !what.contains("a proof made with another")
}

/// Honest steps, over statements in which every bit takes both values.
fn accepts<E1, E2>(c: &mut Ctx, name: &str, salts: &[u64])
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    for salt in salts {
        c.case(&format!("{}: honest steps {}", name, salt), |c| {
            let w = World::<E1, E2>::new(*salt);
            let n = c.tier(2, 8);
            let pay: Vec<u8> = (0..n).map(|i| [0x5a, 0xa5, 0, 255, 1, 0x80, BASE, 0x33][i]).collect();
            let r = par(&pay, |p| check(&format!("{}: payload {:#x}", name, p), &w.later(*p), &w, Some(true)));
            r.into_iter().collect::<Result<Vec<_>, String>>()?;
            check(&format!("{}: second step", name), &w.second(), &w, Some(true))?;
            Ok(())
        });
    }
}

/// Honest steps whose challenges take many attempts until they are squares:
/// of all payloads, those with the highest counts.
fn forks<E1, E2>(c: &mut Ctx, name: &str, salt: u64)
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    c.case(&format!("{}: many forks", name), |c| {
        let w = World::<E1, E2>::new(salt);
        let all: Vec<u8> = (0..c.tier(128u16, 256)).map(|p| p as u8).collect();
        let mut cases = par(&all, |p| Ok(w.later(*p))).into_iter().collect::<Result<Vec<_>, String>>()?;
        cases.sort_by_key(|c| std::cmp::Reverse(c.forks.iter().copied().max()));
        cases.truncate(c.tier(2, 12));
        par(&cases, |h| check(&format!("{}: payload {:#x}, forks {:?}", name, h.old_payload, h.forks), h, &w, Some(true))).into_iter().collect::<Result<Vec<_>, String>>()?;
        c.sample(format!("{}: forks {:?}", name, cases.iter().map(|c| &c.forks[..]).collect::<Vec<_>>()));
        Ok(())
    });
}

fn faults<E1, E2>(c: &mut Ctx, nm: &str, salt: u64, fact: u8)
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    let w = World::<E1, E2>::new(salt);
    let h = w.later(0x6c);
    let th = c.thorough;
    let k = w.params.k;
    // messages
    if fact & 1 != 0 {
        c.case(&format!("{}: messages of the proof", nm), |c| {
            let mut jobs: Vec<Job<E1, E2>> = vec![];
            for part in parts(k) {
                for how in 0..if th { 4 } else { 1 } {
                    for follow in [true, false] {
                        if !th && !follow && !matches!(part, Part::Commit(_) | Part::G | Part::A(_)) {
                            continue;
                        }
                        let (h, w) = (&h, &w);
                        jobs.push((
                            format!("{}: {} {} {}", nm, name(part), ["plus one", "negated", "zero", "doubled"][how], if follow { "and what follows from it" } else { "" }),
                            Box::new(move || {
                                let mut c = h.clone();
                                let p = c.proof.as_mut().unwrap();
                                match slot(p, part) {
                                    Slot::P(s) => *s = [*s + E2::one(), -*s, E2::zero(), *s + *s][how],
                                    Slot::S(s) => *s = [*s + E2::Scalar::one(), -*s, E2::Scalar::zero(), *s + *s][how],
                                }
                                if follow {
                                    c.follow(&w.params, &c.old.clone());
                                }
                                Ok((c, None))
                            }),
                        ));
                    }
                }
            }
            let (yes, n) = all(jobs, &w, None)?;
            ensure!(yes == 0, "{}: {} of {} proofs with an altered message are accepted by both verifiers", nm, yes, n);
            c.sample(format!("{}: {} altered messages, all rejected by both verifiers", nm, n));
            Ok(())
        });
    }
    // what the circuit is told about the new state
    if fact & 2 != 0 {
        c.case(&format!("{}: claims about the new state", nm), |c| {
            let mut jobs: Vec<Job<E1, E2>> = vec![];
            for (what, l) in leftover_faults(&h.new) {
                let h = &h;
                jobs.push((format!("{}: new leftovers with another {}", nm, what), Box::new(move || {
                    let mut c = h.clone();
                    c.new = l.clone();
                    Ok((c, Some(false)))
                })));
            }
            for (what, l) in leftover_faults(&h.old) {
                let h = &h;
                jobs.push((format!("{}: a proof made with another {}", nm, what), Box::new(move || {
                    let mut c = h.clone();
                    c.old = l.clone();
                    Ok((c, Some(false)))
                })));
            }
            for (what, l) in leftover_faults(&h.l1) {
                let h = &h;
                jobs.push((format!("{}: carried leftovers with another {}", nm, what), Box::new(move || {
                    let mut c = h.clone();
                    c.l1 = l.clone();
                    Ok((c, Some(false)))
                })));
            }
            for (what, f) in deferred_fields::<E2::Scalar>(k) {
                let f = std::sync::Arc::new(f);
                for e in [0, 2, 64, 120] {
                    if !th && e != 0 && (what.contains("open") || what.contains("b_") || what.contains("chall")) {
                        continue;
                    }
                    let (h, f) = (&h, f.clone());
                    jobs.push((format!("{}: deferred {} changed (bit {})", nm, what, e), Box::new(move || {
                        let mut c = h.clone();
                        let s = f(&mut c.deferred);
                        *s = *s + E2::Scalar::from_u128(1 << e);
                        Ok((c, Some(false)))
                    })));
                }
            }
            for (what, f) in pairs::<E2::Scalar>(k) {
                let h = &h;
                jobs.push((format!("{}: deferred {}", nm, what), Box::new(move || {
                    let mut c = h.clone();
                    f(&mut c.deferred);
                    Ok((c, Some(false)))
                })));
            }
            for i in 0..k {
                let h = &h;
                jobs.push((format!("{}: fork {} changed", nm, i), Box::new(move || {
                    let mut c = h.clone();
                    c.forks[i] ^= 1;
                    Ok((c, Some(false)))
                })));
            }
            // consistent with each other, but not what was proved
            for j in 0..5 {
                let h = &h;
                jobs.push((format!("{}: a[{}] and b[{}] changed with the same product", nm, j, j), Box::new(move || {
                    let mut c = h.clone();
                    let a = &mut c.proof.as_mut().unwrap().inner_product.a[j];
                    let was = *a;
                    *a = *a + E2::Scalar::one();
                    let f = was * a.invert().unwrap();
                    let d = &mut c.deferred;
                    let b = [&mut d.b_x, &mut d.b_xy, &mut d.b_y_old, &mut d.b_y_cur, &mut d.b_y_new];
                    let b = b.into_iter().nth(j).unwrap();
                    *b = *b * f;
                    Ok((c, Some(false)))
                })));
            }
            // the same up to signs
            for j in 0..5 {
                for both in [true, false] {
                    let h = &h;
                    jobs.push((format!("{}: {}b[{}] negated", nm, if both { "a and " } else { "" }, j), Box::new(move || {
                        let mut c = h.clone();
                        if both {
                            let a = &mut c.proof.as_mut().unwrap().inner_product.a[j];
                            *a = -*a;
                        }
                        let d = &mut c.deferred;
                        let b = [&mut d.b_x, &mut d.b_xy, &mut d.b_y_old, &mut d.b_y_cur, &mut d.b_y_new];
                        let b = b.into_iter().nth(j).unwrap();
                        *b = -*b;
                        Ok((c, Some(false)))
                    })));
                }
            }
            // another g: all a scaled with it, the values too
            let hh = &h;
            jobs.push((format!("{}: g, a and b scaled", nm), Box::new(move || {
                let mut c = hh.clone();
                let two = E2::Scalar::from_u64(2);
                let half = two.invert().unwrap();
                let ip = &mut c.proof.as_mut().unwrap().inner_product;
                ip.g = ip.g * two;
                for a in ip.a.iter_mut() {
                    *a = *a * half;
                }
                let d = &mut c.deferred;
                for b in [&mut d.b_x, &mut d.b_xy, &mut d.b_y_old, &mut d.b_y_cur, &mut d.b_y_new] {
                    *b = *b * two;
                }
                c.new.g_new = c.new.g_new * two;
                // the equations hold; b is wrong, which the next step finds
                Ok((c, None))
            })));
            // (handled below: the circuit leaves b to the next verifier)
            let scaled = jobs.pop().unwrap();
            let (yes, n) = all(jobs, &w, Some(&h.record(&w.params)?))?;
            ensure!(yes == 0, "{}: {} false claims pass", nm, yes);
            let (sc, _) = scaled.1()?;
            ensure!(sc.satisfied(&w.params)?.is_err() || !sc.deferred.verify(k), "{}: a wrong b passes the circuit and the deferred checks", nm);
            validated(1);
            states(1);
            c.sample(format!("{}: {} false claims about the state, all rejected", nm, n));
            Ok(())
        });
    }
    // data carried from the proof before
    if fact & 4 != 0 {
        c.case(&format!("{}: carried deferred data", nm), |c| {
            let mut jobs: Vec<Job<E1, E2>> = vec![];
            for (what, f) in deferred_fields::<E1::Scalar>(k) {
                let challenge = what.contains("challenge");
                let f = std::sync::Arc::new(f);
                for how in 0..if th { 3 } else { 1 } {
                    let (h, w, f) = (&h, &w, f.clone());
                    jobs.push((format!("{}: a proof carrying another {} ({})", nm, what, how), Box::new(move || {
                        let mut c = h.clone();
                        let s = f(&mut c.old_deferred);
                        *s = if challenge { (0..=how).fold(*s, |s, _| other_challenge(s)) } else { [*s + E1::Scalar::one(), E1::Scalar::from_u64(5), *s + *s][how] };
                        // openings are proved as they are, numbers from 128 bits stay so
                        ensure!(c.prove(&w.params, &c.old.clone()), "the proof itself fails");
                        Ok((c, Some(false)))
                    })));
                }
            }
            for (what, f) in pairs::<E1::Scalar>(k) {
                if th || what.contains("b_") && what.contains("exchanged") {
                    let (h, w) = (&h, &w);
                    jobs.push((format!("{}: a proof carrying {}", nm, what), Box::new(move || {
                        let mut c = h.clone();
                        f(&mut c.old_deferred);
                        ensure!(c.prove(&w.params, &c.old.clone()), "the proof itself fails");
                        Ok((c, Some(false)))
                    })));
                }
            }
            // what other square roots of the challenges lead to
            for old in [true, false] {
                let (h, w) = (&h, &w);
                jobs.push((format!("{}: a proof carrying the negative of {}", nm, if old { "gx_old_opening" } else { "every b" }), Box::new(move || {
                    let mut c = h.clone();
                    let d = &mut c.old_deferred;
                    if old {
                        d.gx_old_opening = -d.gx_old_opening;
                    } else {
                        for b in [&mut d.b_x, &mut d.b_xy, &mut d.b_y_old, &mut d.b_y_cur, &mut d.b_y_new] {
                            *b = -*b;
                        }
                    }
                    ensure!(c.prove(&w.params, &c.old.clone()), "the proof itself fails");
                    Ok((c, Some(false)))
                })));
            }
            let (yes, n) = all(jobs, &w, Some(&h.record(&w.params)?))?;
            ensure!(yes == 0, "{}: {} accepted", nm, yes);
            c.sample(format!("{}: {} proofs carrying wrong deferred data, all rejected", nm, n));
            Ok(())
        });
    }
    // proofs made with other leftovers than the statement says
    if fact & 8 != 0 {
        c.case(&format!("{}: leftovers of the previous proof", nm), |c| {
            let mut jobs: Vec<Job<E1, E2>> = vec![];
            // s(X, y) for another y, which the statement does not carry
            let (y, s) = other_y(&h, &w);
            let mut l = h.old.clone();
            l.y_new = y;
            l.s_new_commitment = s;
            {
                let (h, w) = (&h, &w);
                jobs.push((format!("{}: y_new differs", nm), Box::new(move || {
                    let mut c = h.clone();
                    c.old.s_new_commitment = s;
                    ensure!(c.prove(&w.params, &l), "the proof fails with the leftovers it was made with");
                    Ok((c, Some(false)))
                })));
            }
            for i in 0..k {
                let mut l = h.old.clone();
                l.challenges_sq_packed_new[i] = other_challenge(l.challenges_sq_packed_new[i]);
                let wt = weights(&roots(&l.challenges_sq_packed_new).unwrap()).unwrap();
                l.g_new = msm(&wt, &w.params.generators);
                // the statement keeps the old challenges, with the matching g
                let h = &h;
                let w = &w;
                let kept = h.old.challenges_sq_packed_new.clone();
                jobs.push((format!("{}: challenge {} differs", nm, i), Box::new(move || {
                    let mut c = h.clone();
                    // statement: new g, old challenges
                    c.old.g_new = l.g_new;
                    c.old.challenges_sq_packed_new = kept.clone();
                    ensure!(c.prove(&w.params, &l), "the proof fails with the leftovers it was made with");
                    Ok((c, Some(false)))
                })));
            }
            let (yes, n) = all(jobs, &w, None)?;
            ensure!(yes == 0, "{}: {} accepted", nm, yes);
            c.sample(format!("{}: {} proofs made with other leftovers, all rejected", nm, n));
            Ok(())
        });
    }
}

/// Another y and the commitment to s(X, y) of the previous proof's circuit.
fn other_y<E1, E2>(h: &Case<E1, E2>, w: &World<E1, E2>) -> (E2::Scalar, E2)
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    let y = h.old.y_new + E2::Scalar::from_u64(4);
    let v = vec![E2::Scalar::zero(); CLASSES];
    let sx = w.params.compute_sx::<_, Basic>(&Carrier(v, false), y).unwrap();
    (y, w.params.commit(&sx, false))
}

/// The commitments among the leftovers: the witness uses others than the
/// statement carries.
fn commitments<E1, E2>(c: &mut Ctx, nm: &str, salt: u64)
where
    E1: Curve<Base = <D<E2> as Curve>::Scalar>,
    E2: Curve,
    D<E2>: Curve<Scalar = E2::Scalar, Base = <E1 as Curve>::Scalar>,
{
    c.case(&format!("{}: commitments carried and used", nm), |c| {
        let w = World::<E1, D<E2>>::new(salt);
        let h = w.later(0x6c);
        let k = w.params.k;
        type B<E> = <E as Curve>::Base;
        let mut jobs = vec![];
        // the carried coordinates: another point, its negative, one bit changed
        for which in 0..4 {
            for how in 0..if c.thorough { 9 } else { 5 } {
                jobs.push((which, how));
            }
        }
        let coordinates = |p: D<E2>, how: usize| -> (B<E2>, B<E2>) {
            let two = |e: u64| B::<E2>::from_u64(2).pow(&[e, 0, 0, 0]);
            let (x, y) = p.real().get_xy().unwrap();
            match how {
                0 => (p.real() + E2::one()).get_xy().unwrap(),
                1 => (x, -y),
                2 => (x, y + two(0)),
                3 => (x + two(252), y),
                4 => (x, y + two(252)),
                5 => (x, y + two(249)),
                6 => (x + two(128), y),
                7 => (x + two(249), y),
                _ => (B::<E2>::zero(), B::<E2>::zero()),
            }
        };
        let r = par(&jobs, |(which, how)| {
            honest();
            let what = format!("{}: {} {}", nm, ["the s used", "the g used", "the s claimed", "the g claimed"][*which], how);
            if *which >= 2 {
                // the circuit ends with this point, the statement says another
                let f = h.clone();
                let p = if *which == 2 { f.new.s_new_commitment } else { f.new.g_new };
                let (x, y) = coordinates(p, *how);
                lie_xy(p, x, y, 1);
                let r = f.satisfied(&w.params);
                honest();
                ensure!(r?.is_err(), "{}: other coordinates in the new leftovers satisfy the circuit", what);
            } else {
                // a proof made with `with`, whose statement says otherwise
                let mut f = h.clone();
                let mut with = h.old.clone();
                let used = if *which == 0 {
                    (with.y_new, with.s_new_commitment) = other_y(&h, &w);
                    with.s_new_commitment
                } else {
                    with.challenges_sq_packed_new[k - 1] = other_challenge(with.challenges_sq_packed_new[k - 1]);
                    let wt = weights(&roots(&with.challenges_sq_packed_new).unwrap()).unwrap();
                    with.g_new = msm(&wt, &w.params.generators);
                    with.g_new
                };
                f.old = with.clone();
                if *how == 0 {
                    ensure!(f.prove(&w.params, &with), "{}: the proof fails with the leftovers it was made with", what);
                    let r = f.satisfied(&w.params)?;
                    ensure!(r.is_ok(), "{}: the circuit rejects the truth: {:?}", what, r);
                }
                let (x, y) = coordinates(used, *how);
                // in the statement, when proving and when verifying
                lie_xy(used, x, y, 2);
                let made = f.prove(&w.params, &with);
                let left = honest();
                ensure!(made && left == 0, "{}: the proof fails with the leftovers it was made with ({} lies left)", what, left);
                lie_xy(used, x, y, 1);
                let r = f.satisfied(&w.params);
                honest();
                ensure!(r?.is_err(), "{}: a proof made with other leftovers than its statement carries satisfies the circuit", what);
            }
            states(1);
            validated(1);
            Ok(())
        });
        let n = r.into_iter().collect::<Result<Vec<_>, String>>()?.len();
        c.sample(format!("{}: {} carried or claimed commitments exchanged, all rejected", nm, n));
        Ok(())
    });
}

fn main() {
    let mut c = Ctx::new("V01", "model_checking");
    c.rule("a state is an input of the verification circuit (previous proof, its state and statement, claimed new state); the circuit is run on it and must be satisfied exactly when the native verifier accepts and ends in that state");
    num_cpus::mc_set(1);
    let salts: Vec<u64> = (1..=c.tier(2, 8)).collect();
    accepts::<Ec0, Ec1>(&mut c, "Ec1 in Ec0", &salts);
    accepts::<Ec1, Ec0>(&mut c, "Ec0 in Ec1", &salts);
    forks::<D<Ec0>, D<Ec1>>(&mut c, "Ec1 in Ec0", 21);
    forks::<D<Ec1>, D<Ec0>>(&mut c, "Ec0 in Ec1", 22);
    faults::<D<Ec0>, D<Ec1>>(&mut c, "Ec1 in Ec0", 11, 15);
    let f = c.tier(14, 15);
    faults::<D<Ec1>, D<Ec0>>(&mut c, "Ec0 in Ec1", 12, f);
    commitments::<D<Ec0>, Ec1>(&mut c, "Ec1 in Ec0", 13);
    commitments::<D<Ec1>, Ec0>(&mut c, "Ec0 in Ec1", 14);
    num_cpus::mc_set(0);
    c.bound("k = 4, both directions of the cycle; every message of the proof, every field of the new leftovers, the deferred data, the carried leftovers and the carried deferred data, every fork, with one replacement (thorough: up to four)");
    c.assume("the previous proof is of a small circuit whose public inputs carry the statement's bits with distinct weights; bit strings of equal weighted sums are not distinguished");
    c.finish()
}
