//! P06: parameter generation, over every machine and every random source.
//!
//! The random source is part of the environment the checker controls: every
//! execution runs in a session of the controlled scheduler and every request
//! for random bytes is a schedule point answered from that session's script.
use crossbeam_utils::mc;
use halo::*;
use halo_mc::sched::*;
use halo_mc::tiny::E;
use halo_mc::*;
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone)]
struct Source {
    script: Vec<[u8; 32]>,
    pos: usize,
    next: u64,
    tiny: Option<u64>,
    /// every request is a schedule point
    points: bool,
}
static SOURCES: Mutex<Option<HashMap<usize, Source>>> = Mutex::new(None);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
impl Source {
    fn new(script: Vec<[u8; 32]>, tiny: Option<u64>, points: bool) -> Self {
        Source { script, pos: 0, next: 1, tiny, points }
    }
    fn answer(&mut self) -> [u8; 32] {
        if self.pos < self.script.len() {
            self.pos += 1;
            return self.script[self.pos - 1];
        }
        self.next += 1;
        let mut b = [0u8; 32];
        match self.tiny {
            // ascending x, any sign: distinct points
            Some(p) => {
                let x = self.next * 7 % p;
                b[..8].copy_from_slice(&x.to_le_bytes());
                b[31] |= ((mix(self.next) & 1) as u8) << 7;
            }
            None => {
                for i in 0..4 {
                    b[8 * i..8 * i + 8].copy_from_slice(&mix(self.next * 4 + i as u64 + 0x9e37_79b9_7f4a_7c15).to_le_bytes());
                }
            }
        }
        b
    }
}
fn answer(dest: &mut [u8]) -> bool {
    let Some(id) = mc::session() else { return false };
    let points = match SOURCES.lock().unwrap().as_ref().and_then(|m| m.get(&id).map(|s| s.points)) {
        Some(p) => p,
        None => return false,
    };
    if points {
        mc::yield_point();
    }
    let mut g = SOURCES.lock().unwrap();
    let s = g.as_mut().unwrap().get_mut(&id).unwrap();
    for part in dest.chunks_mut(32) {
        let a = s.answer();
        part.copy_from_slice(&a[..part.len()]);
    }
    true
}
/// Runs inside a session: installs its source, generates, removes it.
fn generate<C: Curve>(k: usize, src: &Source) -> Result<Params<C>, String> {
    let id = mc::session().expect("in a session");
    SOURCES.lock().unwrap().get_or_insert_with(HashMap::new).insert(id, src.clone());
    let r = guard(|| Params::<C>::new(k));
    SOURCES.lock().unwrap().as_mut().unwrap().remove(&id);
    r.map_err(|e| format!("parameter generation panics: {}", e))
}

fn good<C: Curve>(what: &str, p: &Params<C>, k: usize, b: C::Base) -> Result<(), String> {
    let d = 1usize << k;
    ensure!(p.d == d && p.n == d / 4 && p.k == k, "{}: d = {}, n = {}, k = {}", what, p.d, p.n, p.k);
    ensure!(p.g == C::one(), "{}: g is not the curve's generator", what);
    ensure!(p.generators.len() == d && p.generators_xy.len() == d, "{}: {} generators and {} coordinates, {} expected", what, p.generators.len(), p.generators_xy.len(), d);
    let mut seen = HashMap::new();
    for i in 0..d {
        let (x, y) = p.generators_xy[i];
        ensure!(!bool::from(p.generators[i].is_zero()), "{}: generator {} is the identity", what, i);
        ensure!(y * y == x * x * x + b, "{}: coordinates {} are not on the curve: {:?}", what, i, (x, y));
        let q = p.generators[i].get_xy();
        ensure!(bool::from(q.is_some()) && q.unwrap() == (x, y), "{}: coordinates {} are not those of generator {}", what, i, i);
        if let Some(j) = seen.insert((x.to_bytes(), y.to_bytes()), i) {
            return Err(format!("{}: generators {} and {} are the same point", what, j, i));
        }
    }
    Ok(())
}

/// A single execution with the default schedule.
fn once<C: Curve>(what: &str, k: usize, cpu: usize, src: &Source, b: C::Base) -> Result<(), String> {
    let (r, e) = mc::run(&[], 0, || generate::<C>(k, src));
    let p = r.map_err(|_| format!("{}: panic", what))?.map_err(|e| format!("{}: {}", what, e))?;
    states(1);
    transitions(e.points);
    validated(1);
    good(&format!("{}, {} CPUs", what, cpu), &p, k, b)
}

/// The first answers that are points, and one of each kind that is not.
fn letters<C: Curve>() -> Vec<(&'static str, [u8; 32])> {
    let x = |v: u64, sign: u8| {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&v.to_le_bytes());
        b[31] |= sign << 7;
        b
    };
    let is = |v: u64| bool::from(C::from_bytes(&x(v, 0)).is_some());
    let on = (1..).find(|v| is(*v)).unwrap();
    let on2 = (on + 1..).find(|v| is(*v)).unwrap();
    let off = (1..).find(|v| !is(*v)).unwrap();
    // p, the first encoding that is not canonical: the bytes of -1 plus one
    let mut p = (C::Base::zero() - C::Base::one()).to_bytes();
    p[0] += 1;
    vec![("a point", x(on, 0)), ("its negative", x(on, 1)), ("another point", x(on2, 1)), ("not on the curve", x(off, 0)), ("not on the curve, sign set", x(off, 1)), ("not canonical", p), ("all ones", [255; 32]), ("zero with sign", x(0, 1))]
}

fn main() {
    let mut c = Ctx::new("P06", "model_checking");
    c.rule("a state is one execution of the generator for a size, a CPU count, a schedule and a sequence of random answers; the parameters it returns must be what they are documented to be");
    getrandom::mc_answer(answer);
    let machines = |c: &mut Ctx, name: &'static str, f: &(dyn Fn(usize, usize) -> Result<(), String> + Sync), top: usize| {
        c.case(&format!("{}: sizes and CPU counts", name), |c| {
            for k in 4..=top {
                let d = 1usize << k;
                let mut cpus: Vec<usize> = (1..=40.min(d + 3)).collect();
                cpus.extend([d / 4 - 1, d / 4, d / 2, d - 1, d, d + 1, 2 * d, 1000]);
                cpus.sort();
                cpus.dedup();
                cpus.retain(|x| *x > 0);
                for &cpu in &cpus {
                    num_cpus::mc_set(cpu);
                    f(k, cpu)?;
                }
                num_cpus::mc_set(0);
                c.sample(format!("{}: 2^{} generators on {} CPU counts", name, k, cpus.len()));
            }
            Ok(())
        });
    };
    let (b0, b1) = (Fq::from_u64(5), Fp::from_u64(7));
    let top = c.tier(7, 10);
    machines(&mut c, "Ec0", &|k, cpu| once::<Ec0>(&format!("k = {}", k), k, cpu, &Source::new(vec![], None, false), b0), top);
    machines(&mut c, "Ec1", &|k, cpu| once::<Ec1>(&format!("k = {}", k), k, cpu, &Source::new(vec![], None, false), b1), top);
    type A = E<12097, 12289, 13, 0, 1>;
    type B = <A as Curve>::Base;
    let top = c.tier(9, 10);
    machines(&mut c, "tiny", &|k, cpu| once::<A>(&format!("k = {}", k), k, cpu, &Source::new(vec![], Some(12097), false), B::from_u64(13)), top);

    // every sequence of answers of the random source
    fn sources<C: Curve>(c: &mut Ctx, name: &str, b: C::Base, tiny: Option<u64>, len: usize) {
        c.case(&format!("{}: answers of the random source", name), |c| {
            let al = letters::<C>();
            let mut jobs: Vec<Vec<usize>> = vec![];
            let mut level = vec![vec![]];
            for _ in 0..len {
                level = level.iter().flat_map(|v: &Vec<usize>| (0..al.len()).map(move |l| { let mut w = v.clone(); w.push(l); w })).collect();
                // a repeated point is a source that is not random
                level.retain(|v| (0..3).all(|p| v.iter().filter(|x| **x == p).count() < 2));
                jobs.extend(level.iter().cloned());
            }
            let mut n = 0;
            for cpu in [1usize, 2, 4] {
                num_cpus::mc_set(cpu);
                for before in [0usize, 1, 3, 7, 15] {
                    let jobs: Vec<_> = jobs.iter().filter(|j| before == 0 || j.len() <= len - 1).collect();
                    n += jobs.len();
                    par(&jobs, |j| {
                        let mut src = Source::new(vec![], tiny, false);
                        // `before` answers that are points
                        while src.script.len() < before {
                            let mut s = src.clone();
                            s.script.clear();
                            s.pos = 0;
                            let a = s.answer();
                            src.next = s.next;
                            if bool::from(C::from_bytes(&a).is_some()) {
                                src.script.push(a);
                            }
                        }
                        src.script.extend(j.iter().map(|l| al[*l].1));
                        let what = format!("{}: answers {:?} after {} points", name, j.iter().map(|l| al[*l].0).collect::<Vec<_>>(), before);
                        once::<C>(&what, 4, cpu, &src, b)
                    })
                    .into_iter()
                    .collect::<Result<Vec<_>, String>>()?;
                }
            }
            num_cpus::mc_set(0);
            c.sample(format!("{}: {} sequences of answers up to length {}", name, n, len));
            Ok(())
        });
    }
    let len = c.tier(3, 4);
    sources::<Ec0>(&mut c, "Ec0", b0, None, len);
    sources::<Ec1>(&mut c, "Ec1", b1, None, len);
    // the tiny curve's own numbering keeps clear of the letters' points
    let len = c.tier(3, 4);
    sources::<A>(&mut c, "tiny", B::from_u64(13), Some(12097), len);

    // schedules: every request for random bytes is a point where another
    // worker may run
    let cfg: &[(usize, usize)] = c.tier(&[(2, 3), (3, 2), (4, 1), (5, 1)], &[(2, 5), (3, 3), (4, 2), (5, 2)]);
    for &(cpu, bound) in cfg {
        c.case(&format!("schedules on {} CPUs, {} preemptions", cpu, bound), |c| {
            num_cpus::mc_set(cpu);
            let src = Source::new(vec![], Some(12097), true);
            let r = explore("parameter generation", bound, || {
                let p = generate::<A>(4, &src)?;
                good("tiny", &p, 4, B::from_u64(13))
            });
            num_cpus::mc_set(0);
            let e = r?;
            c.sample(format!("{} CPUs, {} preemptions: {} schedules, {} threads, {} uncontrolled", cpu, bound, e.executions, e.threads, e.uncontrolled));
            Ok(())
        });
    }
    c.bound("sizes 2^4..2^7 (thorough 2^10), 1..=40 CPUs and counts around d/4, d/2, d, 2d; answers of the random source: every sequence up to length 3 (4) over 8 kinds after 0..15 points; schedules of 16 generators on 2..4 CPUs up to the stated preemption bounds");
    c.assume("the random source does not repeat a point; the all-zero answer (the identity's encoding) makes generation panic and is not counted as parameters");
    c.finish()
}
