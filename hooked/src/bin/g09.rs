//! G09: the shape of a circuit does not depend on its witness.
use halo::dev::{constraint_count, recursive_constraint_count, recursive_is_satisfied};
use halo::*;
use halo_mc::dlog::D;
use halo_mc::gad::*;
use halo_mc::proofref::start;
use halo_mc::ptgad::*;
use halo_mc::r1cs::{wire, Rec, Res};
use halo_mc::tiny::{E, T};
use halo_mc::*;
use halo_mc_hooked::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::Hasher;

// ------------------------------------------------- gadgets

type Shape = (Vec<u8>, Vec<Vec<(u32, Vec<u8>)>>);
fn shape<F: Field>(cs: &Rec<F>, outs: &[Out<F>]) -> Shape {
    let o = outs.iter().map(|o| {
        let mut t: Vec<(u32, F)> = vec![];
        for (v, c) in o.0.as_ref() {
            let w = wire(*v);
            match t.iter_mut().find(|x| x.0 == w) {
                Some(x) => x.1 = x.1 + c.value(),
                None => t.push((w, c.value())),
            }
        }
        t.retain(|x| x.1 != F::zero());
        t.sort_by_key(|x| x.0);
        t.into_iter().map(|(w, c)| (w, c.to_bytes().to_vec())).collect()
    });
    (cs.shape(), o.collect())
}
/// `total`: the gadget has a result for every witness. Otherwise it may refuse.
fn family<F: Field, W: Clone>(what: &str, total: bool, ws: &[W], build: &dyn Fn(&mut G<F>, &W) -> Res<Vec<Out<F>>>) -> Result<usize, String> {
    let run = |w: &W, blank: bool| -> Result<Option<Shape>, String> {
        let mut g = G::<F>::new(blank);
        g.cs.lenient = true;
        let r = guard(|| build(&mut g, w));
        transitions(1);
        match r {
            Ok(Ok(o)) => {
                if g.cs.depth != 0 {
                    return Err("unbalanced namespaces".into());
                }
                if !blank && total && !g.cs.errors.is_empty() {
                    return Err(format!("no assignment: {:?}", g.cs.errors));
                }
                Ok(Some(shape(&g.cs, &o)))
            }
            _ if !blank && !total => Ok(None),
            Ok(Err(e)) => Err(format!("synthesis fails with {:?}", e)),
            Err(e) => Err(e),
        }
    };
    let want = run(&ws[0], true).map_err(|e| format!("{} without a witness: {}", what, e))?.unwrap();
    let mut n = 0;
    for (i, w) in ws.iter().enumerate() {
        if let Some(s) = run(w, false).map_err(|e| format!("{}, witness {}: {}", what, i, e))? {
            ensure!(s.0 == want.0, "{}: the constraints with witness {} of {} are not those without", what, i, ws.len());
            ensure!(s.1 == want.1, "{}: the output wires with witness {} of {} are not those without", what, i, ws.len());
            n += 1;
            validated(1);
        }
        states(1);
    }
    ensure!(n > 0, "{}: never succeeds", what);
    Ok(n)
}
type Job<'a> = Box<dyn Fn() -> Result<usize, String> + Sync + Send + 'a>;
fn go(c: &mut Ctx, name: &str, jobs: Vec<Job>) {
    c.case(name, |c| {
        let n: usize = par(&jobs, |j| j()).into_iter().collect::<Result<Vec<_>, String>>()?.into_iter().sum();
        c.sample(format!("{}: {} gadgets, {} witnesses", name, jobs.len(), n));
        Ok(())
    });
}
/// One gadget: name, total, witnesses, code.
fn job<'a, F: Field, W: Clone + Sync + Send + 'a>(what: String, total: bool, ws: &'a [W], f: impl Fn(&mut G<F>, &W) -> Res<Vec<Out<F>>> + Sync + Send + 'a) -> Job<'a> {
    Box::new(move || family::<F, W>(&what, total, ws, &f))
}

fn booleans<F: Field>(c: &mut Ctx, name: &str) {
    let ws: Vec<[bool; 3]> = (0..8).map(|i| [i & 1 == 1, i & 2 == 2, i & 4 == 4]).collect();
    let mut v: Vec<Job> = vec![];
    for kinds in 0..64usize {
        // 0, 3: the two constants
        let k = [kinds % 4, kinds / 4 % 4, kinds / 16];
        let get = move |g: &mut G<F>, w: &[bool; 3], i: usize| match k[i] {
            0 => Boolean::constant(false),
            3 => Boolean::constant(true),
            j => g.boolean(j as u8, w[i]),
        };
        for op in 0..4 {
            v.push(job(format!("{}: boolean operation {} on kinds {:?}", name, op, k), true, &ws, move |g: &mut G<F>, w| {
                let (x, y, z) = (get(g, w, 0), get(g, w, 1), get(g, w, 2));
                let r = match op {
                    0 => Boolean::xor(&mut g.cs, &x, &y)?,
                    1 => Boolean::and(&mut g.cs, &x, &y)?,
                    2 => Boolean::sha256_ch(&mut g.cs, &x, &y, &z)?,
                    _ => Boolean::sha256_maj(&mut g.cs, &x, &y, &z)?,
                };
                Ok(vec![g.out_bool(&r), g.out_bool(&r.not())])
            }));
        }
        if k[2] == 0 {
            v.push(job(format!("{}: boolean equality on kinds {:?}", name, k), k[0] % 3 != 0 || k[1] % 3 != 0 || k[0] == k[1], &ws, move |g: &mut G<F>, w| {
                let (x, y) = (get(g, w, 0), get(g, w, 1));
                if let (true, true) = (x.is_constant(), y.is_constant()) {
                    return Ok(vec![]);
                }
                Boolean::enforce_equal(&mut g.cs, &x, &y)?;
                Ok(vec![])
            }));
        }
    }
    for op in 0..5 {
        v.push(job(format!("{}: bit operation {}", name, op), true, &ws, move |g: &mut G<F>, w| {
            let (x, y) = (g.bit(w[0]), g.bit(w[1]));
            let r = match op {
                0 => AllocatedBit::xor(&mut g.cs, &x, &y)?,
                1 => AllocatedBit::and(&mut g.cs, &x, &y)?,
                2 => AllocatedBit::and_not(&mut g.cs, &x, &y)?,
                3 => AllocatedBit::nor(&mut g.cs, &x, &y)?,
                _ => {
                    let b = g.opt(w[2]);
                    let b = AllocatedBit::alloc_input_unchecked(&mut g.cs, || b.ok_or(SynthesisError::AssignmentMissing))?;
                    b.check(&mut g.cs)?;
                    b
                }
            };
            Ok(vec![g.out_bit(&r)])
        }));
    }
    go(c, &format!("{} booleans", name), v);
}

fn numbers<F: Field>(c: &mut Ctx, name: &str, vals: &[F], unpack: bool) {
    let ws: Vec<[F; 2]> = vals.iter().flat_map(|x| vals.iter().map(move |y| [*x, *y])).collect();
    let mut v: Vec<Job> = vec![];
    for op in 0..9 {
        let total = ![1, 2].contains(&op);
        v.push(job(format!("{}: number operation {}", name, op), total, &ws, move |g: &mut G<F>, w| {
            let (x, y) = (g.num(w[0]), g.num(w[1]));
            let r = match op {
                0 => x.mul(&mut g.cs, &y)?,
                1 => x.invert(&mut g.cs)?,
                2 => x.sqrt(&mut g.cs)?,
                3 => x.inputize(&mut g.cs)?,
                4 => {
                    let v = g.w(w[0]);
                    let (a, b) = AllocatedNum::alloc_and_square(&mut g.cs, || v)?;
                    return Ok(vec![g.out_anum(&a), g.out_anum(&b)]);
                }
                5 => AllocatedNum::rescue_alpha(&mut g.cs, &Combination::from(x))?,
                6 => AllocatedNum::rescue_invalpha(&mut g.cs, &Combination::from(x))?,
                7 => {
                    let v = g.w(w[0]);
                    AllocatedNum::alloc_input(&mut g.cs, || v)?
                }
                _ => AllocatedNum::one(&mut g.cs),
            };
            Ok(vec![g.out_anum(&r)])
        }));
    }
    for kinds in 0..9u8 {
        let k = [kinds % 3, kinds / 3];
        for op in 0..5 {
            v.push(job(format!("{}: combination operation {} on kinds {:?}", name, op, k), true, &ws, move |g: &mut G<F>, w| {
                let fixed = |i: usize| if k[i] == 0 { F::from_u64(3 + i as u64) } else { w[i] };
                let (x, y) = (g.anum(k[0], fixed(0)), g.anum(k[1], fixed(1)));
                let a = Combination::from(x) + y;
                let b = Combination::from(y).scale(F::from_u64(5)) + (Coeff::NegativeOne, x);
                let r: Num<F> = match op {
                    0 => a.mul(&mut g.cs, &b)?.into(),
                    1 => a.square(&mut g.cs)?.into(),
                    2 => a.evaluate(&mut g.cs)?,
                    3 => b.rescue_alpha(&mut g.cs)?,
                    _ => b.rescue_invalpha(&mut g.cs)?,
                };
                Ok(vec![g.out_num(&r)])
            }));
        }
    }
    if unpack {
        for kind in 1..3 {
            v.push(job(format!("{}: bits of kind {}", name, kind), true, vals, move |g: &mut G<F>, w| {
                let n = g.anum(kind, *w);
                let b = unpack_fe(&mut g.cs, &n)?;
                Ok(b.iter().map(|b| g.out_bit(b)).collect())
            }));
        }
    }
    go(c, &format!("{} numbers", name), v);
}

fn words<F: Field>(c: &mut Ctx, name: &str) {
    let w32: Vec<[u32; 3]> = {
        let a = [0u32, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x0f0f_3c5a];
        (0..216).map(|i| [a[i % 6], a[i / 6 % 6], a[i / 36]]).collect()
    };
    let w64: Vec<[u64; 4]> = {
        let a = [0u64, 1, !0, 1 << 63, 0x0123_4567_89ab_cdef];
        a.iter().flat_map(|x| a.iter().map(move |y| [*x, *y, *y ^ 1, !*x])).collect()
    };
    let word = |g: &mut G<F>, kind: u8, v: u32, i: usize| match kind {
        0 => UInt32::constant(0x1234_5678 << i),
        1 => {
            let o = g.opt(v);
            UInt32::alloc(&mut g.cs, o).unwrap()
        }
        _ => UInt32::from_bits(&(0..32).map(|j| if j % 3 == 0 { Boolean::constant(j % 2 == 0) } else { g.boolean((j % 3) as u8, v >> j & 1 == 1) }).collect::<Vec<_>>()),
    };
    let mut v: Vec<Job> = vec![];
    for kinds in 0..27u8 {
        let k = [kinds % 3, kinds / 3 % 3, kinds / 9];
        for op in 0..6 {
            v.push(job(format!("{}: word operation {} on kinds {:?}", name, op, k), true, &w32, move |g: &mut G<F>, w| {
                let x: Vec<UInt32> = (0..3).map(|i| word(g, k[i], w[i], i)).collect();
                let r = match op {
                    0 => UInt32::addmany(&mut g.cs, &x[..2])?,
                    1 => UInt32::addmany(&mut g.cs, &x)?,
                    2 => UInt32::sha256_ch(&mut g.cs, &x[0], &x[1], &x[2])?,
                    3 => UInt32::sha256_maj(&mut g.cs, &x[0], &x[1], &x[2])?,
                    4 => x[0].xor(&mut g.cs, &x[1])?.rotr(7),
                    _ => x[0].shr(3).xor(&mut g.cs, &x[2].rotr(31))?,
                };
                Ok(r.into_bits().iter().map(|b| g.out_bool(b)).collect())
            }));
        }
    }
    for kinds in 0..16u8 {
        v.push(job(format!("{}: 64-bit product, kinds {:b}", name, kinds), true, &w64, move |g: &mut G<F>, w| {
            let x: Vec<UInt64> = (0..4)
                .map(|i| {
                    if kinds >> i & 1 == 0 {
                        return UInt64::constant(0xdead_beef << i);
                    }
                    let o = g.opt(w[i]);
                    UInt64::alloc(&mut g.cs, o).unwrap()
                })
                .collect();
            let (lo, hi) = x[0].mul_acc2(&mut g.cs, &x[1], &x[2], &x[3])?;
            Ok(lo.into_bits().iter().chain(&hi.into_bits()).map(|b| g.out_bool(b)).collect())
        }));
    }
    go(c, &format!("{} words", name), v);
}
fn hashes<F: Field>(c: &mut Ctx, name: &str, vals: &[F]) {
    let msgs: Vec<u8> = vec![0, 0xff, 0x80, 1, 0x5a];
    let ws: Vec<F> = vals.to_vec();
    let mut v: Vec<Job> = vec![];
    for kind in 1..3u8 {
        for len in [0usize, 8, 440, 448, 512] {
            v.push(job(format!("{}: digest of {} bits of kind {}", name, len, kind), true, &msgs, move |g: &mut G<F>, w| {
                let b: Vec<Boolean> = (0..len).map(|i| g.boolean(kind, w >> (i % 8) & 1 == 1)).collect();
                let d = sha256::sha256(&mut g.cs, &b)?;
                Ok(d.iter().map(|b| g.out_bool(b)).collect())
            }));
        }
    }
    for (kind, n) in [(1u8, 0usize), (1, 1), (1, 11), (1, 12), (1, 13), (2, 3), (0, 2), (3, 5)] {
        v.push(job(format!("{}: sponge, {} elements of kind {}", name, n, kind), true, &ws, move |g: &mut G<F>, w| {
            let mut s = RescueGadget::new(&mut g.cs)?;
            for i in 0..n {
                let k = if kind == 3 { (i % 3) as u8 } else { kind };
                let x = if k == 0 { F::from_u64(i as u64) } else { *w + F::from_u64(i as u64) };
                let x = g.anum(k, x);
                s.absorb(&mut g.cs, x)?;
            }
            let mut o = vec![];
            for _ in 0..2 {
                let x = s.squeeze(&mut g.cs)?;
                o.push(g.out_anum(&x));
            }
            let x = g.num(*w);
            s.absorb(&mut g.cs, x.into())?;
            let x = s.squeeze(&mut g.cs)?;
            o.push(g.out_anum(&x));
            Ok(o)
        }));
    }
    go(c, &format!("{} hashes", name), v);
}

fn points<C: Group>(c: &mut Ctx, pts: &[C], maxlen: usize, challenges: &[u128]) {
    let name = C::label();
    let ws: Vec<(C, C, bool)> = pts.iter().flat_map(|p| pts.iter().flat_map(move |q| [false, true].into_iter().map(move |b| (*p, *q, b)))).collect();
    let one = C::one();
    let mut v: Vec<Job> = vec![];
    for kp in 0..4u8 {
        for kq in 0..4u8 {
            for op in 0..8 {
                let total = ![1, 3, 5].contains(&op);
                v.push(job(format!("{}: point operation {} on kinds {} {}", name, op, kp, kq), total, &ws, move |g: &mut G<C::Base>, (p, q, b): &(C, C, bool)| {
                    let p = if kp == 0 { one } else { *p };
                    let q = if kq == 0 { one.r_endo() } else { *q };
                    let (x, y) = (point(g, kp, &p), point(g, kq, &q));
                    let cond = g.boolean(1, *b);
                    let r = match op {
                        0 => x.add(&mut g.cs, &y)?,
                        1 => x.add_incomplete(&mut g.cs, &y)?,
                        2 => x.add_conditionally(&mut g.cs, &y, &cond)?,
                        3 => x.add_conditionally_incomplete(&mut g.cs, &y, &cond)?,
                        4 => x.double(&mut g.cs)?,
                        5 => x.double_and_add_incomplete(&mut g.cs, &y)?,
                        6 => x.conditional_neg(&mut g.cs, &cond.not())?,
                        _ => x.conditional_endo(&mut g.cs, &cond)?,
                    };
                    let r = r.add(&mut g.cs, &y)?;
                    Ok(xy_outs(g, &r))
                }));
            }
        }
    }
    go(c, &format!("{} points", name), v);
    let mut long: Vec<(C, u128)> = vec![];
    for p in pts.iter() {
        for k in challenges {
            long.push((*p, *k));
        }
    }
    let short: Vec<Vec<(C, u128)>> = (0..=maxlen).map(|l| pts.iter().flat_map(|p| (0..1u128 << l).map(move |k| (*p, k))).collect()).collect();
    let mut v: Vec<Job> = vec![];
    for kind in 0..3u8 {
        for op in 0..6 {
            let lens: Vec<usize> = if op >= 4 { vec![128] } else { (0..=maxlen).collect() };
            for l in lens {
                if op % 2 == 0 && l == 0 && op > 0 && op < 4 || op == 3 && l == 0 {
                    continue;
                }
                let w = if op >= 4 { &long } else { &short[l] };
                let total = op == 0;
                v.push(job(format!("{}: multiple {} by {} bits, kind {}", name, op, l, kind), total, w, move |g: &mut G<C::Base>, (p, k): &(C, u128)| {
                    let p = if kind == 0 { one } else { *p };
                    let x = point(g, kind, &p);
                    let b: Vec<AllocatedBit> = (0..l).map(|i| g.bit(k >> i & 1 == 1 || (op == 2 || op == 3) && i + 1 == l)).collect();
                    let r = match op {
                        0 => x.multiply(&mut g.cs, &b)?,
                        1 => x.multiply_inv(&mut g.cs, &b)?,
                        2 => x.multiply_fast(&mut g.cs, &b)?,
                        3 => x.multiply_inv_fast(&mut g.cs, &b)?,
                        4 => x.multiply_endo(&mut g.cs, &b)?,
                        _ => x.multiply_inv_endo(&mut g.cs, &b)?,
                    };
                    Ok(xy_outs(g, &r))
                }));
            }
        }
    }
    go(c, &format!("{} multiples", name), v);
}

// ------------------------------------------------- the recursion circuit

/// Hashes what a circuit emits; never stops for lack of a value.
struct Trace<F: Field> {
    h: DefaultHasher,
    vars: usize,
    gates: usize,
    lins: usize,
    inputs: usize,
    depth: i64,
    missing: usize,
    /// hash after every 2^14 operations
    marks: Vec<u64>,
    ops: usize,
    path: Vec<String>,
    paths: Vec<String>,
    _f: std::marker::PhantomData<F>,
}
impl<F: Field> Trace<F> {
    fn new() -> Self {
        Trace { h: DefaultHasher::new(), vars: 1, gates: 0, lins: 0, inputs: 0, depth: 0, missing: 0, marks: vec![], ops: 0, path: vec![], paths: vec![], _f: Default::default() }
    }
    fn op(&mut self, code: u8) {
        self.h.write_u8(code);
        self.ops += 1;
        if self.ops % (1 << 14) == 0 {
            self.marks.push(self.h.finish());
            self.paths.push(self.path.join("/"));
        }
    }
    fn var(&mut self) -> Variable {
        self.vars += 1;
        Variable::A(self.vars)
    }
    fn w(v: Variable) -> u64 {
        wire(v) as u64
    }
}
impl<F: Field> ConstraintSystem<F> for Trace<F> {
    type Root = Self;
    const ONE: Variable = Variable::A(1);
    fn alloc<FN: FnOnce() -> Res<F>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, _a: A, value: FN) -> Res<Variable> {
        self.missing += value().is_err() as usize;
        self.op(1);
        Ok(self.var())
    }
    fn alloc_input<FN: FnOnce() -> Res<F>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, _a: A, value: FN) -> Res<Variable> {
        self.missing += value().is_err() as usize;
        self.inputs += 1;
        self.op(2);
        Ok(self.var())
    }
    fn enforce_zero(&mut self, lc: LinearCombination<F>) {
        self.lins += 1;
        self.op(3);
        let mut t: Vec<(u64, F)> = lc.as_ref().iter().map(|(v, c)| (Self::w(*v), c.value())).collect();
        t.sort_by_key(|x| x.0);
        let mut i = 0;
        while i < t.len() {
            let (w, mut s) = t[i];
            i += 1;
            while i < t.len() && t[i].0 == w {
                s = s + t[i].1;
                i += 1;
            }
            if s != F::zero() {
                self.h.write_u64(w);
                self.h.write(&s.to_bytes());
            }
        }
    }
    fn multiply<FN: FnOnce() -> Res<(F, F, F)>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, _a: A, values: FN) -> Res<(Variable, Variable, Variable)> {
        self.missing += values().is_err() as usize;
        self.gates += 1;
        self.op(4);
        self.vars += 1;
        let k = self.vars;
        Ok((Variable::A(k), Variable::B(k), Variable::C(k)))
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, name_fn: N) {
        self.path.push(name_fn().into());
        self.depth += 1;
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        self.path.pop();
        self.depth -= 1;
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

fn emitted<E1, E2>(what: &str, params: &Params<E2>, c: Option<&Case<E1, E2>>, old_payload: bool) -> Result<Trace<E1::Scalar>, String>
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    let mut cs = Trace::<E1::Scalar>::new();
    let r = match c {
        None => {
            let v = mc::Verifier::<E1, E2, Inner> { params, base_case: None, inner_circuit: &Inner, proof: None, new_payload: &[0x77], forkvalues: None, old_leftovers: None, new_leftovers: None, deferred: None };
            guard(|| v.synthesize(&mut cs))
        }
        Some(c) => {
            let old = c.proof.as_ref().map(|p| RecursiveProof::<E2, E1>::mc_from(mc::Parts { proof: p.clone(), oldproof1: c.old.clone(), oldproof2: c.l1.clone(), deferred: c.old_deferred.clone(), payload: vec![c.old_payload] }));
            let v = mc::Verifier::<E1, E2, Inner> {
                params,
                base_case: c.base,
                inner_circuit: &Inner,
                proof: if old_payload { old.as_ref() } else { None },
                new_payload: &[c.new_payload],
                forkvalues: Some(&c.forks),
                old_leftovers: Some(c.l1.clone()),
                new_leftovers: Some(c.new.clone()),
                deferred: Some(c.deferred.clone()),
            };
            guard(|| v.synthesize(&mut cs))
        }
    };
    match r {
        Ok(Ok(())) => Ok(cs),
        Ok(Err(e)) => Err(format!("{}: synthesis fails: {:?}", what, e)),
        Err(e) => Err(format!("{}: {}", what, e)),
    }
}

fn recursion<E1, E2>(c: &mut Ctx, nm: &str, salt: u64)
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E2: Curve<Base = <E1 as Curve>::Scalar>,
{
    c.case(&format!("{}: verification circuit", nm), |c| {
        let w = World::<E1, E2>::new(salt);
        let blank = emitted(&format!("{}: no witness", nm), &w.params, None::<&Case<E1, E2>>, true)?;
        ensure!(blank.depth == 0 && blank.missing > 0, "{}: namespaces unbalanced without a witness", nm);
        let mut jobs: Vec<(String, Case<E1, E2>, bool)> = vec![("first step".into(), w.first(), true), ("second step".into(), w.second(), true)];
        for p in [0x6cu8, 0, 255] {
            jobs.push((format!("later step, payload {:#x}", p), w.later(p), true));
        }
        // state without the proof; the circuit cannot be complete, but must look the same
        jobs.push(("later step without the proof".into(), w.later(0x33), false));
        // degenerate proofs: points that are the identity or alike, scalars that are zero
        let h = w.later(0x0f);
        for (i, part) in halo_mc::proofref::parts(4).into_iter().enumerate() {
            let mut z = h.clone();
            let mut p = z.proof.clone().unwrap();
            match halo_mc::proofref::slot(&mut p, part) {
                halo_mc::proofref::Slot::P(s) => *s = if i % 2 == 0 { E2::zero() } else { E2::one() },
                halo_mc::proofref::Slot::S(s) => *s = E2::Scalar::zero(),
            }
            z.proof = Some(p);
            jobs.push((format!("degenerate {}", halo_mc::proofref::name(part)), z, true));
        }
        let mut z = h.clone();
        z.old = start(&w.params);
        z.new.s_new_commitment = E2::zero();
        z.new.g_new = E2::zero();
        jobs.push(("degenerate leftovers".into(), z, true));
        if !c.thorough {
            let mut i = 0;
            jobs.retain(|j| {
                i += j.0.starts_with("degenerate") as usize;
                !j.0.starts_with("degenerate") || i % 5 == 1
            });
        }
        par(&jobs, |(what, case, with)| {
            states(1);
            let t = match emitted(what, &w.params, Some(case), *with) {
                Ok(t) => t,
                // a degenerate witness may be refused, an honest one not
                Err(_) if what.starts_with("degenerate") => return Ok(()),
                Err(e) => return Err(format!("{}: {}", nm, e)),
            };
            transitions(t.ops as u64);
            validated(1);
            let at = t.marks.iter().zip(&blank.marks).position(|(a, b)| a != b).map(|i| format!("; the first difference is before {} or {}", t.paths[i], blank.paths[i]));
            ensure!(
                (t.h.finish(), t.ops, t.gates, t.lins, t.inputs, t.depth) == (blank.h.finish(), blank.ops, blank.gates, blank.lins, blank.inputs, 0),
                "{}: {}: {} gates, {} linear constraints, {} inputs, but {}, {}, {} without a witness{}",
                nm, what, t.gates, t.lins, t.inputs, blank.gates, blank.lins, blank.inputs, at.unwrap_or_default()
            );
            Ok(())
        })
        .into_iter()
        .collect::<Result<Vec<_>, String>>()?;
        c.sample(format!("{}: {} witnesses, {} operations each", nm, jobs.len(), blank.ops));

        // the tools for recursive circuits
        let counts = |x: std::collections::BTreeMap<String, (dev::ConstraintCounts, Option<String>)>| -> Vec<(String, [usize; 4])> { x.into_iter().map(|(k, v)| (k, [v.0.allocations, v.0.mult_constraints, v.0.total_mults, v.0.total_lcs])).collect() };
        let tool = counts(recursive_constraint_count::<E1, E2, Inner, Basic>(&w.params, &Inner, &[0x77]).map_err(|e| format!("{:?}", e))?);
        let root = tool.iter().find(|x| x.0.is_empty()).ok_or("no count for the whole circuit")?;
        ensure!(root.1[1] == blank.gates, "{}: {} gates counted, {} issued", nm, root.1[1], blank.gates);
        // one allocation and constraint for the constant; one constraint per input
        ensure!(root.1[3] == blank.lins + blank.inputs + 1, "{}: {} linear constraints counted, {} and {} inputs issued", nm, root.1[3], blank.lins, blank.inputs);
        let live = w.later(0x41);
        let old = RecursiveProof::<E2, E1>::mc_from(mc::Parts { proof: live.proof.clone().unwrap(), oldproof1: live.old.clone(), oldproof2: live.l1.clone(), deferred: live.old_deferred.clone(), payload: vec![live.old_payload] });
        let v = mc::Verifier::<E1, E2, Inner> { params: &w.params, base_case: Some(false), inner_circuit: &Inner, proof: Some(&old), new_payload: &[live.new_payload], forkvalues: Some(&live.forks), old_leftovers: Some(live.l1.clone()), new_leftovers: Some(live.new.clone()), deferred: Some(live.deferred.clone()) };
        let other = counts(constraint_count::<_, _, Basic>(&v).map_err(|e| format!("{:?}", e))?);
        // (namespaces are named after what is known, so only the sum is comparable)
        let other = other.iter().find(|x| x.0.is_empty()).ok_or("no count for the whole circuit")?;
        ensure!(root == other, "{}: the counts depend on the witness: {:?} without, {:?} with", nm, root, other);
        // first steps: the tool says what the circuit says
        for p in [step(BASE), step(BASE) ^ 4, BASE, 0] {
            let r = recursive_is_satisfied::<E1, E2, Inner, Basic>(&w.params1, &w.params, None, &Inner, &[p]);
            ensure!((r == Ok(true)) == (p == step(BASE)), "{}: a first step to {:#x} is reported {:?}", nm, p, r);
            states(1);
        }
        Ok(())
    });
}

fn main() {
    let mut c = Ctx::new("G09", "model_checking");
    c.rule("every gadget is synthesized without a witness and with each enumerated witness, degenerate ones included; allocations, inputs, gates, linear constraints and output wires must be the same sequence every time; likewise the whole verification circuit, whose operations are hashed in order");
    booleans::<T<7, 0>>(&mut c, "F7");
    booleans::<Fp>(&mut c, "Fp");
    type F13 = T<13, 0>;
    numbers::<F13>(&mut c, "F13", &F13::all().collect::<Vec<_>>(), false);
    fn few<F: Field>() -> Vec<F> {
        vec![F::zero(), F::one(), -F::one(), F::from_u64(2), F::BETA, F::from_u128(1 << 127), -F::from_u64(5), F::from_u64(7).pow(&[1 << 40, 3, 0, 0])]
    }
    numbers::<Fp>(&mut c, "Fp", &few(), true);
    numbers::<Fq>(&mut c, "Fq", &few(), true);
    words::<Fp>(&mut c, "Fp");
    words::<Fq>(&mut c, "Fq");
    hashes::<Fp>(&mut c, "Fp", &few::<Fp>()[..4]);
    hashes::<Fq>(&mut c, "Fq", &few::<Fq>()[..4]);
    let m = c.tier(3, 5);
    let ch: Vec<u128> = vec![0, !0, 1, 1 << 127, !0 / 3];
    points(&mut c, &E::<7, 13, 3, 0, 0>::all(), m, &ch);
    points(&mut c, &E::<13, 7, 6, 0, 0>::all(), m, &ch);
    points(&mut c, &E::<19, 13, 2, 0, 1>::all(), m, &ch);
    fn real<C: Group>() -> Vec<C> {
        let o = C::one();
        vec![C::zero(), o, o.r_neg(), o.r_add(&o), o.r_endo(), o.r_times(7)]
    }
    points::<Ec0>(&mut c, &real(), 3, &ch);
    points::<Ec1>(&mut c, &real(), 3, &ch);
    recursion::<D<Ec0>, D<Ec1>>(&mut c, "Ec1 in Ec0", 31);
    recursion::<D<Ec1>, D<Ec0>>(&mut c, "Ec0 in Ec1", 32);
    c.bound("all witnesses over F_7 and F_13 and all point pairs of curves over F_7, F_13, F_19, in every mix of constant, allocated and scaled operands; landmark witnesses over the production fields and curves; the verification circuit at k = 4 with honest first, second and later steps, and proofs with a degenerate part (thorough: every part)");
    c.assume("a gadget with a documented domain, or given a malformed proof, may refuse a witness outside it; it may not emit another shape");
    c.finish()
}
