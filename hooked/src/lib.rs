//! The recursive verification circuit on small parameters (needs the hook).
use halo::*;
use halo_mc::proofref::{fixed_params, start};
use halo_mc::*;

/// Runs a circuit once, checking every gate and constraint as it is emitted.
pub struct Sat<F: Field> {
    val: Vec<F>,
    pub inputs: Vec<F>,
    pub gates: usize,
    pub lins: usize,
    /// the first violation
    pub bad: Option<String>,
    path: Vec<String>,
}
pub mod complete;
pub use complete::{Full, Res, Spent};
impl<F: Field> Sat<F> {
    pub fn new() -> Self {
        Sat { val: vec![F::one(), F::zero(), F::zero()], inputs: vec![], gates: 0, lins: 0, bad: None, path: vec![] }
    }
    fn wire(v: Variable) -> usize {
        match v {
            Variable::A(i) => 3 * (i - 1),
            Variable::B(i) => 3 * (i - 1) + 1,
            Variable::C(i) => 3 * (i - 1) + 2,
        }
    }
    fn violated(&mut self, what: &str) {
        if self.bad.is_none() {
            self.bad = Some(format!("{} in {}", what, self.path.join("/")));
        }
    }
}
impl<F: Field> ConstraintSystem<F> for Sat<F> {
    type Root = Self;
    const ONE: Variable = Variable::A(1);
    fn alloc<FN, A, AR>(&mut self, _a: A, value: FN) -> Res<Variable>
    where
        FN: FnOnce() -> Res<F>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.bad.is_some() {
            return Err(SynthesisError::Violation);
        }
        let v = value()?;
        self.val.extend([v, F::zero(), F::zero()]);
        Ok(Variable::A(self.val.len() / 3))
    }
    fn alloc_input<FN, A, AR>(&mut self, a: A, value: FN) -> Res<Variable>
    where
        FN: FnOnce() -> Res<F>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.alloc(a, value)?;
        self.inputs.push(self.val[Self::wire(v)]);
        Ok(v)
    }
    fn enforce_zero(&mut self, lc: LinearCombination<F>) {
        self.lins += 1;
        let mut s = F::zero();
        for (v, c) in lc.as_ref() {
            s = s + self.val[Self::wire(*v)] * c.value();
        }
        if s != F::zero() {
            self.violated("a linear constraint")
        }
    }
    fn multiply<FN, A, AR>(&mut self, a: A, values: FN) -> Res<(Variable, Variable, Variable)>
    where
        FN: FnOnce() -> Res<(F, F, F)>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.bad.is_some() {
            return Err(SynthesisError::Violation);
        }
        let (x, y, z) = values()?;
        self.gates += 1;
        self.val.extend([x, y, z]);
        if x * y != z {
            let w: String = a().into();
            self.violated(&w)
        }
        let k = self.val.len() / 3;
        Ok((Variable::A(k), Variable::B(k), Variable::C(k)))
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.path.push(name_fn().into());
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        self.path.pop();
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

pub const BASE: u8 = 0b1011_0010;
/// The payload a step leads to.
pub fn step(p: u8) -> u8 {
    p.rotate_right(1) ^ 0b0000_1001
}
/// The application: bit i of the new payload is bit i + 1 of the old one,
/// bits 0 and 3 inverted.
pub struct Inner;
impl<F: Field> RecursiveCircuit<F> for Inner {
    fn base_payload(&self) -> Vec<bool> {
        (0..8).map(|i| BASE >> i & 1 == 1).collect()
    }
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS, old: &[AllocatedBit], new: &[AllocatedBit]) -> Res<()> {
        // payloads of another length are not this application's business
        for i in 0..8.min(new.len()) {
            let lc = LinearCombination::from(new[i].get_variable());
            if let Some(o) = old.get((i + 1) % 8) {
                let o = o.get_variable();
                cs.enforce_zero(if step(0) >> i & 1 == 1 { lc + o - CS::ONE } else { lc - o });
            }
        }
        Ok(())
    }
}

/// The statement proved over E2 in place of a recursion circuit of its own:
/// a product, and public inputs that carry every bit of the recursive
/// statement, each with its own weight.
pub struct Carrier<F: Field>(pub Vec<F>, pub bool);
pub const CLASSES: usize = 3;
impl<F: Field> Circuit<F> for Carrier<F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Res<()> {
        for v in &self.0 {
            cs.alloc_input(|| "", || if self.1 { Ok(*v) } else { Err(SynthesisError::AssignmentMissing) })?;
        }
        let (a, b) = (F::from_u64(6), F::from_u64(7));
        let (x, y, z) = cs.multiply(|| "", || if self.1 { Ok((a, b, a * b)) } else { Err(SynthesisError::AssignmentMissing) })?;
        cs.enforce_zero(LinearCombination::from(x) + y + z - (Coeff::Full(F::from_u64(55)), CS::ONE));
        Ok(())
    }
}
fn weight(i: usize) -> u64 {
    (i / CLASSES) as u64 * 2 + 1
}
pub fn bits(bytes: &[u8]) -> Vec<bool> {
    bytes.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}
/// Parameters whose k = 4 commit to the weighted sums.
pub fn carrier_params<C: Curve>(salt: u64) -> Params<C> {
    let mut p = fixed_params::<C>(4, salt);
    let n = 8 + 2 * (1024 + 128 * 5) + 3072 + 12 * 128;
    let mut xy = p.generators_xy[..2].to_vec();
    let is: Vec<usize> = (0..n).collect();
    xy.extend(par(&is, |i| Ok((p.generators[2 + i % CLASSES] * C::Scalar::from_u64(weight(*i))).get_xy().unwrap())).into_iter().map(|x| x.unwrap()));
    p.generators_xy = xy;
    p
}
pub fn carried<F: Field>(b: &[bool]) -> Vec<F> {
    let mut v = vec![F::zero(); CLASSES];
    for (i, b) in b.iter().enumerate() {
        if *b {
            v[i % CLASSES] = v[i % CLASSES] + F::from_u64(weight(i));
        }
    }
    v
}

/// The params, and state to begin with.
pub struct World<E1: Curve, E2: Curve> {
    pub params: Params<E2>,
    pub params1: Params<E1>,
    /// what the previous proof was made with
    pub old: Leftovers<E2>,
    /// what the previous proof put aside for the next one over E1
    pub l1: Leftovers<E1>,
    /// from the proof before the previous one
    pub deferred: Deferred<E1::Scalar>,
}
impl<E1: Curve<Base = <E2 as Curve>::Scalar>, E2: Curve<Base = <E1 as Curve>::Scalar>> World<E1, E2> {
    pub fn new(salt: u64) -> Self {
        let params = carrier_params::<E2>(salt);
        let params1 = carrier_params::<E1>(salt + 1);
        // a chain over either curve, so that nothing is a dummy
        // (other values each time: the same would lead to the same challenges)
        let v2 = |i: u64| [3, 5 + i, 8].map(|x| E2::Scalar::from_u64(x + salt)).to_vec();
        let v0 = [2, 6, 1].map(|x| E1::Scalar::from_u64(x + salt));
        let v1 = [2, 7, 1].map(|x| E1::Scalar::from_u64(x + salt));
        let mut old = start(&params);
        for i in 0..2 {
            old = Proof::new::<_, Basic>(&params, &Carrier(v2(i), true), &old).unwrap().1;
        }
        let (_, l) = Proof::new::<_, Basic>(&params1, &Carrier(v0.to_vec(), true), &start(&params1)).unwrap();
        let (p, l1) = Proof::new::<_, Basic>(&params1, &Carrier(v1.to_vec(), true), &l).unwrap();
        let (ok, l1b, deferred, _) = p.verify::<_, Basic>(&l, &params1, &Carrier(v1.to_vec(), false), &v1, None).unwrap();
        assert!(ok && l1 == l1b && deferred.verify(4));
        assert!(deferred.y_old != deferred.y_new && deferred.y_old != deferred.y_cur && deferred.y_cur != deferred.y_new);
        World { params, params1, old, l1, deferred }
    }
}

/// Everything the verification circuit is given.
pub struct Case<E1: Curve, E2: Curve> {
    pub base: Option<bool>,
    pub proof: Option<Proof<E2>>,
    /// what the circuit is told the proof was made with
    pub old: Leftovers<E2>,
    pub old_deferred: Deferred<E1::Scalar>,
    pub old_payload: u8,
    pub new_payload: u8,
    pub forks: Vec<u8>,
    pub l1: Leftovers<E1>,
    pub new: Leftovers<E2>,
    pub deferred: Deferred<E2::Scalar>,
}
impl<E1: Curve, E2: Curve> Clone for Case<E1, E2> {
    fn clone(&self) -> Self {
        Case {
            base: self.base,
            proof: self.proof.clone(),
            old: self.old.clone(),
            old_deferred: self.old_deferred.clone(),
            old_payload: self.old_payload,
            new_payload: self.new_payload,
            forks: self.forks.clone(),
            l1: self.l1.clone(),
            new: self.new.clone(),
            deferred: self.deferred.clone(),
        }
    }
}
impl<E1: Curve<Base = <E2 as Curve>::Scalar>, E2: Curve<Base = <E1 as Curve>::Scalar>> Case<E1, E2> {
    /// The statement of the previous proof, as bits.
    pub fn statement(&self) -> Vec<bool> {
        let mut b = vec![self.old_payload];
        b.extend(self.old.to_bytes());
        b.extend(self.l1.to_bytes());
        b.extend(self.old_deferred.to_bytes());
        bits(&b)
    }
    /// The statement of the next proof.
    pub fn public(&self) -> Vec<bool> {
        let mut b = vec![self.new_payload];
        b.extend(self.l1.to_bytes());
        b.extend(self.new.to_bytes());
        b.extend(self.deferred.to_bytes());
        bits(&b)
    }
    /// What the native verifier says about the previous proof.
    pub fn native(&self, params: &Params<E2>, old: &Leftovers<E2>) -> Option<(bool, Leftovers<E2>, Deferred<E2::Scalar>, Vec<u8>)> {
        let v = carried::<E2::Scalar>(&self.statement());
        let mut k = params.generators[1];
        for (i, x) in v.iter().enumerate() {
            k = k + params.generators[2 + i] * *x;
        }
        self.proof.as_ref()?.verify::<_, Basic>(old, params, &Carrier(v.clone(), false), &v, Some(k)).ok()
    }
    /// A previous proof of this statement, made with `with`, and what the
    /// native verifier makes of it.
    pub fn prove(&mut self, params: &Params<E2>, with: &Leftovers<E2>) -> bool {
        let v = carried::<E2::Scalar>(&self.statement());
        self.proof = Some(Proof::new::<_, Basic>(params, &Carrier(v, true), with).unwrap().0);
        self.follow(params, with)
    }
    /// Takes over what the native verifier makes of the proof.
    pub fn follow(&mut self, params: &Params<E2>, with: &Leftovers<E2>) -> bool {
        match self.native(params, with) {
            Some((ok, l, d, f)) => {
                self.new = l;
                self.deferred = d;
                self.forks = f;
                ok
            }
            None => false,
        }
    }
    fn synthesize<CS: ConstraintSystem<E1::Scalar>>(&self, params: &Params<E2>, cs: &mut CS) -> Res<()> {
        let old = self.proof.as_ref().map(|p| {
            RecursiveProof::<E2, E1>::mc_from(mc::Parts { proof: p.clone(), oldproof1: self.old.clone(), oldproof2: self.l1.clone(), deferred: self.old_deferred.clone(), payload: vec![self.old_payload] })
        });
        let v = mc::Verifier::<E1, E2, Inner> {
            params,
            base_case: self.base,
            inner_circuit: &Inner,
            proof: old.as_ref(),
            new_payload: &[self.new_payload],
            forkvalues: Some(&self.forks),
            old_leftovers: Some(self.l1.clone()),
            new_leftovers: Some(self.new.clone()),
            deferred: Some(self.deferred.clone()),
        };
        v.synthesize(cs)
    }
    /// The circuit, with this (true) statement's witness.
    pub fn record(&self, params: &Params<E2>) -> Result<Full<E1::Scalar>, String> {
        let mut cs = Full::new(false);
        self.synthesize(params, &mut cs).map_err(|e| format!("synthesis fails: {:?}", e))?;
        if !cs.bad.is_empty() {
            return Err("the witness of a true statement violates the circuit".into());
        }
        transitions((cs.gates() + cs.lins()) as u64);
        Ok(cs)
    }
    /// A satisfying assignment for this (false) statement, if there is one in
    /// reach.
    pub fn attack(&self, truth: &Full<E1::Scalar>, params: &Params<E2>, limit: u64, spent: &mut Spent) -> Result<Option<String>, String> {
        let mut cs = Full::new(true);
        match guard(|| self.synthesize(params, &mut cs)) {
            Ok(Ok(())) => {}
            // no witness to begin with
            _ => return Ok(None),
        }
        transitions((truth.gates() + truth.lins()) as u64);
        if cs.val.len() != truth.val.len() || cs.lins() != truth.lins() {
            return Err("the circuit has another shape for another statement".into());
        }
        Ok(complete::completes(truth, &cs.val, &cs.bad, limit, spent))
    }
    /// Is the circuit satisfied? The public inputs are always compared.
    pub fn satisfied(&self, params: &Params<E2>) -> Result<Result<(), String>, String> {
        let mut cs = Sat::<E1::Scalar>::new();
        let r = guard(|| self.synthesize(params, &mut cs));
        transitions((cs.gates + cs.lins) as u64);
        if let Some(b) = cs.bad {
            if std::env::var("MC_WHY").is_ok() {
                eprintln!("why {}", b);
            }
            return Ok(Err(b));
        }
        match r {
            Err(p) => Ok(Err(format!("synthesis panics: {}", p))),
            Ok(Err(e)) => Ok(Err(format!("synthesis fails: {:?}", e))),
            Ok(Ok(())) => {
                let want = self.public();
                let want: Vec<E1::Scalar> = want.iter().map(|b| E1::Scalar::from(*b)).collect();
                if cs.inputs != want {
                    return Err("the public inputs are not the bits of the payload, the two leftovers and the deferred data".into());
                }
                Ok(Ok(()))
            }
        }
    }
}
/// The fields of the leftovers.
pub fn leftover_faults<C: Curve>(l: &Leftovers<C>) -> Vec<(String, Leftovers<C>)> {
    let mut v = vec![];
    let mut add = |n: &str, f: &dyn Fn(&mut Leftovers<C>)| {
        let mut m = l.clone();
        f(&mut m);
        v.push((n.to_string(), m));
    };
    let two = |e: u32| C::Scalar::from_u128(1 << e);
    add("s_new", &|m| m.s_new_commitment = m.s_new_commitment + C::one());
    add("-s_new", &|m| m.s_new_commitment = -m.s_new_commitment);
    add("g_new", &|m| m.g_new = m.g_new + C::one());
    add("-g_new", &|m| m.g_new = -m.g_new);
    for e in [0, 2, 63, 64, 120] {
        add(&format!("y_new (bit {})", e), &|m| m.y_new = m.y_new + two(e));
    }
    let k = l.challenges_sq_packed_new.len();
    for i in 0..k {
        for e in [0, 2, 63, 64, 120] {
            if e == 2 || i == e as usize % k {
                add(&format!("challenge {} (bit {})", i, e), &|m| m.challenges_sq_packed_new[i] = m.challenges_sq_packed_new[i] + two(e));
            }
        }
    }
    v
}
/// The fields of deferred data, by name.
pub fn deferred_fields<F: Field>(k: usize) -> Vec<(String, Box<dyn Fn(&mut Deferred<F>) -> &mut F + Sync + Send>)> {
    let mut v: Vec<(String, Box<dyn Fn(&mut Deferred<F>) -> &mut F + Sync + Send>)> = vec![];
    macro_rules! f {
        ($($n:ident),*) => { $( v.push((stringify!($n).into(), Box::new(|d| &mut d.$n))); )* };
    }
    f!(x, y_old, y_cur, y_new, ky_opening, tx_positive_opening, tx_negative_opening, sx_cur_opening, rx_opening, rxy_opening, gx_old_opening, b_x, b_xy, b_y_old, b_y_cur, b_y_new);
    for i in 0..k {
        v.push((format!("old challenge {}", i), Box::new(move |d| &mut d.challenges_sq_packed_old[i])));
        v.push((format!("new challenge {}", i), Box::new(move |d| &mut d.challenges_sq_packed_new[i])));
    }
    v
}
/// A packed challenge other than `v` whose challenge is a square.
pub fn other_challenge<F: Field>(mut v: F) -> F {
    loop {
        v = v + F::from_u64(4);
        let s: F = get_challenge_scalar(v);
        if s != F::zero() && bool::from(s.sqrt().is_some()) {
            return v;
        }
    }
}
impl<E1: Curve<Base = <E2 as Curve>::Scalar>, E2: Curve<Base = <E1 as Curve>::Scalar>> World<E1, E2> {
    /// A later step.
    pub fn later(&self, payload: u8) -> Case<E1, E2> {
        let mut c = Case {
            base: Some(false),
            proof: None,
            old: self.old.clone(),
            old_deferred: self.deferred.clone(),
            old_payload: payload,
            new_payload: step(payload),
            forks: vec![],
            l1: self.l1.clone(),
            new: self.old.clone(),
            deferred: Deferred::dummy(4),
        };
        assert!(c.prove(&self.params, &self.old));
        c
    }
    /// The second step: the previous proof is of the first one.
    pub fn second(&self) -> Case<E1, E2> {
        let mut c = Case {
            base: Some(false),
            proof: None,
            old: start(&self.params),
            old_deferred: Deferred::dummy(4),
            old_payload: step(BASE),
            new_payload: step(step(BASE)),
            forks: vec![],
            l1: start(&self.params1),
            new: self.old.clone(),
            deferred: Deferred::dummy(4),
        };
        assert!(c.prove(&self.params, &start(&self.params)));
        c
    }
    /// The first step.
    pub fn first(&self) -> Case<E1, E2> {
        Case {
            base: Some(true),
            proof: None,
            old: start(&self.params),
            old_deferred: Deferred::dummy(4),
            old_payload: BASE,
            new_payload: step(BASE),
            forks: vec![0; 4],
            l1: start(&self.params1),
            new: start(&self.params),
            deferred: Deferred::dummy(4),
        }
    }
}
