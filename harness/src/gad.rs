//! Decides one gadget instance: honest run, claimed values, soundness over all
//! assignments, and independence of the emitted structure from the witness.
use crate::r1cs::*;
use crate::report::{guard, validated};
use halo::{Boolean, Coeff, ConstraintSystem, Field, LinearCombination, Num, AllocatedNum, AllocatedBit};

pub enum Expect<'a, F> {
    /// exactly these outputs
    Is(Vec<F>),
    /// outputs satisfying a predicate (the honest one too)
    Where(&'a dyn Fn(&[F]) -> bool),
    /// no satisfying assignment
    Unsat,
}

/// One output of a gadget: its value as wires, and the value the library
/// claims for it.
pub type Out<F> = (LinearCombination<F>, Option<F>);

pub struct G<F: Field> {
    pub cs: Rec<F>,
    blank: bool,
}
impl<F: Field> G<F> {
    pub fn new(blank: bool) -> Self {
        let mut cs = Rec::new();
        cs.lenient = blank;
        G { cs, blank }
    }
    /// the witness value, unless this is the run without a witness
    pub fn w<T>(&self, v: T) -> Res<T> {
        if self.blank {
            Err(halo::SynthesisError::AssignmentMissing)
        } else {
            Ok(v)
        }
    }
    pub fn opt<T>(&self, v: T) -> Option<T> {
        if self.blank {
            None
        } else {
            Some(v)
        }
    }
    pub fn is_blank(&self) -> bool {
        self.blank
    }
    pub fn num(&mut self, v: F) -> AllocatedNum<F> {
        let v = self.w(v);
        AllocatedNum::alloc(&mut self.cs, || v).unwrap()
    }
    pub fn bit(&mut self, v: bool) -> AllocatedBit {
        let v = self.w(v);
        AllocatedBit::alloc(&mut self.cs, || v).unwrap()
    }
    /// kind 0: constant, 1: allocated, 2: negated allocation; value v
    pub fn boolean(&mut self, kind: u8, v: bool) -> Boolean {
        match kind {
            0 => Boolean::constant(v),
            1 => Boolean::from(self.bit(v)),
            _ => Boolean::from(self.bit(!v)).not(),
        }
    }
    /// kind 0: constant, 1: allocated, 2: scaled allocation
    pub fn anum(&mut self, kind: u8, v: F) -> Num<F> {
        match kind {
            0 => Num::constant(v),
            1 => self.num(v).into(),
            _ => {
                let s = -(F::one() + F::one());
                let i: F = s.invert().unwrap();
                let n = self.num(v * i);
                Num::from((Coeff::Full(s), n))
            }
        }
    }
    pub fn out_bool(&self, b: &Boolean) -> Out<F> {
        (b.lc(<Rec<F> as ConstraintSystem<F>>::ONE, Coeff::One), b.get_value().map(F::from))
    }
    pub fn out_bit(&self, b: &AllocatedBit) -> Out<F> {
        (LinearCombination::from(b.get_variable()), b.get_value().map(F::from))
    }
    pub fn out_num(&mut self, n: &Num<F>) -> Out<F> {
        (n.lc(&mut self.cs), n.value())
    }
    pub fn out_anum(&mut self, n: &AllocatedNum<F>) -> Out<F> {
        (n.lc(), n.get_value())
    }
}

/// `build` allocates inputs, calls `g.cs.fix()`, runs the gadget and returns
/// its outputs.
pub fn gadget<F: Field>(what: &str, expect: Expect<F>, build: &dyn Fn(&mut G<F>) -> Res<Vec<Out<F>>>) -> Result<Rec<F>, String> {
    gadget_with(what, expect, true, build)
}
/// `sound`: also explore every assignment.
pub fn gadget_with<F: Field>(what: &str, expect: Expect<F>, sound: bool, build: &dyn Fn(&mut G<F>) -> Res<Vec<Out<F>>>) -> Result<Rec<F>, String> {
    validated(1);
    let mut blank = G::new(true);
    let br = guard(|| build(&mut blank)).map_err(|e| format!("{}: building without a witness: {}", what, e))?;
    let bo = br.map_err(|e| format!("{}: building without a witness fails: {:?}", what, e))?;
    let bouts: Vec<LinearCombination<F>> = bo.iter().map(|o| o.0.clone()).collect();
    let mut g = G::new(false);
    if let Expect::Unsat = expect {
        // the library must refuse or produce an unsatisfied system, and no
        // other assignment may satisfy it
        g.cs.lenient = true;
        let r = guard(|| build(&mut g));
        if let Ok(Ok(o)) = r {
            let outs: Vec<_> = o.iter().map(|x| x.0.clone()).collect();
            if g.cs.errors.is_empty() && g.cs.honest().is_ok() {
                return Err(format!("{}: has no valid result but the library produces a satisfied system with outputs {:?}", what, o.iter().map(|x| x.1).collect::<Vec<_>>()));
            }
            g.cs.sound(&outs, what, &|_| false)?;
        }
        return Ok(g.cs);
    }
    let outs = guard(|| build(&mut g)).map_err(|e| format!("{}: {}", what, e))?.map_err(|e| format!("{}: synthesis fails with {:?}", what, e))?;
    g.cs.honest().map_err(|e| format!("{}: {}", what, e))?;
    let lcs: Vec<LinearCombination<F>> = outs.iter().map(|o| o.0.clone()).collect();
    let mut vals = vec![];
    for (i, (lc, claimed)) in outs.iter().enumerate() {
        let v = g.cs.eval(lc).ok_or_else(|| format!("{}: output {} is unassigned", what, i))?;
        if *claimed != Some(v) {
            return Err(format!("{}: output {} claims value {:?} but its wires carry {:?}", what, i, claimed, v));
        }
        vals.push(v);
    }
    let ok = |o: &[F]| match &expect {
        Expect::Is(e) => o == &e[..],
        Expect::Where(p) => p(o),
        Expect::Unsat => false,
    };
    if !ok(&vals) {
        return Err(match &expect {
            Expect::Is(e) => format!("{}: computes {:?}, expected {:?}", what, vals, e),
            _ => format!("{}: computes {:?}, which is not a valid result", what, vals),
        });
    }
    if g.cs.depth != 0 || blank.cs.depth != 0 {
        return Err(format!("{}: unbalanced namespaces", what));
    }
    if sound {
        g.cs.sound(&lcs, what, &ok)?;
    }
    // the structure must not depend on the witness
    if g.cs.shape() != blank.cs.shape() {
        return Err(format!("{}: the constraints depend on the witness", what));
    }
    let same = |a: &LinearCombination<F>, b: &LinearCombination<F>| {
        let (a, b) = (a.as_ref(), b.as_ref());
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| wire(x.0) == wire(y.0) && x.1.value() == y.1.value())
    };
    if bouts.len() != lcs.len() || !bouts.iter().zip(&lcs).all(|(a, b)| same(a, b)) {
        return Err(format!("{}: the output wires depend on the witness", what));
    }
    Ok(g.cs)
}
