//! A small language of circuit programs, its reference meaning, and the
//! programs' execution as circuits of the library.
use halo::{Circuit, Coeff, ConstraintSystem, Field, LinearCombination, SynthesisError, Variable};

/// A wire: slot 1.. and column 0 (A), 1 (B), 2 (C). The constant one is (1, 0).
pub type W = (usize, u8);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Zero,
    One,
    Neg,
    Full(u64),
}
impl K {
    pub fn coeff<F: Field>(self) -> Coeff<F> {
        match self {
            K::Zero => Coeff::Zero,
            K::One => Coeff::One,
            K::Neg => Coeff::NegativeOne,
            K::Full(v) => Coeff::Full(F::from_u64(v)),
        }
    }
    pub fn val<F: Field>(self) -> F {
        match self {
            K::Zero => F::zero(),
            K::One => F::one(),
            K::Neg => -F::one(),
            K::Full(v) => F::from_u64(v),
        }
    }
}

/// How a linear constraint names a wire.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum R {
    One,
    /// counted from the most recently returned variable
    Back(usize),
    /// counted from the first returned variable
    First(usize),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Alloc(u64),
    Input(u64),
    /// values of a, b and an offset added to their product
    Mult(u64, u64, u64),
    Lin(Vec<(K, R)>),
    Push,
    Pop,
}

/// What a program means.
#[derive(Clone, Debug)]
pub struct Model<F: Field> {
    pub n: usize,
    /// value of every wire, 0 if never assigned
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub c: Vec<F>,
    /// constraint q (1-based) is entry q-1
    pub lins: Vec<Vec<(W, K)>>,
    /// (index of the constraint, value) per public input, the constant first
    pub inputs: Vec<(usize, F)>,
    /// wires returned to the circuit, in order (without the constant)
    pub vars: Vec<W>,
    pub allocs: usize,
    pub mults: usize,
    /// path -> (allocations, multiplication constraints, gates, linear constraints)
    pub counts: std::collections::BTreeMap<String, [usize; 4]>,
}

pub fn resolve(vars: &[W], r: R) -> W {
    match r {
        R::One => (1, 0),
        R::Back(i) if i < vars.len() => vars[vars.len() - 1 - i],
        R::First(i) if i < vars.len() => vars[i],
        _ => (1, 0),
    }
}

impl<F: Field> Model<F> {
    pub fn new(ops: &[Op]) -> Self {
        let mut m = Model {
            n: 1,
            a: vec![F::one()],
            b: vec![F::zero()],
            c: vec![F::zero()],
            lins: vec![vec![((1, 0), K::One)]],
            inputs: vec![(1, F::one())],
            vars: vec![],
            allocs: 1,
            mults: 0,
            counts: Default::default(),
        };
        let mut pending = Some(1usize);
        // (path, counts at entry)
        let mut stack: Vec<(String, [usize; 4])> = vec![];
        for (i, op) in ops.iter().enumerate() {
            match op {
                Op::Alloc(v) | Op::Input(v) => {
                    let v = F::from_u64(*v);
                    m.allocs += 1;
                    let w = match pending.take() {
                        Some(s) => {
                            m.b[s - 1] = v;
                            m.c[s - 1] = m.a[s - 1] * v;
                            (s, 1)
                        }
                        None => {
                            m.gate(v, F::zero(), F::zero());
                            pending = Some(m.n);
                            (m.n, 0)
                        }
                    };
                    m.vars.push(w);
                    if let Op::Input(_) = op {
                        m.lins.push(vec![(w, K::One)]);
                        m.inputs.push((m.lins.len(), v));
                    }
                }
                Op::Mult(a, b, off) => {
                    let (a, b) = (F::from_u64(*a), F::from_u64(*b));
                    m.gate(a, b, a * b + F::from_u64(*off));
                    m.mults += 1;
                    let s = m.n;
                    m.vars.extend([(s, 0), (s, 1), (s, 2)]);
                }
                Op::Lin(t) => {
                    let l = t.iter().map(|(k, r)| (resolve(&m.vars, *r), *k)).collect();
                    m.lins.push(l);
                }
                Op::Push => {
                    let p = match stack.last() {
                        Some((p, _)) => format!("{}/s{}", p, i),
                        None => format!("s{}", i),
                    };
                    stack.push((p, m.tally()));
                }
                Op::Pop => m.leave(&mut stack),
            }
        }
        while !stack.is_empty() {
            m.leave(&mut stack);
        }
        let t = m.tally();
        m.counts.insert(String::new(), t);
        m
    }
    fn leave(&mut self, stack: &mut Vec<(String, [usize; 4])>) {
        if let Some((p, s)) = stack.pop() {
            let t = self.tally();
            self.counts.insert(p, [t[0] - s[0], t[1] - s[1], t[2] - s[2], t[3] - s[3]]);
        }
    }
    fn tally(&self) -> [usize; 4] {
        [self.allocs, self.mults, self.n, self.lins.len()]
    }
    fn gate(&mut self, a: F, b: F, c: F) {
        self.n += 1;
        self.a.push(a);
        self.b.push(b);
        self.c.push(c);
    }
    pub fn wire(&self, w: W) -> F {
        match w.1 {
            0 => self.a[w.0 - 1],
            1 => self.b[w.0 - 1],
            _ => self.c[w.0 - 1],
        }
    }
    pub fn lin(&self, q: usize) -> F {
        self.lins[q].iter().fold(F::zero(), |s, (w, k)| s + self.wire(*w) * k.val::<F>())
    }
    /// Do all gates and all linear constraints hold with these public inputs?
    pub fn satisfied(&self, inputs: &[F]) -> bool {
        if inputs.len() + 1 != self.inputs.len() {
            return false;
        }
        (0..self.n).all(|i| self.a[i] * self.b[i] == self.c[i])
            && (0..self.lins.len()).all(|q| {
                let rhs = match self.inputs.iter().position(|(i, _)| *i == q + 1) {
                    Some(0) => F::one(),
                    Some(p) => inputs[p - 1],
                    None => F::zero(),
                };
                self.lin(q) == rhs
            })
    }
    pub fn public(&self) -> Vec<F> {
        self.inputs.iter().skip(1).map(|x| x.1).collect()
    }
    /// Coefficients of s(X, y): position i holds X^{i-n}; `n` gates in total.
    pub fn sx(&self, y: F, n: usize) -> Vec<F> {
        let mut s = vec![F::zero(); 3 * n + 1];
        let mut yq = F::one();
        for l in &self.lins {
            yq = yq * y;
            for ((slot, col), k) in l {
                let p = match col {
                    0 => n - slot,
                    1 => n + slot,
                    _ => 2 * n + slot,
                };
                s[p] = s[p] + yq * k.val::<F>();
            }
        }
        s
    }
    /// Coefficients of s(x, Y), by power of Y.
    pub fn sy(&self, x: F, n: usize) -> Vec<F> {
        let mut s = vec![F::zero()];
        let xi = x.invert().unwrap();
        let pw = |b: F, e: usize| (0..e).fold(F::one(), |r, _| r * b);
        for l in &self.lins {
            let mut v = F::zero();
            for ((slot, col), k) in l {
                let p = match col {
                    0 => pw(xi, *slot),
                    1 => pw(x, *slot),
                    _ => pw(x, n + *slot),
                };
                v = v + p * k.val::<F>();
            }
            s.push(v);
        }
        s
    }
}

/// A program as a circuit. `witness`: are values available?
#[derive(Clone)]
pub struct Prog<'a> {
    pub ops: &'a [Op],
    pub witness: bool,
}

pub fn wire_of(v: Variable) -> W {
    match v {
        Variable::A(i) => (i, 0),
        Variable::B(i) => (i, 1),
        Variable::C(i) => (i, 2),
    }
}

pub fn build_lc<F: Field, CS: ConstraintSystem<F>>(vars: &[Variable], t: &[(K, R)]) -> LinearCombination<F> {
    let mut lc = LinearCombination::zero();
    for (k, r) in t {
        let v = match r {
            R::One => CS::ONE,
            R::Back(i) if *i < vars.len() => vars[vars.len() - 1 - i],
            R::First(i) if *i < vars.len() => vars[*i],
            _ => CS::ONE,
        };
        lc = lc + (k.coeff::<F>(), v);
    }
    lc
}

impl<'a> Prog<'a> {
    fn run<F: Field, CS: ConstraintSystem<F>>(&self, cs: &mut CS, at: &mut usize, vars: &mut Vec<Variable>) -> Result<(), SynthesisError> {
        let give = |v: u64| if self.witness { Ok(F::from_u64(v)) } else { Err(SynthesisError::AssignmentMissing) };
        while *at < self.ops.len() {
            let i = *at;
            *at += 1;
            match &self.ops[i] {
                Op::Alloc(v) => {
                    let x = cs.alloc(|| format!("a{}", i), || give(*v))?;
                    vars.push(x);
                }
                Op::Input(v) => {
                    let x = cs.alloc_input(|| format!("i{}", i), || give(*v))?;
                    vars.push(x);
                }
                Op::Mult(a, b, off) => {
                    let (x, y, z) = cs.multiply(
                        || format!("m{}", i),
                        || {
                            let (a, b) = (give(*a)?, give(*b)?);
                            Ok((a, b, a * b + F::from_u64(*off)))
                        },
                    )?;
                    vars.extend([x, y, z]);
                }
                Op::Lin(t) => {
                    let lc = build_lc::<F, CS>(vars, t);
                    cs.enforce_zero(lc);
                }
                Op::Push => {
                    let mut ns = cs.namespace(|| format!("s{}", i));
                    if i % 2 == 0 {
                        self.run(&mut ns, at, vars)?;
                    } else {
                        // through the blanket impl for references
                        self.run(&mut &mut ns, at, vars)?;
                    }
                }
                Op::Pop => {
                    // a Pop that matches nothing is ignored by both sides
                    if self.depth(i) > 0 {
                        return Ok(());
                    }
                }
            }
        }
        Ok(())
    }
    /// open namespaces before position i
    fn depth(&self, i: usize) -> usize {
        let mut d = 0usize;
        for o in &self.ops[..i] {
            match o {
                Op::Push => d += 1,
                Op::Pop => d = d.saturating_sub(1),
                _ => (),
            }
        }
        d
    }
}
impl<'a, F: Field> Circuit<F> for Prog<'a> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut at = 0;
        let mut vars = vec![];
        while at < self.ops.len() {
            self.run(cs, &mut at, &mut vars)?;
        }
        Ok(())
    }
}

/// All sequences of length `len` over `letters` for which `keep` holds on
/// every prefix.
pub fn sequences<T: Clone>(letters: &[T], len: usize, keep: &dyn Fn(&[T]) -> bool) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut layer: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for s in &layer {
            for l in letters {
                let mut t = s.clone();
                t.push(l.clone());
                if keep(&t) {
                    next.push(t);
                }
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}
/// Namespaces are only opened when something follows and closed when open.
pub fn sensible(ops: &[Op]) -> bool {
    let mut d = 0;
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Push => {
                d += 1;
                if i + 1 < ops.len() && ops[i + 1] == Op::Pop {
                    return false;
                }
            }
            Op::Pop => {
                if d == 0 {
                    return false;
                }
                d -= 1;
            }
            _ => (),
        }
    }
    true
}

