//! The constraint-system model: records what a gadget or circuit emits and
//! enumerates every assignment of the wires that satisfies it.
//!
//! `Recorder` implements the library's public `ConstraintSystem`, so the model
//! is generated by executing the library's own gadget code; the wires hold the
//! honest assignment the code computes. `Rec::honest` checks that assignment
//! (completeness); `Rec::search` explores all others (soundness): exact
//! substitution of linear constraints, unit propagation on gates, and branching
//! on the two roots of a univariate gate, on the factors of a zero product, on
//! the solutions of a sum over two-valued wires, and on every value of a wire
//! over small fields.
use crate::report::{states, transitions};
use halo::{Coeff, ConstraintSystem, Field, LinearCombination, SynthesisError, Variable};
use std::collections::{BTreeMap, BTreeSet};

pub type Res<T> = Result<T, SynthesisError>;

/// What a circuit emitted.
#[derive(Clone)]
pub struct Rec<F: Field> {
    /// value per wire; wire 3k,3k+1,3k+2 = A,B,C of slot k (slot 0 wire 0 = ONE)
    pub val: Vec<Option<F>>,
    /// wires that exist
    pub exists: Vec<bool>,
    pub gates: Vec<[u32; 3]>,
    pub lins: Vec<Vec<(u32, F)>>,
    pub inputs: Vec<u32>,
    /// record missing assignments instead of failing
    pub lenient: bool,
    pub errors: Vec<SynthesisError>,
    pub depth: i64,
    pub names: u64,
    given: Vec<u32>,
}

pub fn wire(v: Variable) -> u32 {
    match v {
        Variable::A(i) => 3 * (i as u32 - 1),
        Variable::B(i) => 3 * (i as u32 - 1) + 1,
        Variable::C(i) => 3 * (i as u32 - 1) + 2,
    }
}

impl<F: Field> Rec<F> {
    pub fn new() -> Self {
        Rec {
            val: vec![Some(F::one()), None, None],
            exists: vec![true, false, false],
            gates: vec![],
            lins: vec![],
            inputs: vec![],
            lenient: false,
            errors: vec![],
            depth: 0,
            names: 0,
            given: vec![0],
        }
    }
    fn slot(&mut self) -> usize {
        let k = self.val.len() / 3;
        self.val.extend([None, None, None]);
        self.exists.extend([false, false, false]);
        k
    }
    /// Fixes every wire created so far to its recorded value.
    pub fn fix(&mut self) {
        self.given = (0..self.val.len() as u32).filter(|w| self.exists[*w as usize]).collect();
    }
    /// Fixes one more wire.
    pub fn fix_var(&mut self, v: Variable) {
        self.given.push(wire(v));
    }
    /// Overrides the recorded value of a wire.
    pub fn set(&mut self, v: Variable, x: F) {
        self.val[wire(v) as usize] = Some(x);
    }
    pub fn eval(&self, lc: &LinearCombination<F>) -> Option<F> {
        let mut s = F::zero();
        for (v, c) in lc.as_ref() {
            s = s + self.val[wire(*v) as usize]? * c.value();
        }
        Some(s)
    }
    /// Does the recorded assignment satisfy everything?
    pub fn honest(&self) -> Result<(), String> {
        for (i, [a, b, c]) in self.gates.iter().enumerate() {
            match (self.val[*a as usize], self.val[*b as usize], self.val[*c as usize]) {
                (Some(x), Some(y), Some(z)) => {
                    if x * y != z {
                        return Err(format!("the assignment the library computes violates gate {}: {:?} * {:?} != {:?}", i, x, y, z));
                    }
                }
                _ => return Err(format!("gate {} has no assignment", i)),
            }
        }
        for (i, l) in self.lins.iter().enumerate() {
            let mut s = F::zero();
            for (w, c) in l {
                s = s + self.val[*w as usize].ok_or_else(|| format!("linear constraint {} uses an unassigned wire", i))? * *c;
            }
            if s != F::zero() {
                return Err(format!("the assignment the library computes violates linear constraint {} of {} (off by {:?})", i, self.lins.len(), s));
            }
        }
        Ok(())
    }
    /// Structural identity: everything except assignments.
    pub fn shape(&self) -> Vec<u8> {
        let mut v = vec![];
        for g in &self.gates {
            v.push(1);
            for w in g {
                v.extend(w.to_le_bytes());
            }
        }
        for l in &self.lins {
            v.push(2);
            v.extend((l.len() as u32).to_le_bytes());
            for (w, c) in l {
                v.extend(w.to_le_bytes());
                v.extend(c.to_bytes());
            }
        }
        v.push(3);
        for w in &self.inputs {
            v.extend(w.to_le_bytes());
        }
        v.extend((self.val.len() as u32).to_le_bytes());
        v
    }
}

impl<F: Field> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    const ONE: Variable = Variable::A(1);

    fn alloc<FN, A, AR>(&mut self, _a: A, value: FN) -> Res<Variable>
    where
        FN: FnOnce() -> Res<F>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let k = self.slot();
        match value() {
            Ok(v) => self.val[3 * k] = Some(v),
            Err(e) => {
                if !self.lenient {
                    return Err(e);
                }
                self.errors.push(e)
            }
        }
        self.exists[3 * k] = true;
        Ok(Variable::A(k + 1))
    }
    fn alloc_input<FN, A, AR>(&mut self, a: A, value: FN) -> Res<Variable>
    where
        FN: FnOnce() -> Res<F>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.alloc(a, value)?;
        self.inputs.push(wire(v));
        Ok(v)
    }
    fn enforce_zero(&mut self, lc: LinearCombination<F>) {
        // duplicates merged and zero terms dropped, so that the recorded form
        // depends only on the constraint itself
        let mut m: BTreeMap<u32, F> = BTreeMap::new();
        for (v, c) in lc.as_ref() {
            let e = m.entry(wire(*v)).or_insert(F::zero());
            *e = *e + c.value();
        }
        self.lins.push(m.into_iter().filter(|(_, c)| *c != F::zero()).collect());
    }
    fn multiply<FN, A, AR>(&mut self, _a: A, values: FN) -> Res<(Variable, Variable, Variable)>
    where
        FN: FnOnce() -> Res<(F, F, F)>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let k = self.slot();
        match values() {
            Ok((a, b, c)) => {
                self.val[3 * k] = Some(a);
                self.val[3 * k + 1] = Some(b);
                self.val[3 * k + 2] = Some(c);
            }
            Err(e) => {
                if !self.lenient {
                    return Err(e);
                }
                self.errors.push(e)
            }
        }
        for i in 0..3 {
            self.exists[3 * k + i] = true;
        }
        let w = 3 * k as u32;
        self.gates.push([w, w + 1, w + 2]);
        Ok((Variable::A(k + 1), Variable::B(k + 1), Variable::C(k + 1)))
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        let _: String = name_fn().into();
        self.depth += 1;
        self.names += 1;
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        self.depth -= 1;
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

// ---------------------------------------------------------------- forms

/// sum of coeff * wire + constant, wires ascending, no zero coefficients
#[derive(Clone, Debug)]
struct Lin<F> {
    t: Vec<(u32, F)>,
    k: F,
}
impl<F: Field> Lin<F> {
    fn var(w: u32) -> Self {
        Lin { t: vec![(w, F::one())], k: F::zero() }
    }
    fn con(k: F) -> Self {
        Lin { t: vec![], k }
    }
    fn is_con(&self) -> bool {
        self.t.is_empty()
    }
    fn coeff(&self, v: u32) -> Option<F> {
        self.t.binary_search_by_key(&v, |x| x.0).ok().map(|i| self.t[i].1)
    }
    /// self + s * o
    fn axpy(&self, s: F, o: &Lin<F>) -> Self {
        if s == F::zero() {
            return self.clone();
        }
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1 * s));
                j += 1;
            } else {
                let c = self.t[i].1 + o.t[j].1 * s;
                if c != F::zero() {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { t, k: self.k + o.k * s }
    }
    fn scale(&self, s: F) -> Self {
        if s == F::zero() {
            return Lin::con(s);
        }
        Lin { t: self.t.iter().map(|(v, c)| (*v, *c * s)).collect(), k: self.k * s }
    }
    /// replaces v by l
    fn subst(&mut self, v: u32, l: &Lin<F>) -> bool {
        match self.t.binary_search_by_key(&v, |x| x.0) {
            Ok(i) => {
                let c = self.t.remove(i).1;
                if l.is_con() {
                    self.k = self.k + l.k * c;
                } else {
                    *self = self.axpy(c, l);
                }
                true
            }
            Err(_) => false,
        }
    }
}

#[derive(Clone)]
struct St<F: Field> {
    gates: Vec<Option<[Lin<F>; 3]>>,
    lins: Vec<Option<Lin<F>>>,
    outs: Vec<Lin<F>>,
    /// wire -> items: 3 kinds encoded as idx*4 + kind(0 gate,1 lin,2 out)
    occ: Vec<Vec<u32>>,
    dom: BTreeMap<u32, (F, F)>,
    dirty_g: Vec<u32>,
    dirty_l: Vec<u32>,
    log: Vec<(u32, Lin<F>)>,
}

pub struct Search {
    /// branching nodes visited
    pub nodes: u64,
    /// substitutions performed
    pub steps: u64,
    /// false if some wire's values could not be enumerated completely
    pub complete: bool,
    pub max_nodes: u64,
    /// terms written, and how many are allowed
    pub work: u64,
    pub max_work: u64,
    /// stopped because of a limit
    pub stopped: bool,
}
impl Search {
    fn new(max_nodes: u64, max_work: u64) -> Self {
        Search { nodes: 0, steps: 0, complete: true, max_nodes, work: 0, max_work, stopped: false }
    }
    fn halt(&mut self) {
        self.complete = false;
        self.stopped = true;
    }
}

/// Field size if small enough for value branching.
fn small<F: Field>() -> Option<u64> {
    if F::NUM_BITS <= 8 {
        // -1 as an integer, plus one
        let m = (F::zero() - F::one()).to_bytes();
        Some(m[0] as u64 + 1)
    } else {
        None
    }
}

enum Stop {
    Conflict,
}

impl<F: Field> St<F> {
    fn subst(&mut self, v: u32, l: Lin<F>, s: &mut Search) -> Result<(), Stop> {
        s.steps += 1;
        if let Some((r0, r1)) = self.dom.remove(&v) {
            if l.is_con() {
                if l.k != r0 && l.k != r1 {
                    return Err(Stop::Conflict);
                }
            } else {
                // keep the restriction as a gate (l - r0)(l - r1) = 0
                let id = self.gates.len() as u32;
                let a = Lin { t: l.t.clone(), k: l.k - r0 };
                let b = Lin { t: l.t.clone(), k: l.k - r1 };
                for (w, _) in &l.t {
                    self.occ[*w as usize].push(id * 4);
                }
                self.gates.push(Some([a, b, Lin::con(F::zero())]));
                self.dirty_g.push(id);
            }
        }
        let items = std::mem::take(&mut self.occ[v as usize]);
        s.work += (l.t.len() as u64 + 1) * items.len() as u64;
        if s.work > s.max_work {
            s.halt();
            return Err(Stop::Conflict);
        }
        for it in items {
            let (i, kind) = ((it / 4) as usize, it % 4);
            let hit = match kind {
                0 => match &mut self.gates[i] {
                    Some(g) => {
                        let mut h = false;
                        for f in g.iter_mut() {
                            h |= f.subst(v, &l);
                        }
                        if h {
                            self.dirty_g.push(i as u32);
                        }
                        h
                    }
                    None => false,
                },
                1 => match &mut self.lins[i] {
                    Some(f) => {
                        let h = f.subst(v, &l);
                        if h {
                            self.dirty_l.push(i as u32);
                        }
                        h
                    }
                    None => false,
                },
                _ => self.outs[i].subst(v, &l),
            };
            if hit {
                for (w, _) in &l.t {
                    self.occ[*w as usize].push(it);
                }
            }
        }
        self.log.push((v, l));
        Ok(())
    }

    fn set(&mut self, v: u32, x: F, s: &mut Search) -> Result<(), Stop> {
        self.subst(v, Lin::con(x), s)
    }

    /// Uses l = 0 to eliminate a wire.
    fn eliminate(&mut self, l: &Lin<F>, s: &mut Search) -> Result<(), Stop> {
        if l.is_con() {
            return if l.k == F::zero() { Ok(()) } else { Err(Stop::Conflict) };
        }
        let mut best: Option<(usize, usize)> = None;
        for (i, (w, _)) in l.t.iter().enumerate() {
            let cost = self.occ[*w as usize].len() + if self.dom.contains_key(w) { 1_000_000 } else { 0 };
            if best.map(|b| cost < b.1).unwrap_or(true) {
                best = Some((i, cost));
            }
        }
        let i = best.unwrap().0;
        let (w, c) = l.t[i];
        let inv: F = c.invert().unwrap();
        let mut r = l.clone();
        r.t.remove(i);
        let r = r.scale(-inv);
        self.subst(w, r, s)
    }

    fn add_lin(&mut self, l: Lin<F>) {
        let id = self.lins.len() as u32;
        for (w, _) in &l.t {
            self.occ[*w as usize].push(id * 4 + 1);
        }
        self.lins.push(Some(l));
        self.dirty_l.push(id);
    }

    fn all_dom(&self, l: &Lin<F>) -> bool {
        l.t.iter().all(|(w, _)| self.dom.contains_key(w))
    }

    fn stair(&mut self, s: &mut Search) -> Result<(), Stop> {
        self.step(s, 3)
    }
    fn propagate(&mut self, s: &mut Search) -> Result<(), Stop> {
        self.step(s, usize::MAX)
    }
    /// Deterministic consequences; only sums of up to `longest` wires are used
    /// to eliminate a wire.
    fn step(&mut self, s: &mut Search, longest: usize) -> Result<(), Stop> {
        // constraints too long to eliminate right away; true: already examined
        let mut wait: BTreeMap<u32, bool> = BTreeMap::new();
        loop {
            // short linear constraints first
            while let Some(id) = self.dirty_l.pop() {
                let l = match &self.lins[id as usize] {
                    Some(l) => l,
                    None => continue,
                };
                if l.t.len() <= 1 || (l.t.len() <= 3 && !self.all_dom(l)) {
                    let l = self.lins[id as usize].take().unwrap();
                    self.eliminate(&l, s)?;
                } else {
                    wait.insert(id, false);
                }
            }
            if let Some(id) = self.dirty_g.pop() {
                self.gate(id, s)?;
                continue;
            }
            // sums over two-valued wires: forced?
            let mut todo: Vec<(usize, u32)> = vec![];
            let mut best: Option<(usize, u32)> = None;
            wait.retain(|id, _| self.lins[*id as usize].is_some());
            for (id, done) in &wait {
                let l = self.lins[*id as usize].as_ref().unwrap();
                if self.all_dom(l) {
                    if !done {
                        todo.push((l.t.len(), *id));
                    }
                } else if best.map(|b| l.t.len() < b.0).unwrap_or(true) {
                    best = Some((l.t.len(), *id));
                }
            }
            todo.sort();
            let mut progressed = false;
            for (_, id) in todo {
                match subset_sums(self.lins[id as usize].as_ref().unwrap(), &self.dom, 2, 20_000) {
                    Some(v) if v.is_empty() => return Err(Stop::Conflict),
                    Some(v) if v.len() == 1 => {
                        self.lins[id as usize] = None;
                        for (w, x) in &v[0] {
                            self.set(*w, *x, s)?;
                        }
                        progressed = true;
                        break;
                    }
                    _ => {
                        wait.insert(id, true);
                    }
                }
            }
            if progressed {
                continue;
            }
            // longer linear constraints, shortest first
            match best {
                Some((len, id)) if len <= longest => {
                    let l = self.lins[id as usize].take().unwrap();
                    wait.remove(&id);
                    self.eliminate(&l, s)?;
                }
                _ => return Ok(()),
            }
        }
    }

    fn gate(&mut self, id: u32, s: &mut Search) -> Result<(), Stop> {
        let g = match &self.gates[id as usize] {
            Some(g) => g,
            None => return Ok(()),
        };
        let [a, b, c] = g;
        if a.is_con() {
            let l = c.axpy(-a.k, b);
            self.gates[id as usize] = None;
            self.add_lin(l);
            return Ok(());
        }
        if b.is_con() {
            let l = c.axpy(-b.k, a);
            self.gates[id as usize] = None;
            self.add_lin(l);
            return Ok(());
        }
        // proportional factors with constant product, or univariate
        let mut vars: Vec<u32> = a.t.iter().chain(&b.t).chain(&c.t).map(|x| x.0).collect();
        vars.sort();
        vars.dedup();
        if vars.len() == 1 {
            let v = vars[0];
            let z = F::zero();
            let (a1, b1, c1) = (a.coeff(v).unwrap_or(z), b.coeff(v).unwrap_or(z), c.coeff(v).unwrap_or(z));
            // (a1 v + a0)(b1 v + b0) - c1 v - c0
            let q2 = a1 * b1;
            let q1 = a1 * b.k + b1 * a.k - c1;
            let q0 = a.k * b.k - c.k;
            let roots = quad(q2, q1, q0);
            return self.restrict(id, v, roots, s);
        }
        // a product of powers of one wire: x^e = const
        if c.is_con() && a.t.len() == 1 && b.t.len() == 1 && a.k == F::zero() && b.k == F::zero() {
            if let Some((v, roots)) = self.power(id) {
                match roots.len() {
                    0 => return Err(Stop::Conflict),
                    1 => return self.set(v, roots[0], s),
                    _ => {}
                }
            }
        }
        let [a, b, c] = self.gates[id as usize].as_ref().unwrap();
        // square of a form: (p*m)*(q*m) = const, m multivariate
        if c.is_con() && a.t.len() == b.t.len() {
            let r: F = b.t[0].1 * a.t[0].1.invert().unwrap();
            let prop = a.t.iter().zip(&b.t).all(|(x, y)| x.0 == y.0 && x.1 * r == y.1);
            if prop {
                // a * (r a + (b.k - r a.k)) = c
                let roots = quad(r, b.k - r * a.k, -c.k);
                match roots {
                    None => {
                        self.gates[id as usize] = None;
                        return Ok(());
                    }
                    Some(v) if v.is_empty() => return Err(Stop::Conflict),
                    Some(v) if v.len() == 1 => {
                        let mut l = a.clone();
                        l.k = l.k - v[0];
                        self.gates[id as usize] = None;
                        self.add_lin(l);
                        return Ok(());
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    /// The gate says a*b = const with monomials a, b of one wire: that wire and
    /// every value it can take.
    fn power(&self, id: u32) -> Option<(u32, Vec<F>)> {
        let [a, b, c] = self.gates[id as usize].as_ref()?;
        let (wa, wb) = (a.t[0].0, b.t[0].0);
        let co = a.t[0].1 * b.t[0].1;
        for root in [wa, wb] {
            let other = if root == wa { wb } else { wa };
            let (ma, mb) = match self.monomial(other, root, id, 4) {
                Some(m) => ((F::one(), 1), m),
                None => continue,
            };
            let e = ma.1 + mb.1;
            let co = co * mb.0;
            if e > 16 || co == F::zero() {
                return None;
            }
            let inv: F = co.invert().unwrap();
            let k = c.k * inv;
            let pw = |x: F| (0..e).fold(F::one(), |p, _| p * x);
            if let Some(p) = small::<F>() {
                return Some((root, (0..p).map(F::from_u64).filter(|x| pw(*x) == k).collect()));
            }
            if e == 5 && F::RESCUE_ALPHA == 5 {
                // fifth powers are a permutation when a fifth root of a
                // non-trivial element exists through the inverse exponent
                let t = F::from_u64(2);
                if pw(t.pow_vartime(&F::RESCUE_INVALPHA)) == t {
                    return Some((root, vec![k.pow_vartime(&F::RESCUE_INVALPHA)]));
                }
            }
            return None;
        }
        None
    }
    /// w = coefficient * root^exponent, by the gates.
    fn monomial(&self, w: u32, root: u32, not: u32, depth: u32) -> Option<(F, u64)> {
        if w == root {
            return Some((F::one(), 1));
        }
        if depth == 0 {
            return None;
        }
        for it in &self.occ[w as usize] {
            if it % 4 != 0 || it / 4 == not {
                continue;
            }
            if let Some([a, b, c]) = &self.gates[(it / 4) as usize] {
                let single = |l: &Lin<F>| l.t.len() == 1 && l.k == F::zero();
                if single(c) && c.t[0].0 == w && single(a) && single(b) && a.t[0].0 != w && b.t[0].0 != w {
                    if let (Some(x), Some(y)) = (self.monomial(a.t[0].0, root, not, depth - 1), self.monomial(b.t[0].0, root, not, depth - 1)) {
                        let inv: F = c.t[0].1.invert().unwrap();
                        return Some((x.0 * y.0 * a.t[0].1 * b.t[0].1 * inv, x.1 + y.1));
                    }
                }
            }
        }
        None
    }

    /// v must be one of the roots (None: any value)
    fn restrict(&mut self, id: u32, v: u32, roots: Option<Vec<F>>, s: &mut Search) -> Result<(), Stop> {
        self.gates[id as usize] = None;
        let mut r = match roots {
            None => return Ok(()),
            Some(r) => r,
        };
        if let Some((d0, d1)) = self.dom.get(&v) {
            r.retain(|x| x == d0 || x == d1);
        }
        match r.len() {
            0 => Err(Stop::Conflict),
            1 => self.set(v, r[0], s),
            _ => {
                if self.dom.insert(v, (r[0], r[1])).is_none() {
                    // sums mentioning v may have become decidable
                    let ids: Vec<u32> = self.occ[v as usize].iter().filter(|i| **i % 4 == 1).map(|i| i / 4).collect();
                    self.dirty_l.extend(ids);
                }
                Ok(())
            }
        }
    }

    /// Items grouped by shared wires.
    fn components(&self) -> Vec<(Vec<u32>, Vec<u32>, Vec<u32>)> {
        let n = self.occ.len();
        let mut parent: Vec<u32> = (0..n as u32).collect();
        fn find(p: &mut Vec<u32>, mut x: u32) -> u32 {
            while p[x as usize] != x {
                p[x as usize] = p[p[x as usize] as usize];
                x = p[x as usize];
            }
            x
        }
        let mut live = BTreeSet::new();
        for g in self.gates.iter().flatten() {
            let vs: Vec<u32> = g.iter().flat_map(|f| f.t.iter().map(|x| x.0)).collect();
            for v in &vs {
                live.insert(*v);
                let (a, b) = (find(&mut parent, vs[0]), find(&mut parent, *v));
                parent[a as usize] = b;
            }
        }
        for l in self.lins.iter().flatten() {
            for (v, _) in &l.t {
                live.insert(*v);
                let (a, b) = (find(&mut parent, l.t[0].0), find(&mut parent, *v));
                parent[a as usize] = b;
            }
        }
        for v in self.dom.keys() {
            live.insert(*v);
        }
        let mut m: BTreeMap<u32, (Vec<u32>, Vec<u32>, Vec<u32>)> = BTreeMap::new();
        for v in live {
            let r = find(&mut parent, v);
            m.entry(r).or_default().0.push(v);
        }
        for (i, g) in self.gates.iter().enumerate() {
            if let Some(g) = g {
                let v = g.iter().flat_map(|f| f.t.iter()).next().unwrap().0;
                let r = find(&mut parent, v);
                m.get_mut(&r).unwrap().1.push(i as u32);
            }
        }
        for (i, l) in self.lins.iter().enumerate() {
            if let Some(l) = l {
                if let Some((v, _)) = l.t.first() {
                    let r = find(&mut parent, *v);
                    m.get_mut(&r).unwrap().2.push(i as u32);
                }
            }
        }
        m.into_values().collect()
    }

    /// The state restricted to some gates and sums; outputs = the listed wires.
    fn restricted(&self, vars: &[u32], gates: &[u32], lins: &[u32], outs: &[u32]) -> St<F> {
        let mut st = St {
            gates: gates.iter().map(|g| self.gates[*g as usize].clone()).collect(),
            lins: lins.iter().map(|g| self.lins[*g as usize].clone()).collect(),
            outs: outs.iter().map(|v| Lin::var(*v)).collect(),
            occ: vec![vec![]; self.occ.len()],
            dom: vars.iter().filter_map(|v| self.dom.get(v).map(|d| (*v, *d))).collect(),
            dirty_g: vec![],
            dirty_l: vec![],
            log: vec![],
        };
        st.index();
        st
    }
    fn index(&mut self) {
        for o in self.occ.iter_mut() {
            o.clear();
        }
        for (i, g) in self.gates.iter().enumerate() {
            if let Some(g) = g {
                for f in g {
                    for (w, _) in &f.t {
                        self.occ[*w as usize].push(i as u32 * 4);
                    }
                }
            }
        }
        for (i, l) in self.lins.iter().enumerate() {
            if let Some(l) = l {
                for (w, _) in &l.t {
                    self.occ[*w as usize].push(i as u32 * 4 + 1);
                }
            }
        }
        for (i, l) in self.outs.iter().enumerate() {
            for (w, _) in &l.t {
                self.occ[*w as usize].push(i as u32 * 4 + 2);
            }
        }
    }

    fn solve(mut self, s: &mut Search, first_only: bool, emit: &mut dyn FnMut(&[F], &[(u32, Lin<F>)]) -> bool) -> bool {
        // returns false to stop everything
        s.nodes += 1;
        if s.nodes > s.max_nodes {
            s.halt();
        }
        if s.stopped {
            return false;
        }
        if self.propagate(s).is_err() {
            return !s.stopped;
        }
        let comps = self.components();
        let mut outv: BTreeSet<u32> = self.outs.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
        if first_only {
            outv.clear();
        }
        let mut rest = vec![];
        for (vars, gates, lins) in comps {
            let touches: Vec<u32> = vars.iter().copied().filter(|v| outv.contains(v)).collect();
            if touches.is_empty() && (!first_only || true) {
                // satisfiable?
                if gates.is_empty() && lins.is_empty() {
                    for v in &vars {
                        let x = self.dom[v].0;
                        self.dom.remove(v);
                        self.log.push((*v, Lin::con(x)));
                    }
                    continue;
                }
                if first_only {
                    rest.push((vars, gates, lins, touches));
                    continue;
                }
                let mut sol: Option<Vec<(u32, Lin<F>)>> = None;
                let sub = self.restricted(&vars, &gates, &lins, &[]);
                let depth_ok = sub.branch(s, true, &mut |_, log| {
                    sol = Some(log.to_vec());
                    false
                });
                match sol {
                    None => {
                        if s.stopped {
                            return false;
                        }
                        if !s.complete {
                            return depth_ok;
                        }
                        return true;
                    }
                    Some(l) => {
                        self.log.extend(l);
                        for g in &gates {
                            self.gates[*g as usize] = None;
                        }
                        for g in &lins {
                            self.lins[*g as usize] = None;
                        }
                        for v in &vars {
                            self.dom.remove(v);
                        }
                    }
                }
            } else {
                rest.push((vars, gates, lins, touches));
            }
        }
        if rest.is_empty() {
            // every constraint is satisfied; remaining wires are free
            let free: Vec<u32> = outv.into_iter().collect();
            if free.is_empty() || first_only {
                let o: Vec<F> = self.outs.iter().map(|l| l.k).collect();
                return emit(&o, &self.log);
            }
            let v = free[0];
            let vals: Vec<F> = match small::<F>() {
                Some(p) => (0..p).map(F::from_u64).collect(),
                None => {
                    s.complete = false;
                    vec![F::zero(), F::one(), F::from_u64(2)]
                }
            };
            for x in vals {
                let mut st = self.clone();
                if st.set(v, x, s).is_ok() && !st.solve(s, first_only, emit) {
                    return false;
                }
            }
            return true;
        }
        if rest.len() == 1 {
            return self.branch(s, first_only, emit);
        }
        if first_only {
            // independent parts: each must be satisfiable
            let mut log = self.log.clone();
            for (vars, gates, lins, _) in rest {
                let sub = self.restricted(&vars, &gates, &lins, &[]);
                let mut sol = None;
                sub.branch(s, true, &mut |_, l| {
                    sol = Some(l.to_vec());
                    false
                });
                match sol {
                    None => return true,
                    Some(l) => log.extend(l),
                }
            }
            return emit(&[], &log);
        }
        // several parts reach the outputs: enumerate the first on its own
        let (vars, gates, lins, touches) = &rest[0];
        let sub = self.restricted(vars, gates, lins, touches);
        let mut sols: BTreeMap<Vec<[u8; 32]>, (Vec<F>, Vec<(u32, Lin<F>)>)> = BTreeMap::new();
        sub.branch(s, false, &mut |o, l| {
            sols.entry(o.iter().map(|x| x.to_bytes()).collect()).or_insert_with(|| (o.to_vec(), l.to_vec()));
            true
        });
        for g in gates {
            self.gates[*g as usize] = None;
        }
        for g in lins {
            self.lins[*g as usize] = None;
        }
        for v in vars {
            self.dom.remove(v);
        }
        for (o, l) in sols.values() {
            let mut st = self.clone();
            let mut ok = true;
            for (v, x) in touches.iter().zip(o) {
                ok &= st.set(*v, *x, s).is_ok();
            }
            let known: BTreeSet<u32> = touches.iter().copied().collect();
            st.log.extend(l.iter().filter(|(v, _)| !known.contains(v)).cloned());
            if ok && !st.solve(s, first_only, emit) {
                return false;
            }
        }
        true
    }

    fn branch(self, s: &mut Search, first_only: bool, emit: &mut dyn FnMut(&[F], &[(u32, Lin<F>)]) -> bool) -> bool {
        // 1. a sum over two-valued wires with few solutions
        for (i, l) in self.lins.iter().enumerate() {
            if let Some(l) = l {
                if self.all_dom(l) {
                    if let Some(sols) = subset_sums(l, &self.dom, 64, 200_000) {
                        if sols.len() < 64 {
                            for sol in sols {
                                let mut st = self.clone();
                                st.lins[i] = None;
                                let ok = sol.iter().all(|(w, x)| st.set(*w, *x, s).is_ok());
                                if ok && !st.solve(s, first_only, emit) {
                                    return false;
                                }
                            }
                            return true;
                        }
                    }
                }
            }
        }
        // 2. a two-valued wire, the one in most constraints
        let outv: BTreeSet<u32> = self.outs.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
        let score = |v: &u32| self.occ[*v as usize].len() + outv.contains(v) as usize;
        if let Some(v) = self.dom.keys().copied().filter(|v| score(v) > 0).max_by_key(|v| score(v)) {
            let (a, b) = self.dom[&v];
            for x in [a, b] {
                let mut st = self.clone();
                if st.set(v, x, s).is_ok() && !st.solve(s, first_only, emit) {
                    return false;
                }
            }
            return true;
        }
        // 3. a product that is zero, or a square with two roots
        for (i, g) in self.gates.iter().enumerate() {
            if let Some([a, b, c]) = g {
                if c.is_con() && c.k == F::zero() {
                    for l in [a, b] {
                        let mut st = self.clone();
                        st.gates[i] = None;
                        st.add_lin(l.clone());
                        if !st.solve(s, first_only, emit) {
                            return false;
                        }
                    }
                    return true;
                }
                if c.is_con() && a.t.len() == b.t.len() {
                    let r: F = b.t[0].1 * a.t[0].1.invert().unwrap();
                    if a.t.iter().zip(&b.t).all(|(x, y)| x.0 == y.0 && x.1 * r == y.1) {
                        if let Some(v) = quad(r, b.k - r * a.k, -c.k) {
                            for x in v {
                                let mut st = self.clone();
                                st.gates[i] = None;
                                let mut l = a.clone();
                                l.k = l.k - x;
                                st.add_lin(l);
                                if !st.solve(s, first_only, emit) {
                                    return false;
                                }
                            }
                            return true;
                        }
                    }
                }
            }
        }
        // 4. every value of a wire
        let mut cand: BTreeMap<u32, usize> = BTreeMap::new();
        for g in self.gates.iter().flatten() {
            for f in &g[..2] {
                if f.t.len() == 1 {
                    *cand.entry(f.t[0].0).or_insert(0) += 2;
                }
            }
        }
        for (v, _) in self.gates.iter().flatten().flat_map(|g| g.iter().flat_map(|f| f.t.iter())) {
            *cand.entry(*v).or_insert(0) += 1;
        }
        for (v, _) in self.lins.iter().flatten().flat_map(|l| l.t.iter()) {
            *cand.entry(*v).or_insert(0) += 1;
        }
        let v = match cand.iter().max_by_key(|x| *x.1) {
            Some((v, _)) => *v,
            None => return self.solve(s, first_only, emit),
        };
        let vals: Vec<F> = match small::<F>() {
            Some(p) => (0..p).map(F::from_u64).collect(),
            None => {
                s.complete = false;
                vec![F::zero(), F::one(), F::from_u64(2), -F::one()]
            }
        };
        for x in vals {
            let mut st = self.clone();
            if st.set(v, x, s).is_ok() && !st.solve(s, first_only, emit) {
                return false;
            }
        }
        true
    }
}

/// Roots of q2 x^2 + q1 x + q0 (None: every x).
fn quad<F: Field>(q2: F, q1: F, q0: F) -> Option<Vec<F>> {
    let z = F::zero();
    if q2 == z {
        if q1 == z {
            return if q0 == z { None } else { Some(vec![]) };
        }
        let i: F = q1.invert().unwrap();
        return Some(vec![-q0 * i]);
    }
    let two = F::one() + F::one();
    let four = two + two;
    let d = q1 * q1 - four * q2 * q0;
    let i: F = (two * q2).invert().unwrap();
    if d == z {
        return Some(vec![-q1 * i]);
    }
    let r = d.sqrt();
    if !bool::from(r.is_some()) {
        return Some(vec![]);
    }
    let r: F = r.unwrap();
    Some(vec![(r - q1) * i, (-r - q1) * i])
}

type N = [u64; 6];
fn to_n<F: Field>(x: &F) -> N {
    let b = x.to_bytes();
    let mut n = [0; 6];
    for i in 0..4 {
        n[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    n
}
fn nadd(a: &N, b: &N) -> N {
    let mut r = [0; 6];
    let mut c = 0u128;
    for i in 0..6 {
        let s = a[i] as u128 + b[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
    }
    r
}
fn nsub(a: &N, b: &N) -> Option<N> {
    let mut r = [0; 6];
    let mut c = false;
    for i in 0..6 {
        let (x, o1) = a[i].overflowing_sub(b[i]);
        let (x, o2) = x.overflowing_sub(c as u64);
        r[i] = x;
        c = o1 | o2;
    }
    if c {
        None
    } else {
        Some(r)
    }
}
fn ncmp(a: &N, b: &N) -> std::cmp::Ordering {
    a.iter().rev().cmp(b.iter().rev())
}

/// All assignments of two-valued wires making l zero; None if more work than
/// `budget` is needed. Stops after `limit` solutions.
fn subset_sums<F: Field>(l: &Lin<F>, dom: &BTreeMap<u32, (F, F)>, limit: usize, budget: u64) -> Option<Vec<Vec<(u32, F)>>> {
    let modulus = nadd(&to_n(&(F::zero() - F::one())), &[1, 0, 0, 0, 0, 0]);
    let build = |scale: F| {
        // (coefficient as integer <= p/2, wire, value if chosen, value if not)
        let mut k = l.k * scale;
        let mut v: Vec<(N, u32, F, F)> = vec![];
        let mut total = [0u64; 6];
        for (w, c) in &l.t {
            let (r0, r1) = dom[w];
            let c = *c * scale;
            let d = c * (r1 - r0);
            k = k + c * r0;
            let (pos, neg) = (to_n(&d), to_n(&(F::zero() - d)));
            if ncmp(&pos, &neg) != std::cmp::Ordering::Greater {
                v.push((pos, *w, r1, r0));
                total = nadd(&total, &pos);
            } else {
                k = k + d;
                v.push((neg, *w, r0, r1));
                total = nadd(&total, &neg);
            }
        }
        // sum = -k mod p
        (v, to_n(&(F::zero() - k)), total)
    };
    let mut best = build(F::one());
    if ncmp(&best.2, &modulus) == std::cmp::Ordering::Greater {
        for (w, c) in l.t.iter().take(300) {
            let (r0, r1) = dom[w];
            let i: F = (*c * (r1 - r0)).invert().unwrap();
            let b = build(i);
            if ncmp(&b.2, &best.2) == std::cmp::Ordering::Less {
                best = b;
            }
        }
    }
    let (mut v, target, _) = best;
    v.sort_by(|a, b| ncmp(&b.0, &a.0));
    let n = v.len();
    let mut suffix = vec![[0u64; 6]; n + 1];
    for i in (0..n).rev() {
        suffix[i] = nadd(&suffix[i + 1], &v[i].0);
    }
    let mut sols = vec![];
    let mut work = 0u64;
    fn rec<F: Field>(i: usize, t: N, v: &[(N, u32, F, F)], suffix: &[N], cur: &mut Vec<bool>, sols: &mut Vec<Vec<(u32, F)>>, limit: usize, work: &mut u64, budget: u64) -> bool {
        *work += 1;
        if *work > budget {
            return false;
        }
        if ncmp(&t, &suffix[i]) == std::cmp::Ordering::Greater {
            return true;
        }
        if i == v.len() {
            if t == [0; 6] {
                sols.push(cur.iter().zip(v).map(|(b, x)| (x.1, if *b { x.2 } else { x.3 })).collect());
            }
            return sols.len() < limit;
        }
        if let Some(t2) = nsub(&t, &v[i].0) {
            cur.push(true);
            if !rec(i + 1, t2, v, suffix, cur, sols, limit, work, budget) {
                return false;
            }
            cur.pop();
        }
        cur.push(false);
        if !rec(i + 1, t, v, suffix, cur, sols, limit, work, budget) {
            return false;
        }
        cur.pop();
        true
    }
    let mut t = target;
    loop {
        if ncmp(&t, &suffix[0]) == std::cmp::Ordering::Greater {
            break;
        }
        let mut cur = vec![];
        if !rec(0, t, &v, &suffix, &mut cur, &mut sols, limit, &mut work, budget) {
            if sols.len() >= limit {
                return Some(sols);
            }
            return None;
        }
        t = nadd(&t, &modulus);
    }
    Some(sols)
}

/// One assignment found by the exploration.
pub struct Found<F> {
    pub outs: Vec<F>,
    /// values of all wires, free ones zero
    pub wires: Vec<F>,
}

impl<F: Field> Rec<F> {
    fn start(&self, outs: &[LinearCombination<F>]) -> St<F> {
        let n = self.val.len();
        let mut st: St<F> = St {
            gates: self.gates.iter().map(|[a, b, c]| Some([Lin::var(*a), Lin::var(*b), Lin::var(*c)])).collect(),
            lins: self
                .lins
                .iter()
                .map(|l| {
                    let mut t = l.clone();
                    t.sort_by_key(|x| x.0);
                    Some(Lin { t, k: F::zero() })
                })
                .collect(),
            outs: outs
                .iter()
                .map(|lc| {
                    let mut l = Lin::con(F::zero());
                    for (v, c) in lc.as_ref() {
                        l = l.axpy(c.value(), &Lin::var(wire(*v)));
                    }
                    l.t.retain(|x| x.1 != F::zero());
                    l
                })
                .collect(),
            occ: vec![vec![]; n],
            dom: BTreeMap::new(),
            dirty_g: (0..self.gates.len() as u32).collect(),
            dirty_l: (0..self.lins.len() as u32).collect(),
            log: vec![],
        };
        st.index();
        st
    }
    /// The assignment a log of substitutions stands for, free wires zero.
    fn unlog(&self, log: &[(u32, Lin<F>)]) -> Vec<F> {
        let mut wires: Vec<Option<F>> = vec![None; self.val.len()];
        for (v, l) in log.iter().rev() {
            let mut x = l.k;
            for (w, c) in &l.t {
                x = x + *c * *wires[*w as usize].get_or_insert(F::zero());
            }
            wires[*v as usize] = Some(x);
        }
        wires.into_iter().map(|w| w.unwrap_or(F::zero())).collect()
    }
    fn satisfied_by(&self, w: &[F]) -> bool {
        let g = |i: u32| w[i as usize];
        self.gates.iter().all(|[a, b, c]| g(*a) * g(*b) == g(*c)) && self.lins.iter().all(|l| l.iter().fold(F::zero(), |s, (w, c)| s + g(*w) * *c) == F::zero())
    }
    fn fixed(&self) -> Result<Vec<(u32, F)>, String> {
        let mut given = self.given.clone();
        given.sort();
        given.dedup();
        given.into_iter().map(|w| Ok((w, self.val[w as usize].ok_or("a fixed wire has no value")?))).collect()
    }

    /// Enumerates every assignment of the wires that agrees with the fixed
    /// wires and satisfies all constraints, projected on `outs`.
    /// `visit` returns false to stop. Every reported assignment is checked
    /// against the recorded constraints.
    pub fn search(&self, outs: &[LinearCombination<F>], max_nodes: u64, max_work: u64, visit: &mut dyn FnMut(&Found<F>) -> bool) -> Result<Search, String> {
        let mut st = self.start(outs);
        let mut s = Search::new(max_nodes, max_work);
        for (w, v) in self.fixed()? {
            if st.set(w, v, &mut s).is_err() {
                return Ok(s);
            }
        }
        let mut bad = false;
        st.solve(&mut s, false, &mut |o, log| {
            let wires = self.unlog(log);
            // self-check of the exploration
            if !self.satisfied_by(&wires) {
                bad = true;
                return false;
            }
            visit(&Found { outs: o.to_vec(), wires })
        });
        states(s.nodes);
        transitions(s.steps);
        if bad {
            eprintln!("engine error: the exploration produced an assignment that violates the constraints");
            std::process::exit(4);
        }
        Ok(s)
    }

    /// Follows the recorded assignment wire by wire and, at every wire the
    /// constraints leave open, deviates from it and completes the assignment.
    /// Used where the enumeration is stopped by a limit: a system with a wire
    /// left free can be too large to enumerate, but is easy to refute this way.
    fn deviate(&self, outs: &[LinearCombination<F>], ok: &dyn Fn(&[F]) -> bool) -> Result<Option<Found<F>>, String> {
        let mut s = Search::new(u64::MAX, 2_000_000_000);
        let mut st = self.start(outs);
        for (w, v) in self.fixed()? {
            if st.set(w, v, &mut s).is_err() {
                return Ok(None);
            }
        }
        let mut open: BTreeSet<u32> = (0..self.val.len() as u32).filter(|w| self.exists[*w as usize]).collect();
        let mut seen = 0;
        let mut close = |st: &St<F>, open: &mut BTreeSet<u32>, seen: &mut usize| {
            for (v, _) in &st.log[*seen..] {
                open.remove(v);
            }
            *seen = st.log.len();
        };
        if st.stair(&mut s).is_err() {
            return Ok(None);
        }
        close(&st, &mut open, &mut seen);
        while let Some(w) = open.iter().next().copied() {
            let h = match self.val[w as usize] {
                Some(h) => h,
                None => return Ok(None),
            };
            let other: Vec<F> = match st.dom.get(&w) {
                Some((a, b)) => vec![if *a == h { *b } else { *a }],
                None => vec![h + F::one(), F::zero(), -h],
            };
            for x in other.into_iter().filter(|x| *x != h) {
                let mut t = st.clone();
                let mut o = open.clone();
                let mut sn = seen;
                let mut fine = t.set(w, x, &mut s).is_ok() && t.stair(&mut s).is_ok();
                close(&t, &mut o, &mut sn);
                while fine {
                    let v = match o.iter().next() {
                        Some(v) => *v,
                        None => break,
                    };
                    let h = self.val[v as usize].unwrap_or(F::zero());
                    let tries = match t.dom.get(&v) {
                        Some((a, b)) => {
                            if *b == h {
                                vec![*b, *a]
                            } else {
                                vec![*a, *b]
                            }
                        }
                        None => vec![h, F::zero()],
                    };
                    fine = false;
                    for y in tries {
                        let mut u = t.clone();
                        if u.set(v, y, &mut s).is_ok() && u.stair(&mut s).is_ok() {
                            t = u;
                            fine = true;
                            break;
                        }
                    }
                    close(&t, &mut o, &mut sn);
                    o.remove(&v);
                }
                if fine {
                    let wires = self.unlog(&t.log);
                    let vals: Vec<F> = outs.iter().map(|l| l.as_ref().iter().fold(F::zero(), |s, (v, c)| s + wires[wire(*v) as usize] * c.value())).collect();
                    transitions(1);
                    if self.satisfied_by(&wires) && !ok(&vals) {
                        return Ok(Some(Found { outs: vals, wires }));
                    }
                }
            }
            if st.set(w, h, &mut s).is_err() || st.stair(&mut s).is_err() {
                return Ok(None);
            }
            close(&st, &mut open, &mut seen);
            open.remove(&w);
        }
        Ok(None)
    }

    /// Every satisfying assignment must give outputs accepted by `ok`.
    /// Returns the number of distinct output vectors.
    pub fn sound(&self, outs: &[LinearCombination<F>], what: &str, ok: &dyn Fn(&[F]) -> bool) -> Result<usize, String> {
        let tell = |f: &Found<F>| format!("{}: the constraints also accept outputs {:?}, witness {:?}", what, f.outs, f.wires.iter().take(60).collect::<Vec<_>>());
        for (nodes, work) in [(20_000, 40_000_000), (2_000_000, 400_000_000)] {
            let mut seen = BTreeSet::new();
            let mut err = None;
            let s = self.search(outs, nodes, work, &mut |f| {
                seen.insert(f.outs.iter().map(|x| x.to_bytes()).collect::<Vec<_>>());
                if !ok(&f.outs) {
                    err = Some(tell(f));
                    return false;
                }
                true
            })?;
            if std::env::var("MC_WORK").is_ok() && s.work > 1_000_000 {
                eprintln!("{} nodes {} work {} {}", what, s.nodes, s.work, s.stopped);
            }
            if let Some(e) = err {
                return Err(e);
            }
            if s.stopped && nodes == 20_000 {
                if let Some(f) = self.deviate(outs, ok)? {
                    return Err(tell(&f));
                }
                continue;
            }
            if !s.complete {
                INCOMPLETE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            return Ok(seen.len());
        }
        unreachable!()
    }
}

pub static INCOMPLETE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn incomplete() -> u64 {
    INCOMPLETE.load(std::sync::atomic::Ordering::Relaxed)
}

pub fn lc_var<F: Field>(v: Variable) -> LinearCombination<F> {
    LinearCombination::zero() + (Coeff::One, v)
}

/// Notes in the evidence when a search could not enumerate some wire.
pub fn ensure_complete(c: &mut crate::Ctx) {
    let n = incomplete();
    if n > 0 {
        c.assume(format!("{} searches met a wire whose values could not be enumerated", n));
    }
}
