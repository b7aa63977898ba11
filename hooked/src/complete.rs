//! Other witnesses. The circuit's own code computes an honest witness, which a
//! false statement violates somewhere. A prover is not bound to that code: this
//! searches for a full assignment with the false statement's public inputs.
use halo::*;
use halo_mc::*;
use std::collections::{BTreeSet, HashMap};
use std::sync::OnceLock;

pub type Res<T> = Result<T, SynthesisError>;

/// Gates and linear constraints of one run, with the values it assigned.
pub struct Full<F: Field> {
    pub val: Vec<F>,
    pub inputs: Vec<u32>,
    /// which rows are gates
    gate: Vec<bool>,
    off: Vec<u32>,
    wires: Vec<u32>,
    coeffs: Vec<u32>,
    table: Vec<F>,
    index: HashMap<[u8; 32], u32>,
    /// linear constraints by wire
    inc: OnceLock<(Vec<u32>, Vec<u32>)>,
    /// namespaces: first wire, end, depth, name
    pub regions: Vec<(u32, u32, u32, String)>,
    open: Vec<usize>,
    /// do not keep the structure, only values
    values_only: bool,
    pub bad: Vec<u32>,
    squared: OnceLock<Vec<u32>>,
    lins: usize,
}
impl<F: Field> Full<F> {
    pub fn new(values_only: bool) -> Self {
        Full {
            val: vec![F::one(), F::zero(), F::zero()],
            inputs: vec![],
            gate: vec![false],
            off: vec![0],
            wires: vec![],
            coeffs: vec![],
            table: vec![],
            index: HashMap::new(),
            inc: OnceLock::new(),
            regions: vec![],
            open: vec![],
            values_only,
            bad: vec![],
            squared: OnceLock::new(),
            lins: 0,
        }
    }
    fn wire(v: Variable) -> u32 {
        (match v {
            Variable::A(i) => 3 * (i - 1),
            Variable::B(i) => 3 * (i - 1) + 1,
            Variable::C(i) => 3 * (i - 1) + 2,
        }) as u32
    }
    pub fn lins(&self) -> usize {
        self.lins
    }
    pub fn gates(&self) -> usize {
        self.gate.iter().filter(|g| **g).count()
    }
    fn incidence(&self) -> &(Vec<u32>, Vec<u32>) {
        self.inc.get_or_init(|| {
            let mut n = vec![0u32; self.val.len() + 1];
            for w in &self.wires {
                if *w > 2 {
                    n[*w as usize + 1] += 1;
                }
            }
            for i in 1..n.len() {
                n[i] += n[i - 1];
            }
            let mut at = n.clone();
            let mut l = vec![0u32; *n.last().unwrap() as usize];
            for i in 0..self.lins {
                for j in self.off[i]..self.off[i + 1] {
                    let w = self.wires[j as usize] as usize;
                    if w > 2 {
                        l[at[w] as usize] = i as u32;
                        at[w] += 1;
                    }
                }
            }
            (n, l)
        })
    }
    /// Allocated numbers whose square is tied to earlier ones.
    pub fn roots(&self) -> &[u32] {
        self.squared.get_or_init(|| {
            let (off, l) = self.incidence();
            // the wires a wire is the copy of
            let copies = |w: u32| -> BTreeSet<u32> {
                (off[w as usize]..off[w as usize + 1])
                    .filter_map(|j| {
                        let t: Vec<(u32, F)> = self.terms(l[j as usize]).collect();
                        if t.len() == 2 && t[0].1 + t[1].1 == F::zero() {
                            Some(t[0].0 + t[1].0 - w)
                        } else {
                            None
                        }
                    })
                    .collect()
            };
            let mut r = BTreeSet::new();
            for (g, is) in self.gate.iter().enumerate() {
                let i = 3 * g as u32;
                if *is && self.val[i as usize] == self.val[i as usize + 1] {
                    for w in copies(i).intersection(&copies(i + 1)) {
                        let c = i as usize + 2;
                        let earlier = (off[c]..off[c + 1]).any(|j| self.terms(l[j as usize]).all(|t| t.0 == c as u32 || t.0 < *w));
                        if *w > 2 && !self.gate[*w as usize / 3] && earlier {
                            r.insert(*w);
                        }
                    }
                }
            }
            r.into_iter().collect()
        })
    }
    fn terms(&self, i: u32) -> impl Iterator<Item = (u32, F)> + '_ {
        (self.off[i as usize]..self.off[i as usize + 1]).map(move |j| (self.wires[j as usize], self.table[self.coeffs[j as usize] as usize]))
    }
}
impl<F: Field> ConstraintSystem<F> for Full<F> {
    type Root = Self;
    const ONE: Variable = Variable::A(1);
    fn alloc<FN, A, AR>(&mut self, _a: A, value: FN) -> Res<Variable>
    where
        FN: FnOnce() -> Res<F>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = value()?;
        self.val.extend([v, F::zero(), F::zero()]);
        self.gate.push(false);
        Ok(Variable::A(self.val.len() / 3))
    }
    fn alloc_input<FN, A, AR>(&mut self, a: A, value: FN) -> Res<Variable>
    where
        FN: FnOnce() -> Res<F>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.alloc(a, value)?;
        self.inputs.push(Self::wire(v));
        Ok(v)
    }
    fn enforce_zero(&mut self, lc: LinearCombination<F>) {
        let mut s = F::zero();
        let mut t: Vec<(u32, F)> = vec![];
        for (v, c) in lc.as_ref() {
            let (w, c) = (Self::wire(*v), c.value());
            s = s + self.val[w as usize] * c;
            if !self.values_only {
                t.push((w, c));
            }
        }
        if s != F::zero() {
            self.bad.push(self.lins as u32);
        }
        self.lins += 1;
        if self.values_only {
            return;
        }
        // one term per wire
        t.sort_by_key(|x| x.0);
        let mut i = 0;
        while i < t.len() {
            let (w, mut c) = t[i];
            i += 1;
            while i < t.len() && t[i].0 == w {
                c = c + t[i].1;
                i += 1;
            }
            if c == F::zero() {
                continue;
            }
            let table = &mut self.table;
            let k = *self.index.entry(c.to_bytes()).or_insert_with(|| {
                table.push(c);
                table.len() as u32 - 1
            });
            self.wires.push(w);
            self.coeffs.push(k);
        }
        self.off.push(self.wires.len() as u32);
    }
    fn multiply<FN, A, AR>(&mut self, _a: A, values: FN) -> Res<(Variable, Variable, Variable)>
    where
        FN: FnOnce() -> Res<(F, F, F)>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let (x, y, z) = values()?;
        self.val.extend([x, y, z]);
        self.gate.push(true);
        let k = self.val.len() / 3;
        if x * y != z {
            self.bad.push(GATE | (k as u32 - 1));
        }
        Ok((Variable::A(k), Variable::B(k), Variable::C(k)))
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        if !self.values_only {
            let depth = self.open.len() as u32;
            self.open.push(self.regions.len());
            self.regions.push((self.val.len() as u32, 0, depth, name_fn().into()));
        }
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        if let Some(i) = self.open.pop() {
            self.regions[i].1 = self.val.len() as u32;
        }
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
const GATE: u32 = 1 << 31;
/// Mixtures per starting point.
const PARTS: usize = 48;

/// What a search did.
#[derive(Default, Clone, Copy, Debug)]
pub struct Spent {
    pub nodes: u64,
    pub starts: u64,
    /// searches ended by the node limit
    pub cut: u64,
}

struct Search<'a, F: Field> {
    s: &'a Full<F>,
    /// the satisfying assignment of the true statement
    truth: &'a [F],
    val: Vec<F>,
    decided: Vec<bool>,
    violated: BTreeSet<u32>,
    trail: Vec<(u32, F, bool)>,
    nodes: u64,
}
impl<'a, F: Field> Search<'a, F> {
    fn holds(&self, c: u32) -> bool {
        if c & GATE != 0 {
            let i = (c & !GATE) as usize * 3;
            self.val[i] * self.val[i + 1] == self.val[i + 2]
        } else {
            self.residue(c) == F::zero()
        }
    }
    fn residue(&self, c: u32) -> F {
        self.s.terms(c).fold(F::zero(), |s, (w, k)| s + self.val[w as usize] * k)
    }
    fn recheck(&mut self, w: u32) {
        let (off, l) = self.s.incidence();
        for j in off[w as usize]..off[w as usize + 1] {
            let c = l[j as usize];
            if self.holds(c) {
                self.violated.remove(&c);
            } else {
                self.violated.insert(c);
            }
        }
        let g = w / 3;
        if self.s.gate[g as usize] {
            let c = GATE | g;
            if self.holds(c) {
                self.violated.remove(&c);
            } else {
                self.violated.insert(c);
            }
        }
    }
    fn put(&mut self, w: u32, v: F) {
        self.trail.push((w, self.val[w as usize], self.decided[w as usize]));
        self.decided[w as usize] = true;
        if self.val[w as usize] != v {
            self.val[w as usize] = v;
            self.recheck(w);
        }
    }
    fn back(&mut self, to: usize) {
        while self.trail.len() > to {
            let (w, v, d) = self.trail.pop().unwrap();
            self.decided[w as usize] = d;
            if self.val[w as usize] != v {
                self.val[w as usize] = v;
                self.recheck(w);
            }
        }
    }
    fn latest(&self, c: u32) -> u32 {
        if c & GATE != 0 {
            (c & !GATE) * 3 + 2
        } else {
            self.s.terms(c).map(|t| t.0).max().unwrap_or(0)
        }
    }
    fn free(&self, c: u32) -> usize {
        if c & GATE != 0 {
            let i = (c & !GATE) * 3;
            (i..i + 3).filter(|w| !self.decided[*w as usize]).count()
        } else {
            self.s.terms(c).filter(|(w, _)| *w > 2 && !self.decided[*w as usize]).count()
        }
    }
    /// Some(true): satisfied; Some(false): nothing in reach; None: limit.
    fn solve(&mut self, limit: u64) -> Option<bool> {
        self.nodes += 1;
        if self.violated.is_empty() {
            return Some(true);
        }
        if limit == 0 {
            return None;
        }
        let end = self.nodes + limit;
        if self.violated.len() > 40 {
            return Some(false);
        }
        // what is forced, then in the order of the circuit
        let (n, _, c) = self.violated.iter().map(|c| (self.free(*c), *c)).map(|(n, c)| (n.min(2), self.latest(c), c)).min().unwrap();
        if n == 0 {
            return Some(false);
        }
        let mut moves: Vec<Vec<(u32, F)>> = vec![];
        if c & GATE != 0 {
            let i = (c & !GATE) * 3;
            let [x, y, z] = [i, i + 1, i + 2].map(|w| self.val[w as usize]);
            let [dx, dy, dz] = [i, i + 1, i + 2].map(|w| self.decided[w as usize]);
            if !dz {
                moves.push(vec![(i + 2, x * y)]);
            }
            if !dx {
                if let Some(inv) = Option::<F>::from(y.invert()) {
                    moves.push(vec![(i, z * inv)]);
                }
            }
            if !dy {
                if let Some(inv) = Option::<F>::from(x.invert()) {
                    moves.push(vec![(i + 1, z * inv)]);
                }
            }
        } else {
            let r = self.residue(c);
            let mut toward = vec![];
            let mut mirror = vec![];
            let mut single = vec![];
            let terms: Vec<(u32, F)> = self.s.terms(c).collect();
            for (w, k) in &terms {
                if *w <= 2 {
                    continue;
                }
                let (v, t) = (self.val[*w as usize], self.truth[*w as usize]);
                if !self.decided[*w as usize] {
                    if v != t {
                        toward.push((*w, t));
                    }
                    single.push(vec![(*w, v - r * k.invert().unwrap())]);
                } else if v != t {
                    // the same change on the other side of an equation
                    if let Some((p, _)) = terms.iter().find(|x| x.1 == -*k && x.0 > 2 && !self.decided[x.0 as usize]) {
                        mirror.push((*p, self.val[*p as usize] + v - t));
                    }
                }
            }
            if mirror.len() > 1 {
                moves.push(mirror);
            }
            if toward.len() > 1 {
                moves.push(toward);
            }
            // the latest first
            single.reverse();
            moves.extend(single);
        }
        // every move gets its share of what is left
        let mut all = Some(false);
        let n = moves.len() as u64;
        for (i, m) in moves.into_iter().enumerate() {
            let at = self.trail.len();
            for (w, v) in m {
                self.put(w, v);
            }
            let left = end.saturating_sub(self.nodes);
            let r = if !self.holds(c) {
                Some(false)
            } else if left == 0 {
                None
            } else {
                self.solve((left / (n - i as u64)).max(1) - 1)
            };
            if r == Some(true) {
                return r;
            }
            if r.is_none() {
                all = None;
            }
            self.back(at);
        }
        all
    }
}

/// Is there a satisfying assignment with the public inputs of `claim`? `claim`
/// are the values an honest run assigns for a false statement, `truth` those
/// for a true one. Starts from either, and from every mixture that takes one
/// namespace from the other; then repairs violated constraints wire by wire.
pub fn completes<F: Field>(s: &Full<F>, claim: &[F], bad: &[u32], limit: u64, spent: &mut Spent) -> Option<String> {
    let truth = &s.val;
    assert_eq!(truth.len(), claim.len());
    let mut input = vec![false; truth.len()];
    for w in &s.inputs {
        input[*w as usize] = true;
    }
    let diff: Vec<u32> = (3..truth.len() as u32).filter(|w| truth[*w as usize] != claim[*w as usize]).collect();
    let inner: Vec<u32> = diff.iter().copied().filter(|w| !input[*w as usize]).collect();
    assert!(diff.len() > inner.len(), "the claim is the truth");
    let mut found = None;
    for from_claim in [true, false] {
        let mut decided = input.clone();
        for i in 0..3 {
            decided[i] = true;
        }
        let mut x = Search { s, truth, val: claim.to_vec(), decided, violated: bad.iter().copied().collect(), trail: vec![], nodes: 0 };
        if !from_claim {
            for w in &inner {
                x.val[*w as usize] = truth[*w as usize];
            }
            x.violated.clear();
            for w in diff.iter().filter(|w| input[**w as usize]) {
                x.recheck(*w);
            }
        }
        let other: &[F] = if from_claim { truth } else { claim };
        let mut go = |x: &mut Search<F>, how: String, limit: u64| {
            x.nodes = 0;
            let at = x.trail.len();
            let r = x.solve(limit);
            spent.nodes += x.nodes;
            spent.starts += 1;
            transitions(x.nodes);
            match r {
                Some(true) => {
                    let n = x.trail.len() - at;
                    let first = x.trail.get(at).map(|t| t.0);
                    let place = first.map(|w| {
                        let mut p: Vec<&str> = vec![];
                        for r in &s.regions {
                            if r.0 <= w && w < r.1 {
                                p.push(&r.3);
                            }
                        }
                        p.join("/")
                    });
                    // every constraint, again
                    for c in 0..s.lins as u32 {
                        assert!(x.holds(c));
                    }
                    for (g, is) in s.gate.iter().enumerate() {
                        assert!(!is || x.holds(GATE | g as u32));
                    }
                    assert!(s.inputs.iter().all(|w| x.val[*w as usize] == claim[*w as usize]));
                    return Some(format!("{}, {} wires changed{}", how, n, place.map(|p| format!(", the first in {}", p)).unwrap_or_default()));
                }
                None => spent.cut += 1,
                _ => {}
            }
            x.back(at);
            None
        };
        found = go(&mut x, if from_claim { "its own witness".into() } else { "the witness of the truth".into() }, limit);
        if found.is_some() {
            break;
        }
        // the other square roots
        for w in s.roots() {
            let at = x.trail.len();
            let v = -x.val[*w as usize];
            x.put(*w, v);
            if x.violated.len() <= 40 {
                found = go(&mut x, format!("{} with a root negated", if from_claim { "its own witness" } else { "the witness of the truth" }), limit);
            }
            x.back(at);
            if found.is_some() {
                break;
            }
        }
        if found.is_some() {
            break;
        }
        // the largest first, and those that are not within another
        let mut seen = BTreeSet::new();
        let mut parts = vec![];
        for r in &s.regions {
            let (a, b) = (inner.partition_point(|w| *w < r.0), inner.partition_point(|w| *w < r.1));
            if a < b && b - a < inner.len() && r.2 < 3 && seen.insert((a, b)) {
                parts.push((a, b, r));
            }
        }
        parts.sort_by_key(|p| p.0 + inner.len() - p.1);
        let outer: Vec<_> = parts.iter().skip(PARTS).filter(|p| p.2.2 == 0).take(PARTS).copied().collect();
        parts.truncate(PARTS);
        parts.extend(outer);
        for (a, b, r) in parts {
            let at = x.trail.len();
            for w in &inner[a..b] {
                x.val[*w as usize] = other[*w as usize];
            }
            for w in &inner[a..b] {
                x.recheck(*w);
            }
            if x.violated.len() <= 8 {
                found = go(&mut x, format!("{} with that of the {} in {}", if from_claim { "its own witness" } else { "the witness of the truth" }, if from_claim { "truth" } else { "claim" }, r.3), limit / 8);
                if found.is_some() {
                    break;
                }
            }
            debug_assert_eq!(at, x.trail.len());
            let mine: &[F] = if from_claim { claim } else { truth };
            for w in &inner[a..b] {
                x.val[*w as usize] = mine[*w as usize];
            }
            for w in &inner[a..b] {
                x.recheck(*w);
            }
        }
        if found.is_some() {
            break;
        }
    }
    found
}
