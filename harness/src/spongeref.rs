//! The sponge as a plain machine over integers of any field: state of 13
//! elements, rate 12, capacity 1, 20 half rounds.
use halo::Field;

pub const M: usize = 13;
pub const RATE: usize = 12;
pub const HALF: usize = 20;

/// x^e by right-to-left binary powering.
pub fn pw<F: Field>(x: F, e: &[u64]) -> F {
    let mut r = F::one();
    let mut b = x;
    for w in e {
        for i in 0..64 {
            if (w >> i) & 1 == 1 {
                r = r * b;
            }
            b = b * b;
        }
    }
    r
}

#[derive(Clone)]
pub struct Perm<F: Field> {
    keys: Vec<[F; M]>,
    /// inverse of 5 modulo the group order, little-endian words
    inv5: Vec<u64>,
}
impl<F: Field> Perm<F> {
    /// `inv5`: the exponent of the fifth root.
    pub fn new(inv5: &[u64]) -> Self {
        let mut inv5 = inv5.to_vec();
        while inv5.len() > 1 && *inv5.last().unwrap() == 0 {
            inv5.pop();
        }
        let mut p = Perm { keys: vec![], inv5 };
        let ones = vec![[F::one(); M]; HALF + 1];
        let mut s = [F::zero(); M];
        let mut ks = vec![];
        p.run(&mut s, &ones, |k| ks.push(*k));
        p.keys = ks;
        p
    }
    fn run(&self, s: &mut [F; M], keys: &[[F; M]], mut see: impl FnMut(&[F; M])) {
        for i in 0..M {
            s[i] = s[i] + keys[0][i];
        }
        see(s);
        for r in 0..HALF {
            let mut t = F::zero();
            for (j, x) in s.iter().enumerate() {
                let y = if r % 2 == 0 { pw(*x, &self.inv5) } else { pw(*x, &[5]) };
                t = t + F::from_u64(j as u64) * y;
            }
            for i in 0..M {
                s[i] = F::from_u64(i as u64 + 1) * t + keys[r + 1][i];
            }
            see(s);
        }
    }
    pub fn apply(&self, s: &mut [F; M]) {
        self.run(s, &self.keys, |_| ());
    }
}

/// The sponge as a history automaton.
#[derive(Clone)]
pub struct Sponge<F: Field> {
    s: [F; M],
    pending: Vec<F>,
    ready: std::collections::VecDeque<F>,
    pub perms: u64,
}
impl<F: Field> Sponge<F> {
    pub fn new() -> Self {
        Sponge { s: [F::zero(); M], pending: vec![], ready: Default::default(), perms: 0 }
    }
    fn duplex(&mut self, p: &Perm<F>) {
        for i in 0..RATE {
            self.s[i] = self.s[i] + self.pending.get(i).copied().unwrap_or(F::one());
        }
        p.apply(&mut self.s);
        self.perms += 1;
        self.pending.clear();
    }
    pub fn absorb(&mut self, p: &Perm<F>, v: F) {
        self.ready.clear();
        if self.pending.len() == RATE {
            self.duplex(p);
        }
        self.pending.push(v);
    }
    pub fn squeeze(&mut self, p: &Perm<F>) -> F {
        if self.ready.is_empty() {
            self.duplex(p);
            self.ready = self.s[..RATE].iter().copied().collect();
        }
        self.ready.pop_front().unwrap()
    }
}
