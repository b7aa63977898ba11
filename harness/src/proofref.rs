//! The proof system's verifier, written from the protocol: every equation in
//! its plain polynomial form, no shared helper except the sponge and the
//! challenge-to-scalar map (both checked on their own).
use crate::prog::{Model, Op, Prog};
use halo::rescue::Rescue;
use halo::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Expected<C: Curve> {
    pub inner_product: bool,
    pub deferred_ok: bool,
    pub leftovers_ok: bool,
    pub s_new: C,
    pub g_new: C,
    pub y_cur: C::Scalar,
    pub x: C::Scalar,
    pub y_new: C::Scalar,
    pub z: C::Scalar,
    pub ky: C::Scalar,
    pub gx_old: C::Scalar,
    pub packed: Vec<C::Scalar>,
    pub forks: Vec<u8>,
    pub b: [C::Scalar; 5],
}
impl<C: Curve> Expected<C> {
    pub fn accept(&self) -> bool {
        self.inner_product && self.deferred_ok && self.leftovers_ok
    }
}

fn pow<F: Field>(b: F, e: usize) -> F {
    let mut r = F::one();
    let mut b = b;
    let mut e = e;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b;
        }
        b = b * b;
        e >>= 1;
    }
    r
}
pub fn evalp<F: Field>(v: &[F], x: F) -> F {
    v.iter().rev().fold(F::zero(), |a, c| a * x + *c)
}
pub fn msm<C: Curve>(v: &[C::Scalar], g: &[C]) -> C {
    assert!(v.len() <= g.len());
    v.iter().zip(g).fold(C::zero(), |a, (s, p)| if *s == C::Scalar::zero() { a } else { a + *p * *s })
}
fn absorb<C: Curve>(t: &mut Rescue<C::Base>, p: &C) {
    let xy = p.get_xy();
    let (x, y) = if bool::from(xy.is_some()) { xy.unwrap() } else { (C::Base::zero(), C::Base::zero()) };
    t.absorb(x);
    t.absorb(y);
}
fn absorb_s<C: Curve>(t: &mut Rescue<C::Base>, s: &C::Scalar) {
    absorb::<C>(t, &(C::one() * *s));
}
fn draw<C: Curve>(t: &mut Rescue<C::Base>) -> C::Scalar {
    let v = t.squeeze().to_bytes();
    let mut u = 0u128;
    for i in (0..16).rev() {
        u = u << 8 | v[i] as u128;
    }
    C::Scalar::from_u128(u | 1 << 127)
}
/// Weight of generator i after folding with these challenges.
pub fn weights<F: Field>(ch: &[F]) -> Option<Vec<F>> {
    let k = ch.len();
    let inv: Vec<F> = ch.iter().map(|c| if *c == F::zero() { None } else { Some(c.invert().unwrap()) }).collect::<Option<_>>()?;
    Some(
        (0..1usize << k)
            .map(|i| (0..k).fold(F::one(), |a, r| a * if i >> (k - 1 - r) & 1 == 1 { ch[r] } else { inv[r] }))
            .collect(),
    )
}
pub fn roots<F: Field>(packed: &[F]) -> Option<Vec<F>> {
    packed
        .iter()
        .map(|p| {
            let s: F = get_challenge_scalar(*p);
            let r = s.sqrt();
            if bool::from(r.is_some()) {
                Some(r.unwrap())
            } else {
                None
            }
        })
        .collect()
}

/// The relation between the openings of a proof. None if undefined.
pub fn relation<F: Field>(n: usize, x: F, y: F, ky: F, tp: F, tn: F, sx: F, rx: F, rxy: F) -> Option<bool> {
    if x == F::zero() || y == F::zero() {
        return None;
    }
    let xi: F = x.invert().unwrap();
    let yi: F = y.invert().unwrap();
    let r1 = rx * pow(xi, 3 * n - 1);
    let ry = rxy * pow(xi * yi, 3 * n - 1);
    let s = sx * pow(xi, n);
    let mut sp = s * pow(y, n);
    for i in 1..=n {
        sp = sp - (pow(y, i) + pow(yi, i)) * pow(x, n + i);
    }
    let t = r1 * (ry + sp) - pow(y, n) * ky;
    Some(t == tp * x + tn * pow(xi, 4 * n))
}

/// None: a challenge is zero or has no square root after every fork (only
/// possible over tiny fields).
pub fn reference<C: Curve>(p: &Proof<C>, old: &Leftovers<C>, params: &Params<C>, ops: &[Op], inputs: &[C::Scalar]) -> Option<Expected<C>> {
    let m = Model::<C::Scalar>::new(ops);
    let (n, k) = (params.n, params.k);
    let z0 = C::Scalar::zero();
    let mut ky = vec![z0; m.inputs.last().unwrap().0 + 1];
    for (i, (q, _)) in m.inputs.iter().enumerate() {
        ky[*q] = if i == 0 { C::Scalar::one() } else { inputs[i - 1] };
    }
    let kc = msm(&ky, &params.generators);
    let mut t = Rescue::<C::Base>::new();
    absorb(&mut t, &kc);
    absorb(&mut t, &p.r_commitment);
    let y_cur = draw::<C>(&mut t);
    absorb(&mut t, &p.s_cur_commitment);
    absorb(&mut t, &p.t_positive_commitment);
    absorb(&mut t, &p.t_negative_commitment);
    let x = draw::<C>(&mut t);
    absorb(&mut t, &p.c_commitment);
    let y_new = draw::<C>(&mut t);
    absorb(&mut t, &p.s_new_commitment);
    let kyo = evalp(&ky, y_cur);
    let ch_old = roots(&old.challenges_sq_packed_new)?;
    let gx = evalp(&weights(&ch_old)?, x);
    for s in [kyo, p.rx_opening, p.rxy_opening, p.sx_old_opening, p.sx_cur_opening, p.tx_positive_opening, p.tx_negative_opening, p.sx_new_opening, gx] {
        absorb_s::<C>(&mut t, &s);
    }
    let z: C::Scalar = get_challenge_scalar(draw::<C>(&mut t));
    let comb = [p.r_commitment, old.s_new_commitment, p.s_cur_commitment, p.t_positive_commitment, p.t_negative_commitment, p.s_new_commitment, old.g_new];
    let combo = [p.rx_opening, p.sx_old_opening, p.sx_cur_opening, p.tx_positive_opening, p.tx_negative_opening, p.sx_new_opening, gx];
    let mut pc = C::zero();
    let mut po = z0;
    for i in 0..7 {
        pc = pc + comb[i] * pow(z, 6 - i);
        po = po + combo[i] * pow(z, 6 - i);
    }
    let mut pp = [pc, p.r_commitment, p.c_commitment, p.c_commitment + kc * z, p.c_commitment];
    let mut vv = [po, p.rxy_opening, p.sx_old_opening, p.sx_cur_opening + kyo * z, p.sx_new_opening];
    let points = [x, x * y_cur, old.y_new, y_cur, y_new];
    let ip = &p.inner_product;
    let mut chs = vec![];
    let mut packed = vec![];
    let mut forks = vec![];
    for r in &ip.rounds {
        for j in 0..5 {
            absorb(&mut t, &r.L[j]);
            absorb(&mut t, &r.R[j]);
            absorb_s::<C>(&mut t, &r.l[j]);
            absorb_s::<C>(&mut t, &r.r[j]);
        }
        let mut fork = 0u8;
        let (pk, sq, ch) = loop {
            let mut u = t.clone();
            u.absorb(C::Base::from_u64(fork as u64));
            let pk = draw::<C>(&mut u);
            let sq: C::Scalar = get_challenge_scalar(pk);
            let rt = sq.sqrt();
            if bool::from(rt.is_some()) {
                t = u;
                break (pk, sq, rt.unwrap());
            }
            if fork == 255 {
                return None;
            }
            fork += 1;
        };
        if sq == z0 {
            return None;
        }
        let isq: C::Scalar = sq.invert().unwrap();
        for j in 0..5 {
            pp[j] = pp[j] + r.L[j] * sq + r.R[j] * isq;
            vv[j] = vv[j] + r.l[j] * sq + r.r[j] * isq;
        }
        chs.push(ch);
        packed.push(pk);
        forks.push(fork);
    }
    let w = weights(&chs)?;
    let mut b = [z0; 5];
    let mut good = true;
    for j in 0..5 {
        b[j] = evalp(&w, points[j]);
        good &= pp[j] == ip.g * ip.a[j] && vv[j] == ip.a[j] * b[j];
    }
    let deferred_ok = relation(n, x, y_cur, kyo, p.tx_positive_opening, p.tx_negative_opening, p.sx_cur_opening, p.rx_opening, p.rxy_opening)?;
    let g_new = msm(&w, &params.generators);
    let s_new = msm(&m.sx(y_new, n), &params.generators);
    debug_assert!(k == chs.len());
    Some(Expected {
        inner_product: good,
        deferred_ok,
        leftovers_ok: g_new == ip.g && s_new == p.s_new_commitment,
        s_new,
        g_new,
        y_cur,
        x,
        y_new,
        z,
        ky: kyo,
        gx_old: gx,
        packed,
        forks,
        b,
    })
}

/// What the library says about a proof.
pub struct Said<C: Curve> {
    pub inner_product: bool,
    pub deferred_ok: bool,
    pub leftovers_ok: bool,
    pub leftovers: Leftovers<C>,
    pub deferred: Deferred<C::Scalar>,
    pub forks: Vec<u8>,
}
impl<C: Curve> Said<C> {
    pub fn accept(&self) -> bool {
        self.inner_product && self.deferred_ok && self.leftovers_ok
    }
}
pub fn library<C: Curve>(p: &Proof<C>, old: &Leftovers<C>, params: &Params<C>, ops: &[Op], inputs: &[C::Scalar]) -> Result<Said<C>, SynthesisError> {
    let c = Prog { ops, witness: false };
    let (ok, l, d, f) = p.verify::<_, Basic>(old, params, &c, inputs, None)?;
    Ok(Said { inner_product: ok, deferred_ok: d.verify(params.k), leftovers_ok: l.verify::<_, Basic>(params, &c)?, leftovers: l, deferred: d, forks: f })
}

/// Both verifiers must agree on the verdict and on everything they output.
/// None: degenerate, nothing to compare.
pub fn agree<C: Curve>(what: &str, p: &Proof<C>, old: &Leftovers<C>, params: &Params<C>, ops: &[Op], inputs: &[C::Scalar]) -> Result<Option<(Expected<C>, Said<C>)>, String> {
    let Some(e) = reference(p, old, params, ops, inputs) else { return Ok(None) };
    let s = crate::guard(|| library(p, old, params, ops, inputs)).map_err(|m| format!("{}: {}", what, m))?.map_err(|m| format!("{}: verification fails with {:?}", what, m))?;
    let d = &s.deferred;
    let l = &s.leftovers;
    macro_rules! same {
        ($n:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Err(format!("{}: {} is {:?}, expected {:?}", what, $n, $a, $b));
            }
        };
    }
    same!("x", d.x, e.x);
    same!("y_cur", d.y_cur, e.y_cur);
    same!("y_new", d.y_new, e.y_new);
    same!("y_old", d.y_old, old.y_new);
    same!("the opening of k", d.ky_opening, e.ky);
    same!("the opening of t+", d.tx_positive_opening, p.tx_positive_opening);
    same!("the opening of t-", d.tx_negative_opening, p.tx_negative_opening);
    same!("the opening of s", d.sx_cur_opening, p.sx_cur_opening);
    same!("the opening of r at x", d.rx_opening, p.rx_opening);
    same!("the opening of r at xy", d.rxy_opening, p.rxy_opening);
    same!("the old challenges", d.challenges_sq_packed_old, old.challenges_sq_packed_new);
    same!("the new challenges", d.challenges_sq_packed_new, e.packed);
    same!("the opening of g", d.gx_old_opening, e.gx_old);
    same!("b(x)", d.b_x, e.b[0]);
    same!("b(xy)", d.b_xy, e.b[1]);
    same!("b(y_old)", d.b_y_old, e.b[2]);
    same!("b(y_cur)", d.b_y_cur, e.b[3]);
    same!("b(y_new)", d.b_y_new, e.b[4]);
    same!("the carried challenges", l.challenges_sq_packed_new, e.packed);
    same!("the carried y", l.y_new, e.y_new);
    same!("the carried commitment", l.s_new_commitment, p.s_new_commitment);
    same!("the carried g", l.g_new, p.inner_product.g);
    same!("the fork values", s.forks, e.forks);
    same!("the inner product verdict", s.inner_product, e.inner_product);
    same!("the deferred verdict", s.deferred_ok, e.deferred_ok);
    same!("the leftovers verdict", s.leftovers_ok, e.leftovers_ok);
    Ok(Some((e, s)))
}

/// Parameters whose generators are fixed multiples of the curve's generator.
pub fn fixed_params<C: Curve>(k: usize, salt: u64) -> Params<C> {
    let d = 1 << k;
    let mut s = C::Scalar::from_u64(5 + salt);
    let mut generators: Vec<C> = vec![];
    while generators.len() < d {
        let g = C::one() * s;
        s = s * C::Scalar::from_u64(7) + C::Scalar::one();
        if g != C::zero() && !generators.contains(&g) {
            generators.push(g);
        } else {
            s = s + C::Scalar::one();
        }
    }
    // affine representatives, as the library's own parameters have
    let generators_xy: Vec<_> = generators.iter().map(|g| g.get_xy().unwrap()).collect();
    let generators = generators_xy.iter().map(|(x, y)| C::from_xy(*x, *y).unwrap()).collect();
    Params { g: C::one(), d, n: d / 4, k, generators, generators_xy }
}

/// Gates of a program, counting the constant's.
pub fn fits<F: Field>(ops: &[Op], n: usize, d: usize) -> bool {
    let m = Model::<F>::new(ops);
    m.n < n && m.lins.len() < d
}

/// One mutable component of a proof.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Part {
    Commit(usize),
    Open(usize),
    RL(usize, usize),
    RR(usize, usize),
    Rl(usize, usize),
    Rr(usize, usize),
    A(usize),
    G,
}
pub fn parts(k: usize) -> Vec<Part> {
    let mut v: Vec<Part> = (0..6).map(Part::Commit).collect();
    v.extend((0..7).map(Part::Open));
    for i in 0..k {
        for j in 0..5 {
            v.extend([Part::RL(i, j), Part::RR(i, j), Part::Rl(i, j), Part::Rr(i, j)]);
        }
    }
    v.extend((0..5).map(Part::A));
    v.push(Part::G);
    v
}
pub const COMMITS: [&str; 6] = ["r", "s_cur", "t_positive", "t_negative", "c", "s_new"];
pub const OPENS: [&str; 7] = ["rx", "rxy", "sx_old", "sx_cur", "tx_positive", "tx_negative", "sx_new"];
pub enum Slot<'a, C: Curve> {
    P(&'a mut C),
    S(&'a mut C::Scalar),
}
pub fn slot<'a, C: Curve>(p: &'a mut Proof<C>, part: Part) -> Slot<'a, C> {
    match part {
        Part::Commit(0) => Slot::P(&mut p.r_commitment),
        Part::Commit(1) => Slot::P(&mut p.s_cur_commitment),
        Part::Commit(2) => Slot::P(&mut p.t_positive_commitment),
        Part::Commit(3) => Slot::P(&mut p.t_negative_commitment),
        Part::Commit(4) => Slot::P(&mut p.c_commitment),
        Part::Commit(_) => Slot::P(&mut p.s_new_commitment),
        Part::Open(0) => Slot::S(&mut p.rx_opening),
        Part::Open(1) => Slot::S(&mut p.rxy_opening),
        Part::Open(2) => Slot::S(&mut p.sx_old_opening),
        Part::Open(3) => Slot::S(&mut p.sx_cur_opening),
        Part::Open(4) => Slot::S(&mut p.tx_positive_opening),
        Part::Open(5) => Slot::S(&mut p.tx_negative_opening),
        Part::Open(_) => Slot::S(&mut p.sx_new_opening),
        Part::RL(i, j) => Slot::P(&mut p.inner_product.rounds[i].L[j]),
        Part::RR(i, j) => Slot::P(&mut p.inner_product.rounds[i].R[j]),
        Part::Rl(i, j) => Slot::S(&mut p.inner_product.rounds[i].l[j]),
        Part::Rr(i, j) => Slot::S(&mut p.inner_product.rounds[i].r[j]),
        Part::A(j) => Slot::S(&mut p.inner_product.a[j]),
        Part::G => Slot::P(&mut p.inner_product.g),
    }
}
pub fn name(part: Part) -> String {
    match part {
        Part::Commit(i) => format!("{}_commitment", COMMITS[i]),
        Part::Open(i) => format!("{}_opening", OPENS[i]),
        Part::RL(i, j) => format!("round {} L[{}]", i, j),
        Part::RR(i, j) => format!("round {} R[{}]", i, j),
        Part::Rl(i, j) => format!("round {} l[{}]", i, j),
        Part::Rr(i, j) => format!("round {} r[{}]", i, j),
        Part::A(j) => format!("a[{}]", j),
        Part::G => "g".into(),
    }
}

/// The starting leftovers: the library's own where its fixed challenge is a
/// square, otherwise the same thing with the first challenge that is.
pub fn start<C: Curve>(params: &Params<C>) -> Leftovers<C> {
    let ok = |v: u64| {
        let s: C::Scalar = get_challenge_scalar(C::Scalar::from_u64(v));
        s != C::Scalar::zero() && bool::from(s.sqrt().is_some())
    };
    if ok(12) {
        return Leftovers::dummy(params);
    }
    let v = (1..).find(|v| ok(*v)).unwrap();
    let packed = vec![C::Scalar::from_u64(v); params.k];
    let w = weights(&roots(&packed).unwrap()).unwrap();
    Leftovers { s_new_commitment: C::zero(), y_new: C::Scalar::zero(), g_new: msm(&w, &params.generators), challenges_sq_packed_new: packed }
}
