//! F01: field arithmetic is exact arithmetic modulo the prime.
use halo::{Field, Fp, Fq};
use halo_mc::big::*;
use halo_mc::realf::*;
use halo_mc::*;
use subtle::ConditionallySelectable;

fn pair<F: RealField>(a: &U256, b: &U256, x: &F, y: &F) -> Result<(), String> {
    let m = &F::M;
    let want = [addmod(a, b, m), submod(a, b, m), mulmod(a, b, m)];
    let names = ["+", "-", "*"];
    let (x, y) = (*x, *y);
    let mut got: Vec<[F; 3]> = vec![[x + y, x - y, x * y], [x + &y, x - &y, x * &y]];
    let r = F::f_refops(&x, &y);
    got.push([r[0], r[1], r[2]]);
    let (mut s, mut d, mut p) = (x, x, x);
    s += y;
    d -= y;
    p *= y;
    got.push([s, d, p]);
    let (mut s, mut d, mut p) = (x, x, x);
    s += &y;
    d -= &y;
    p *= &y;
    got.push([s, d, p]);
    let w: [F; 3] = [of_raw(&want[0]), of_raw(&want[1]), of_raw(&want[2])];
    for (form, g) in got.iter().enumerate() {
        for k in 0..3 {
            // compare through the canonical encoding for the first form, and by
            // equality for the others
            let ok = if form == 0 { val(&g[k]) == want[k] && g[k] == w[k] } else { g[k] == w[k] };
            ensure!(ok, "{}: {} {} {} = {} but got {} (operator form {})", F::NAME, hex(a), names[k], hex(b), hex(&want[k]), hex(&val(&g[k])), form);
        }
    }
    let eq = a == b;
    ensure!((x == y) == eq && bool::from(x.ct_eq(&y)) == eq && (x != y) == !eq, "{}: equality of {} and {} is wrong", F::NAME, hex(a), hex(b));
    Ok(())
}
fn of_raw<F: RealField>(v: &U256) -> F {
    F::from_bytes(&to_bytes(v)).unwrap()
}

fn unary<F: RealField>(a: &U256) -> Result<(), String> {
    let m = &F::M;
    let x: F = of_raw(a);
    ensure!(val(&x) == *a, "{}: {} reads back as {}", F::NAME, hex(a), hex(&val(&x)));
    let sq = mulmod(a, a, m);
    let db = addmod(a, a, m);
    let ng = negmod(a, m);
    for (n, g, w) in [
        ("square", x.f_square(), &sq),
        ("square (trait)", Field::square(&x), &sq),
        ("x*x", x * x, &sq),
        ("double", x.f_double(), &db),
        ("x+x", x + x, &db),
        ("neg", -x, &ng),
        ("neg (inherent)", F::f_inherent(&x, &x)[3], &ng),
        ("neg (ref)", F::f_refops(&x, &x)[3], &ng),
        ("0-x", F::zero() - x, &ng),
        ("x*1", x * F::one(), a),
        ("x+0", x + F::zero(), a),
        ("from_raw", F::f_from_raw(*a), a),
    ] {
        ensure!(val(&g) == *w && g == of_raw(w), "{}: {} of {} is {} but got {}", F::NAME, n, hex(a), hex(w), hex(&val(&g)));
    }
    ensure!(bool::from(x.is_zero()) == is_zero(a), "{}: is_zero({})", F::NAME, hex(a));
    ensure!(bool::from((x - x).is_zero()) && bool::from((x + (-x)).is_zero()), "{}: x-x of {}", F::NAME, hex(a));
    let o = F::one();
    ensure!(
        F::conditional_select(&x, &o, 0.into()) == x && F::conditional_select(&x, &o, 1.into()) == o,
        "{}: conditional_select({})", F::NAME, hex(a)
    );
    Ok(())
}

fn field<F: RealField>(c: &mut Ctx) {
    let rinv = unmont::<F>();
    let h = 1u64 << 63;
    let mx = u64::MAX;
    let small = c.tier(vec![0, 1, mx], vec![0, 1, h, mx - 1, mx]);
    let raw = digits::<F>(&small, true);
    let mont: Vec<U256> = raw.iter().map(|v| mulmod(v, &rinv, &F::M)).collect();
    let land = landmarks::<F>();
    // pairs of internal representations, pairs of canonical values, and every
    // landmark against both
    let big: Vec<u64> = vec![0, 1, 2, 0xffff_ffff, 1 << 32, (1 << 32) + 1, h - 1, h, h + 1, mx - 1, mx, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa];
    for (name, set) in [("internal", mont.clone()), ("canonical", raw.clone()), ("landmark", land.clone())] {
        c.case(&format!("{} pairs of {} values", F::NAME, name), |c| {
            c.sample(format!("{} {} set of {} values: {} {} {}", F::NAME, name, set.len(), hex(&set[0]), hex(&set[set.len() / 2]), hex(&set[set.len() - 1])));
            let xs: Vec<F> = set.iter().map(of_raw).collect();
            let idx: Vec<usize> = (0..set.len()).collect();
            let rs = par(&idx, |&i| {
                for j in 0..set.len() {
                    pair::<F>(&set[i], &set[j], &xs[i], &xs[j])?;
                }
                states(set.len() as u64);
                transitions(15 * set.len() as u64);
                validated(set.len() as u64);
                Ok(())
            });
            rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
        });
    }
    c.case(&format!("{} landmarks against internal values", F::NAME), |_| {
        let xs: Vec<F> = mont.iter().map(of_raw).collect();
        let rs = par(&land, |a| {
            let x: F = of_raw(a);
            for j in 0..mont.len() {
                pair::<F>(a, &mont[j], &x, &xs[j])?;
                pair::<F>(&mont[j], a, &xs[j], &x)?;
            }
            states(2 * mont.len() as u64);
            transitions(30 * mont.len() as u64);
            validated(2 * mont.len() as u64);
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} unary operations", F::NAME), |_| {
        let set = digits::<F>(&big, true);
        let mut all = set.clone();
        all.extend(set.iter().map(|v| mulmod(v, &rinv, &F::M)));
        all.extend(land.iter().copied());
        let rs = par(&all.chunks(256).map(|c| c.to_vec()).collect::<Vec<_>>(), |ch| {
            for a in ch {
                unary::<F>(a)?;
            }
            states(ch.len() as u64);
            transitions(12 * ch.len() as u64);
            validated(ch.len() as u64);
            Ok(())
        });
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    // every sequence of operations up to a depth over two registers, against the integers mod m
    c.case(&format!("{} operation histories", F::NAME), |c| {
        let depth = c.tier(6, 8);
        let seeds: Vec<(U256, U256)> = vec![
            ([0; 4], [1, 0, 0, 0]),
            (negmod(&[1, 0, 0, 0], &F::M), [2, 0, 0, 0]),
            (shr(&F::M, 1), negmod(&[2, 0, 0, 0], &F::M)),
            ([mx; 4].map(|x| x >> 2), [mx, 0, mx, 0]),
        ];
        fn go<F: RealField>(d: usize, a: U256, b: U256, x: F, y: F) -> Result<(), String> {
            states(1);
            validated(1);
            if d == 0 {
                return Ok(());
            }
            let m = &F::M;
            for op in 0..7 {
                transitions(1);
                let (na, nb, nx, ny) = match op {
                    0 => (addmod(&a, &b, m), b, x + y, y),
                    1 => (submod(&a, &b, m), b, x - y, y),
                    2 => (mulmod(&a, &b, m), b, x * y, y),
                    3 => (mulmod(&a, &a, m), b, Field::square(&x), y),
                    4 => (addmod(&a, &a, m), b, x.f_double(), y),
                    5 => (negmod(&a, m), b, -x, y),
                    _ => (b, a, y, x),
                };
                if val(&nx) != na {
                    return Err(format!("{}: operation {} on {} {} gave {}", F::NAME, op, hex(&a), hex(&b), hex(&val(&nx))));
                }
                go::<F>(d - 1, na, nb, nx, ny)?;
            }
            Ok(())
        }
        let rs = par(&seeds, |(a, b)| go::<F>(depth, *a, *b, of(a), of(b)));
        rs.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
    });
    c.case(&format!("{} constructors", F::NAME), |_| {
        for a in &big {
            let w = modulo(&[*a, 0, 0, 0], &F::M);
            for g in [F::from_u64(*a), F::f_from(*a), F::from_u128(*a as u128)] {
                ensure!(val(&g) == w, "{}: from {} gives {}", F::NAME, a, hex(&val(&g)));
            }
            for b in &big {
                let g = F::from_u128(*a as u128 | ((*b as u128) << 64));
                ensure!(val(&g) == [*a, *b, 0, 0], "{}: from_u128({:x},{:x})", F::NAME, a, b);
                states(1);
                transitions(1);
            }
        }
        ensure!(F::from(true) == F::one() && F::from(false) == F::zero(), "{}: From<bool>", F::NAME);
        ensure!(val(&F::one()) == [1, 0, 0, 0] && val(&F::zero()) == [0; 4] && F::default() == F::zero(), "{}: constants", F::NAME);
        Ok(())
    });
}

fn main() {
    let mut c = Ctx::new("F01", "model_checking");
    c.rule("a state is a tuple of operand values; every operator form is executed on it and compared with schoolbook integer arithmetic");
    c.bound("operands: every 4-digit value over {0,1,2^64-1} plus each modulus digit and its neighbours, as canonical value and as internal (Montgomery) representation; powers of two, their negations and neighbours; all operation histories over two registers up to the depth of the tier");
    c.assume("values whose digits lie outside the enumerated alphabets are not executed");
    field::<Fp>(&mut c);
    field::<Fq>(&mut c);
    c.finish()
}
