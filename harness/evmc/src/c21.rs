//! C21: the pairing fields and curves against polynomials over big integers.
use evm_arithmetization::verif_hooks::fields::*;
use vc::big::to_big;
use vc::rayon::prelude::*;
use vc::{json, BigUint, Check, U256};

type Q = (BigUint, BigUint);
/// Coefficients of 1, z, ..., z^5 over Fp2, where z^6 = xi.
type E = Vec<Q>;

struct Ref {
    p: BigUint,
    xi: Q,
    words: usize,
    bls: bool,
    /// `xi^((p^n - 1) / 6)` for each n.
    gamma: Vec<Q>,
}
fn n(x: u64) -> BigUint {
    BigUint::from(x)
}
fn dec(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}
fn hex(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
fn bits(e: &BigUint) -> impl Iterator<Item = bool> + '_ {
    (0..e.bits()).rev().map(|i| e.bit(i))
}
impl Ref {
    fn new(bls: bool) -> Self {
        let p = if bls {
            hex("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
        } else {
            crate::alu::bn_base()
        };
        let mut r = Ref { p, xi: (n(if bls { 1 } else { 9 }), n(1)), words: 1 + bls as usize, bls, gamma: vec![] };
        let mut q = n(1);
        for _ in 0..14 {
            r.gamma.push(r.pow2(&r.xi, &((&q - 1u8) / 6u8)));
            q *= &r.p;
        }
        r
    }
    fn add(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + b) % &self.p
    }
    fn neg(&self, a: &BigUint) -> BigUint {
        (&self.p - a) % &self.p
    }
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + &self.p - b) % &self.p
    }
    fn mul(&self, a: &BigUint, b: &BigUint) -> BigUint {
        a * b % &self.p
    }
    /// Zero for zero.
    fn inv(&self, a: &BigUint) -> BigUint {
        a.modpow(&(&self.p - 2u8), &self.p)
    }
    fn add2(&self, a: &Q, b: &Q) -> Q {
        (self.add(&a.0, &b.0), self.add(&a.1, &b.1))
    }
    fn sub2(&self, a: &Q, b: &Q) -> Q {
        (self.sub(&a.0, &b.0), self.sub(&a.1, &b.1))
    }
    fn neg2(&self, a: &Q) -> Q {
        (self.neg(&a.0), self.neg(&a.1))
    }
    fn conj2(&self, a: &Q) -> Q {
        (a.0.clone(), self.neg(&a.1))
    }
    fn mul2(&self, a: &Q, b: &Q) -> Q {
        let re = self.sub(&self.mul(&a.0, &b.0), &self.mul(&a.1, &b.1));
        (re, (&a.0 * &b.1 + &a.1 * &b.0) % &self.p)
    }
    fn inv2(&self, a: &Q) -> Q {
        let d = self.inv(&((&a.0 * &a.0 + &a.1 * &a.1) % &self.p));
        (self.mul(&a.0, &d), self.mul(&self.neg(&a.1), &d))
    }
    fn pow2(&self, a: &Q, e: &BigUint) -> Q {
        let mut r = (n(1), n(0));
        for b in bits(e) {
            r = self.mul2(&r, &r);
            if b {
                r = self.mul2(&r, a);
            }
        }
        r
    }
    fn zero(&self) -> E {
        vec![(n(0), n(0)); 6]
    }
    fn one(&self) -> E {
        let mut e = self.zero();
        e[0].0 = n(1);
        e
    }
    fn is_zero(&self, a: &E) -> bool {
        *a == self.zero()
    }
    fn map(&self, a: &E, b: &E, f: impl Fn(&Q, &Q) -> Q) -> E {
        a.iter().zip(b).map(|(x, y)| f(x, y)).collect()
    }
    fn emul(&self, a: &E, b: &E) -> E {
        let mut r = self.zero();
        for i in 0..6 {
            if a[i] == (n(0), n(0)) {
                continue;
            }
            for j in 0..6 {
                let mut x = self.mul2(&a[i], &b[j]);
                if i + j >= 6 {
                    x = self.mul2(&x, &self.xi);
                }
                r[(i + j) % 6] = self.add2(&r[(i + j) % 6], &x);
            }
        }
        r
    }
    fn epow(&self, a: &E, e: &BigUint) -> E {
        let mut r = self.one();
        for b in bits(e) {
            r = self.emul(&r, &r);
            if b {
                r = self.emul(&r, a);
            }
        }
        r
    }
    /// `a^(p^k)`, z^(p^k) being `z * xi^((p^k - 1) / 6)`.
    fn frob(&self, a: &E, k: usize) -> E {
        let mut g = (n(1), n(0));
        a.iter()
            .map(|c| {
                let c = if k % 2 == 1 { self.conj2(c) } else { c.clone() };
                let r = self.mul2(&c, &g);
                g = self.mul2(&g, &self.gamma[k]);
                r
            })
            .collect()
    }

    // --- the layout on the stack
    fn w(&self, a: &BigUint) -> Vec<U256> {
        let m = (n(1) << 256) - 1u8;
        let mut v = vec![vc::big::from_big(&(a & &m))];
        if self.bls {
            v.push(vc::big::from_big(&(a >> 256)));
        }
        v
    }
    fn r(&self, v: &[U256]) -> BigUint {
        v.iter().rev().fold(n(0), |a, x| (a << 256) + to_big(*x))
    }
    fn w2(&self, a: &Q) -> Vec<U256> {
        [self.w(&a.0), self.w(&a.1)].concat()
    }
    fn r2(&self, v: &[U256]) -> Q {
        (self.r(&v[..self.words]), self.r(&v[self.words..2 * self.words]))
    }
    /// Order of the coefficients: 1, z^2, z^4, z, z^3, z^5.
    fn we(&self, a: &E, deg: usize) -> Vec<U256> {
        match deg {
            1 => self.w(&a[0].0),
            2 => self.w2(&a[0]),
            6 => [0, 2, 4].iter().flat_map(|i| self.w2(&a[*i])).collect(),
            _ => [0, 2, 4, 1, 3, 5].iter().flat_map(|i| self.w2(&a[*i])).collect(),
        }
    }
    fn re(&self, v: &[U256], deg: usize) -> E {
        let mut e = self.zero();
        if deg == 1 {
            e[0].0 = self.r(v);
            return e;
        }
        for (k, c) in v.chunks(2 * self.words).enumerate() {
            e[[0, 2, 4, 1, 3, 5][k]] = self.r2(c);
        }
        e
    }

    /// Coordinates at the boundaries.
    fn scalars(&self) -> Vec<BigUint> {
        let p = &self.p;
        let mut v: Vec<BigUint> = vec![n(0), n(1), n(2), n(3), n(9), p - 1u8, p - 2u8, p - 9u8, p >> 1, (p >> 1) + 1u8, p / 3u8];
        for k in [32, 63, 64, 127, 128, 129, 191, 192, 253, 255, 256, 257, 319, 320, 376, 380] {
            for d in 0..2u8 {
                let x: BigUint = (n(1) << k) - d;
                if &x < p {
                    v.push(p - &x);
                    v.push(x);
                }
            }
        }
        let mut l = vc::Lcg(5);
        for _ in 0..4 {
            v.push(((to_big(l.u256()) << 256) + to_big(l.u256())) % p);
        }
        // a root of the tower's adjoined elements' norm, squares and non-squares
        v.push(p - (p / 7u8));
        v.sort();
        v.dedup();
        v
    }
}

/// Elements of a field of this degree: all combinations of few coordinates,
/// one coordinate at every boundary, and dense ones.
fn elements(f: &Ref, deg: usize, dense: usize) -> Vec<E> {
    let coords: Vec<usize> = match deg {
        1 => vec![0],
        2 => vec![0, 1],
        6 => vec![0, 1, 4, 5, 8, 9],
        _ => (0..12).collect(),
    };
    let mut v = vec![];
    let sc = f.scalars();
    let set = |e: &mut E, c: usize, x: &BigUint| {
        if c % 2 == 0 {
            e[c / 2].0 = x.clone()
        } else {
            e[c / 2].1 = x.clone()
        }
    };
    let few = [n(0), n(1), &f.p - 1u8, sc[sc.len() / 2].clone()];
    match deg {
        1 => {}
        2 => {
            for a in &few {
                for b in &few {
                    v.push(vec![(a.clone(), b.clone()), (n(0), n(0)), (n(0), n(0)), (n(0), n(0)), (n(0), n(0)), (n(0), n(0))]);
                }
            }
        }
        _ => {
            // every choice of coordinates among 0 and 1 (all for degree 6, Fp2 by Fp2 for 12)
            for m in 0u32..64 {
                let mut e = f.zero();
                for (k, c) in coords.iter().enumerate() {
                    let bit = if deg == 6 { k } else { k / 2 };
                    if m >> bit & 1 == 1 {
                        set(&mut e, *c, &few[1 + (k % 3)]);
                    }
                }
                v.push(e);
            }
        }
    }
    for c in &coords {
        for (i, x) in sc.iter().enumerate() {
            if deg <= 2 || i % (2 * deg / 3) == c % (2 * deg / 3) {
                let mut e = f.zero();
                set(&mut e, *c, x);
                v.push(e);
            }
        }
    }
    for d in 0..dense {
        let mut e = f.zero();
        for (k, c) in coords.iter().enumerate() {
            set(&mut e, *c, &sc[(d * 7 + k * (3 + d)) % sc.len()]);
        }
        v.push(e);
    }
    let mut out: Vec<E> = vec![];
    for e in v {
        if !out.contains(&e) {
            out.push(e);
        }
    }
    out
}

fn short(v: &[U256]) -> String {
    v.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ")
}
fn cmp(c: &Check, what: &str, args: &[&[U256]], want: &[U256], got: impl FnOnce() -> Vec<U256>) {
    let key = || format!("{what} {}", args.iter().map(|a| short(a)).collect::<Vec<_>>().join(" | "));
    match vc::catch(got) {
        Ok(g) if g == want => {}
        Ok(g) => c.violate(&key(), format!("{}\nwant {}\ngot  {}", key(), short(want), short(&g))),
        Err(e) => c.violate(&key(), format!("{}: panic {e}", key())),
    }
}

fn fields(c: &Check, f: &Ref) {
    for (k, deg) in [1usize, 2, 6, 12].into_iter().enumerate() {
        let field = Field::ALL[4 * f.bls as usize + k];
        let els = elements(f, deg, c.pick(12, 30));
        let name = format!("{field:?}");
        c.note(&format!("elements of {name}"), json!(els.len()));
        let one = f.one();
        let words: Vec<Vec<U256>> = els.iter().map(|e| f.we(e, deg)).collect();
        assert_eq!(words[0].len(), field.size());
        cmp(c, &format!("{name} zero"), &[], &f.we(&f.zero(), deg), || field.op(FieldOp::Zero, &words[0], &words[0]));
        cmp(c, &format!("{name} unit"), &[], &f.we(&one, deg), || field.op(FieldOp::Unit, &words[0], &words[0]));
        for i in [0u64, 1, 2, 3, 1 << 32, u64::MAX] {
            let mut e = f.zero();
            e[0].0 = n(i);
            cmp(c, &format!("{name} new {i}"), &[], &f.we(&e, deg), || field.op(FieldOp::New, &[i.into()], &[]));
        }
        (0..els.len()).into_par_iter().for_each(|i| {
            if c.stopped() {
                return;
            }
            let (a, w) = (&els[i], &words[i]);
            c.state(&(&name, i));
            cmp(c, &format!("{name} round trip"), &[w], w, || field.op(FieldOp::RoundTrip, w, w));
            let neg = f.map(a, a, |x, _| f.neg2(x));
            cmp(c, &format!("{name} neg"), &[w], &f.we(&neg, deg), || field.op(FieldOp::Neg, w, w));
            // the inverse is checked by multiplying
            match vc::catch(|| field.op(FieldOp::Inv, w, w)) {
                Ok(r) => {
                    let r = f.re(&r, deg);
                    let canonical = r.iter().all(|x| x.0 < f.p && x.1 < f.p);
                    let ok = if f.is_zero(a) { true } else { f.emul(a, &r) == one };
                    if !ok || !canonical {
                        c.violate(&format!("{name} inv {}", short(w)), format!("{name}: {} is not the inverse of {}", short(&f.we(&r, deg)), short(w)));
                    }
                }
                Err(e) => c.violate(&format!("{name} inv {}", short(w)), e),
            }
            c.evals(&format!("{name} unary"), 3);
            // all pairs in small fields, the larger elements against every third
            for j in 0..els.len() {
                if deg >= 6 && !c.thorough && (i + j) % (deg / 2) != 0 {
                    continue;
                }
                let (b, y) = (&els[j], &words[j]);
                let args: [&[U256]; 2] = [w, y];
                cmp(c, &format!("{name} add"), &args, &f.we(&f.map(a, b, |x, y| f.add2(x, y)), deg), || field.op(FieldOp::Add, w, y));
                cmp(c, &format!("{name} sub"), &args, &f.we(&f.map(a, b, |x, y| f.sub2(x, y)), deg), || field.op(FieldOp::Sub, w, y));
                cmp(c, &format!("{name} mul"), &args, &f.we(&f.emul(a, b), deg), || field.op(FieldOp::Mul, w, y));
                c.evals(&format!("{name} binary"), 3);
                c.transition(3);
                if !f.is_zero(b) && (i + j) % (2 * deg) == 0 {
                    match vc::catch(|| field.op(FieldOp::Div, w, y)) {
                        Ok(q) => {
                            if f.emul(&f.re(&q, deg), b) != *a {
                                c.violate(&format!("{name} div {} {}", short(w), short(y)), format!("{name}: {} / {} is not {}", short(w), short(y), short(&q)));
                            }
                        }
                        Err(e) => c.violate(&format!("{name} div {} {}", short(w), short(y)), e),
                    }
                    c.eval(&format!("{name} division"));
                }
            }
        });
    }
}

fn towers(c: &Check, f: &Ref) {
    let op = |o: TowerOp, a: &[U256], b: &[U256]| if f.bls { tower_bls(o, a, b) } else { tower_bn(o, a, b) };
    let name = if f.bls { "Bls" } else { "Bn" };
    let e1 = elements(f, 1, 0);
    let e2 = elements(f, 2, 6);
    let e6 = elements(f, 6, c.pick(12, 30));
    let e12 = elements(f, 12, c.pick(12, 30));
    // gamma is what it is said to be: z^(p^k) by plain powering
    let mut z = f.zero();
    z[1].0 = n(1);
    for k in 1..c.pick(3usize, 13) {
        let mut q = n(1);
        (0..k).for_each(|_| q *= &f.p);
        assert!(f.epow(&z, &q) == f.frob(&z, k), "the reference contradicts itself");
    }
    for a in &e2 {
        let w = f.we(a, 2);
        cmp(c, &format!("{name}2 conj"), &[&w], &f.w2(&f.conj2(&a[0])), || op(TowerOp::Conj2, &w, &[]));
        cmp(c, &format!("{name}2 mul_adj"), &[&w], &f.w2(&f.mul2(&a[0], &f.xi)), || op(TowerOp::MulAdj, &w, &[]));
        for b in &e1 {
            let y = f.we(b, 1);
            cmp(c, &format!("{name}2 scale"), &[&w, &y], &f.we(&f.emul(a, b), 2), || op(TowerOp::Scale2, &w, &y));
            c.eval(&format!("{name} tower, degree 2"));
        }
    }
    let sparse = |cs: &[(usize, &E)]| {
        let mut e = f.zero();
        for (i, x) in cs {
            e[*i] = x[0].clone();
        }
        e
    };
    let few2: Vec<&E> = e2.iter().step_by(c.pick(11, 4)).collect();
    e6.par_iter().enumerate().for_each(|(i, a)| {
        let w = f.we(a, 6);
        for k in 0..=12 {
            cmp(c, &format!("{name}6 frob {k}"), &[&w], &f.we(&f.frob(a, k), 6), || op(TowerOp::Frob6(k), &w, &[]));
        }
        c.evals(&format!("{name} tower, degree 6"), 13);
        for (j, b) in e2.iter().enumerate() {
            if !c.thorough && (i + j) % 5 != 0 {
                continue;
            }
            let y = f.we(b, 2);
            cmp(c, &format!("{name}6 scale"), &[&w, &y], &f.we(&f.emul(a, b), 6), || op(TowerOp::Scale6, &w, &y));
            cmp(c, &format!("{name}6 mul_by_1"), &[&w, &y], &f.we(&f.emul(a, &sparse(&[(2, b)])), 6), || op(TowerOp::Mul1, &w, &y));
            c.evals(&format!("{name} tower, degree 6"), 2);
        }
        for b in &few2 {
            for d in &few2 {
                let y = [f.we(b, 2), f.we(d, 2)].concat();
                cmp(c, &format!("{name}6 mul_by_01"), &[&w, &y], &f.we(&f.emul(a, &sparse(&[(0, b), (2, d)])), 6), || op(TowerOp::Mul01, &w, &y));
                c.eval(&format!("{name} tower, degree 6"));
            }
        }
    });
    e12.par_iter().enumerate().for_each(|(i, a)| {
        let w = f.we(a, 12);
        for k in 0..=13 {
            cmp(c, &format!("{name}12 frob {k}"), &[&w], &f.we(&f.frob(a, k), 12), || op(TowerOp::Frob12(k), &w, &[]));
        }
        cmp(c, &format!("{name}12 conj"), &[&w], &f.we(&f.frob(a, 6), 12), || op(TowerOp::Conj12, &w, &[]));
        c.evals(&format!("{name} tower, degree 12"), 15);
        for (j, b) in e6.iter().enumerate() {
            if (i + j) % c.pick(8, 2) == 0 {
                let y = f.we(b, 6);
                cmp(c, &format!("{name}12 scale"), &[&w, &y], &f.we(&f.emul(a, b), 12), || op(TowerOp::Scale12, &w, &y));
                c.eval(&format!("{name} tower, degree 12"));
            }
        }
        for (j, b) in few2.iter().enumerate() {
            for (k, d) in few2.iter().enumerate() {
                for (l, g) in few2.iter().enumerate() {
                    if (i + j + k + l) % c.pick(6, 3) != 0 {
                        continue;
                    }
                    let y = [f.we(b, 2), f.we(d, 2), f.we(g, 2)].concat();
                    cmp(c, &format!("{name}12 mul_by_014"), &[&w, &y], &f.we(&f.emul(a, &sparse(&[(0, b), (2, d), (3, g)])), 12), || op(TowerOp::Mul014, &w, &y));
                    c.eval(&format!("{name} tower, degree 12"));
                }
            }
        }
    });
}

// ------------------------------------------------------------------ curves

type P = Option<(Q, Q)>;
struct Group<'a> {
    f: &'a Ref,
    curve: Curve,
    b: Q,
    g: (Q, Q),
    deg: usize,
    order: BigUint,
}
impl Group<'_> {
    fn on(&self, p: &(Q, Q)) -> bool {
        let f = self.f;
        f.mul2(&p.1, &p.1) == f.add2(&f.mul2(&f.mul2(&p.0, &p.0), &p.0), &self.b)
    }
    fn add(&self, a: &P, b: &P) -> P {
        let f = self.f;
        let (Some((x1, y1)), Some((x2, y2))) = (a, b) else {
            return a.clone().or(b.clone());
        };
        let m = if x1 == x2 {
            if *y1 == f.neg2(y2) {
                return None;
            }
            let x = f.mul2(x1, x1);
            f.mul2(&f.add2(&f.add2(&x, &x), &x), &f.inv2(&f.add2(y1, y1)))
        } else {
            f.mul2(&f.sub2(y2, y1), &f.inv2(&f.sub2(x2, x1)))
        };
        let x = f.sub2(&f.mul2(&m, &m), &f.add2(x1, x2));
        let y = f.sub2(&f.mul2(&m, &f.sub2(x1, &x)), y1);
        Some((x, y))
    }
    fn neg(&self, a: &P) -> P {
        a.as_ref().map(|(x, y)| (x.clone(), self.f.neg2(y)))
    }
    fn mul(&self, a: &P, k: &BigUint) -> P {
        let mut r = None;
        for b in bits(k) {
            r = self.add(&r, &r);
            if b {
                r = self.add(&r, a);
            }
        }
        r
    }
    fn w(&self, a: &P) -> Vec<U256> {
        let z = || (n(0), n(0));
        let (x, y) = a.clone().unwrap_or((z(), z()));
        let q = |x: &Q| if self.deg == 1 { self.f.w(&x.0) } else { self.f.w2(x) };
        [q(&x), q(&y)].concat()
    }
    fn r(&self, v: &[U256]) -> P {
        if v.iter().all(|x| x.is_zero()) {
            return None;
        }
        let h = v.len() / 2;
        let q = |v: &[U256]| if self.deg == 1 { (self.f.r(v), n(0)) } else { self.f.r2(v) };
        Some((q(&v[..h]), q(&v[h..])))
    }
    fn points(&self, more: usize) -> Vec<P> {
        let g = Some(self.g.clone());
        let mut v: Vec<P> = (0..more as u64).map(|k| self.mul(&g, &n(k))).collect();
        for k in 1..more as u64 {
            v.push(self.mul(&g, &(&self.order - k)));
        }
        v.push(self.mul(&g, &(&self.order >> 1)));
        v.push(self.mul(&g, &((&self.order >> 1) + 1u8)));
        v.push(self.mul(&g, &(n(1) << 64)));
        // points of the curve outside the group too, where there are any
        let f = self.f;
        if self.deg == 1 && f.bls {
            let mut found = 0;
            for x in 0u64.. {
                let y2 = f.add(&n(x * x * x), &self.b.0);
                let y = y2.modpow(&((&f.p + 1u8) >> 2), &f.p);
                if f.mul(&y, &y) == y2 {
                    v.push(Some(((n(x), n(0)), (y, n(0)))));
                    found += 1;
                    if found == 4 {
                        break;
                    }
                }
            }
        }
        let mut out: Vec<P> = vec![];
        for p in v {
            if !out.contains(&p) {
                out.push(p);
            }
        }
        out
    }
}

fn groups<'a>(bn: &'a Ref, bls: &'a Ref) -> Vec<Group<'a>> {
    let rn = dec("21888242871839275222246405745257275088548364400416034343698204186575808495617");
    let rb = hex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001");
    let q = |x: u64| (n(x), n(0));
    let b2 = bn.mul2(&q(3), &bn.inv2(&bn.xi));
    vec![
        Group { f: bn, curve: Curve::Bn1, b: q(3), g: (q(1), q(2)), deg: 1, order: rn.clone() },
        Group {
            f: bn,
            curve: Curve::Bn2,
            b: b2,
            g: (
                (
                    dec("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
                    dec("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
                ),
                (
                    dec("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
                    dec("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
                ),
            ),
            deg: 2,
            order: rn,
        },
        Group {
            f: bls,
            curve: Curve::Bls1,
            b: q(4),
            g: (
                (hex("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"), n(0)),
                (hex("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"), n(0)),
            ),
            deg: 1,
            order: rb.clone(),
        },
        Group {
            f: bls,
            curve: Curve::Bls2,
            b: (n(4), n(4)),
            g: (
                (
                    hex("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
                    hex("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e"),
                ),
                (
                    hex("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
                    hex("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be"),
                ),
            ),
            deg: 2,
            order: rb,
        },
    ]
}
fn curves(c: &Check, gs: &[Group]) {
    for g in gs {
        assert!(g.on(&g.g) && g.mul(&Some(g.g.clone()), &g.order).is_none(), "the reference's generator is wrong");
        let name = format!("{:?}", g.curve);
        let ps = g.points(c.pick(6, 10));
        let ws: Vec<_> = ps.iter().map(|p| g.w(p)).collect();
        (0..ps.len()).into_par_iter().for_each(|i| {
            let (a, w) = (&ps[i], &ws[i]);
            c.state(&(&name, i));
            cmp(c, &format!("{name} neg"), &[w], &g.w(&g.neg(a)), || g.curve.neg(w));
            for (b, y) in ps.iter().zip(&ws) {
                cmp(c, &format!("{name} add"), &[w, y], &g.w(&g.add(a, b)), || g.curve.add(w, y));
                c.eval(&format!("{name} addition"));
                c.transition(1);
            }
            if g.f.bls {
                for k in [0i32, 1, -1, 2, -2, 3, 5, -7, 255, i32::MAX, i32::MIN] {
                    let m = g.mul(a, &n(k.unsigned_abs() as u64));
                    let m = if k < 0 { g.neg(&m) } else { m };
                    cmp(c, &format!("{name} mul {k}"), &[w], &g.w(&m), || if g.deg == 1 { bls1_mul(w, k) } else { bls2_mul(w, k) });
                    c.eval(&format!("{name} multiplication"));
                }
            }
        });
        if g.f.bls {
            let want = g.w(&Some(g.g.clone()));
            cmp(c, &format!("{name} generator"), &[], &want, || if g.deg == 1 { bls1_generator() } else { bls2_generator() });
        }
    }
}

/// Square roots, signs and compressed points.
fn bls(c: &Check, f: &Ref, g: &Group) {
    let half = &f.p >> 1;
    let root = |a: &BigUint| {
        let y = a.modpow(&((&f.p + 1u8) >> 2), &f.p);
        (f.mul(&y, &y) == *a).then_some(y)
    };
    let mut sc = f.scalars();
    sc.extend((0..60u64).map(n));
    sc.par_iter().for_each(|x| {
        for x in [x.clone(), f.mul(x, x), f.neg(&f.mul(x, x))] {
            let w = f.w(&x);
            let got = vc::catch(|| bls_sqrt(&w));
            let ok = match (&got, root(&x)) {
                (Ok(None), None) => true,
                (Ok(Some(r)), Some(_)) => {
                    let r = f.r(r);
                    r < f.p && f.mul(&r, &r) == x
                }
                _ => false,
            };
            if !ok {
                c.violate(&format!("sqrt {x:x}"), format!("square root of {x:x}: {got:?}"));
            }
            if vc::catch(|| bls_lexicographically_largest(&w)) != Ok(x > half) {
                c.violate(&format!("largest {x:x}"), format!("{x:x} against its negation"));
            }
            c.evals("roots and signs", 2);
        }
    });
    // every combination of flags on abscissas on and off the curve and the field
    let mut xs: Vec<BigUint> = (0..30u64).map(n).collect();
    xs.extend([&f.p - 1u8, f.p.clone(), &f.p + 1u8, &f.p + 2u8, (n(1) << 381) - 1u8, g.g.0 .0.clone()]);
    xs.extend(f.scalars());
    for p in g.points(4).into_iter().flatten() {
        xs.push(p.0 .0);
    }
    xs.sort();
    xs.dedup();
    for x in &xs {
        for flags in 0u8..8 {
            let mut b = [0u8; 48];
            let v = x.to_bytes_be();
            b[48 - v.len()..].copy_from_slice(&v);
            b[0] |= flags << 5;
            let (comp, inf, sort) = (flags & 4 != 0, flags & 2 != 0, flags & 1 != 0);
            let want: Option<P> = if !comp || x >= &f.p {
                None
            } else if inf {
                (!sort && *x == n(0)).then_some(None)
            } else {
                root(&f.add(&f.mul(&f.mul(x, x), x), &n(4))).map(|y| {
                    let y = if (y > half) == sort { y } else { f.neg(&y) };
                    Some(((x.clone(), n(0)), (y, n(0))))
                })
            };
            c.eval("compressed points");
            c.state(&("g1", b.to_vec()));
            let got = vc::catch(|| bls1_from_bytes(&b));
            let want = want.map(|p| g.w(&p));
            if got.as_ref() != Ok(&want) {
                c.violate(
                    &format!("g1_from_bytes {flags} {x:x}"),
                    format!("compressed point with flags {flags:03b} and x = {x:x}: want {:?}, got {:?}", want.map(|w| short(&w)), got.map(|g| g.map(|w| short(&w)))),
                );
            }
        }
    }
}

/// The pairing: lines through the multiples of the second point, evaluated in
/// the large field.
fn pairing(c: &Check, f: &Ref, g1: &Group, g2: &Group) {
    let u = 0xd201000000010000u64;
    // z^6 = xi; the twist (x, y) -> (x / z^2, y / z^3)
    let zi = f.inv2(&f.xi);
    let untwist = |p: &(Q, Q)| -> (E, E) {
        let (mut x, mut y) = (f.zero(), f.zero());
        // z^-2 = z^4 / xi, z^-3 = z^3 / xi
        x[4] = f.mul2(&p.0, &zi);
        y[3] = f.mul2(&p.1, &zi);
        (x, y)
    };
    let inv = |e: &E| f.re(&Field::Bls12.op(FieldOp::Inv, &f.we(e, 12), &[]), 12);
    let sub = |a: &E, b: &E| f.map(a, b, |x, y| f.sub2(x, y));
    let add = |a: &E, b: &E| f.map(a, b, |x, y| f.add2(x, y));
    let embed = |x: &BigUint| {
        let mut e = f.zero();
        e[0].0 = x.clone();
        e
    };
    let miller = |p: &(Q, Q), q: &(Q, Q)| -> E {
        let (px, py) = (embed(&p.0 .0), embed(&p.1 .0));
        let (qx, qy) = untwist(q);
        let (mut tx, mut ty) = (qx.clone(), qy.clone());
        let mut acc = f.one();
        // value at P of the line of this slope through (x, y)
        let line = |m: &E, x: &E, y: &E| sub(&sub(&py, y), &f.emul(m, &sub(&px, x)));
        for i in (0..63).rev() {
            let xx = f.emul(&tx, &tx);
            let m = f.emul(&add(&add(&xx, &xx), &xx), &inv(&add(&ty, &ty)));
            acc = f.emul(&f.emul(&acc, &acc), &line(&m, &tx, &ty));
            let x = sub(&f.emul(&m, &m), &add(&tx, &tx));
            ty = sub(&f.emul(&m, &sub(&tx, &x)), &ty);
            tx = x;
            if u >> i & 1 == 1 {
                let m = f.emul(&sub(&qy, &ty), &inv(&sub(&qx, &tx)));
                acc = f.emul(&acc, &line(&m, &tx, &ty));
                let x = sub(&f.emul(&m, &m), &add(&tx, &qx));
                ty = sub(&f.emul(&m, &sub(&tx, &x)), &ty);
                tx = x;
            }
        }
        // the parameter is negative
        f.frob(&acc, 6)
    };
    // (p^12 - 1) / r, three times as the code's chain of powers has it
    let p2 = &f.p * &f.p;
    let e: BigUint = (&p2 * &p2 - &p2 + 1u8) / &g1.order;
    let full = |a: &E| {
        // (p^6 - 1)(p^2 + 1) by Frobenius, the rest by powering
        let t = f.emul(&f.frob(a, 6), &inv(a));
        let t = f.emul(&f.frob(&t, 2), &t);
        f.epow(&t, &(&e * 3u8))
    };
    let mut cases = vec![];
    let ps = g1.points(3);
    let qs = g2.points(3);
    for (i, p) in ps.iter().enumerate() {
        for (j, q) in qs.iter().enumerate() {
            let small = i < 5 && j < 5;
            if c.thorough || small && (i + 2 * j) % 3 == 1 || i == 0 || i + 2 == ps.len() && j == 1 {
                cases.push((p.clone(), q.clone()));
            }
        }
    }
    cases.par_iter().for_each(|(p, q)| {
        let Some(qq) = q else { return };
        let (wp, wq) = (g1.w(p), g2.w(q));
        c.eval("pairings");
        c.state(&("pairing", &wp, &wq));
        let want = match p {
            Some(p) => full(&miller(p, qq)),
            None => f.one(),
        };
        cmp(c, "pairing", &[&wp, &wq], &f.we(&want, 12), || bls_pairing(&wp, &wq));
    });
    // final exponentiation on its own
    let els = elements(f, 12, 4);
    els.par_iter().skip(1).step_by(c.pick(20, 5)).for_each(|a| {
        if f.is_zero(a) {
            return;
        }
        let w = f.we(a, 12);
        cmp(c, "final exponent", &[&w], &f.we(&full(a), 12), || bls_final_exponent(&w));
        c.eval("final exponents");
    });
}

pub fn run() -> ! {
    let c = Check::new("C21", "model_check");
    let (fbn, fbls) = (Ref::new(false), Ref::new(true));
    let gs = groups(&fbn, &fbls);
    let only = std::env::var("VERIF_ONLY").unwrap_or_default();
    let timed = |n: &str, g: &dyn Fn()| {
        if only.is_empty() || only.contains(n) {
            let t = c.elapsed();
            g();
            eprintln!("{n}: {:.1} s", (c.elapsed() - t).as_secs_f64());
        }
    };
    timed("fields bn", &|| fields(&c, &fbn));
    timed("fields bls", &|| fields(&c, &fbls));
    timed("towers bn", &|| towers(&c, &fbn));
    timed("towers bls", &|| towers(&c, &fbls));
    timed("curves", &|| curves(&c, &gs));
    timed("roots", &|| bls(&c, &fbls, &gs[2]));
    timed("pairing", &|| pairing(&c, &fbls, &gs[2], &gs[3]));
    let thorough = c.thorough;
    c.finish(
        "every operation on every combination of the elements listed, compared with polynomials over big integers",
        json!({
            "coordinates": "about 60 boundary values of each base field",
            "elements": "all combinations of coordinates among four values in degree 2, all supports in degrees 6 and 12, every coordinate at the boundaries, dense elements",
            "pairs": if thorough { "all" } else { "all in degrees 1 and 2, a third in degree 6, a sixth in degree 12" },
            "Frobenius": "powers 0 to 13",
            "curves": "small and large multiples of the generators and their negations, points outside the group, all pairs",
            "compressed points": "all flags on about 100 abscissas",
        }),
        &["the inverse of zero is not specified"],
    )
}
