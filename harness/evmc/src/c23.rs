//! C23: the kernel's multi-limb routines against big integers, its hash
//! routines against independent implementations, on whole operand sets.
use evm_arithmetization::verif_hooks::vm::{self, Stop, Vm};
use vc::rayon::prelude::*;
use vc::{json, BigUint, Check, U256};

use crate::common::*;

const CTX: usize = 1;
const BASE: usize = 3;

/// A machine working in context 1, with a pattern in the general memory of
/// context 0 that no routine may touch.
fn with_m<T>(f: impl FnOnce(&mut Vm) -> T) -> T {
    thread_local! { static V: std::cell::RefCell<Option<Vm>> = const { std::cell::RefCell::new(None) }; }
    V.with(|v| {
        let mut v = v.borrow_mut();
        f(v.get_or_insert_with(|| {
            let mut m = Vm::new(0, vec![]);
            m.set_context(CTX);
            m
        }))
    })
}
fn sentinel(i: usize) -> U256 {
    (U256::from(0xabcd) << 240) + i
}
fn one128() -> BigUint {
    BigUint::from(1u8) << 128
}
fn to_int(l: &[u128]) -> BigUint {
    l.iter().rev().fold(BigUint::default(), |a, x| (a << 128) + *x)
}
fn to_limbs(mut x: BigUint, n: usize) -> Vec<U256> {
    let m = one128();
    let mut v = vec![];
    for _ in 0..n {
        let d = &x % &m;
        v.push(U256::from_dec_str(&d.to_string()).unwrap());
        x /= &m;
    }
    assert!(x == BigUint::default());
    v
}
fn lim(l: &[u128]) -> Vec<U256> {
    l.iter().map(|x| U256::from(*x)).collect()
}

/// Operands placed in the general memory with a sentinel before, between and
/// after them.
struct Lay {
    cells: Vec<U256>,
    at: Vec<usize>,
}
impl Lay {
    fn new() -> Self {
        Lay { cells: (0..BASE).map(sentinel).collect(), at: vec![] }
    }
    fn put(&mut self, v: &[U256]) -> usize {
        let p = self.cells.len();
        self.cells.extend(v);
        let s = sentinel(self.cells.len());
        self.cells.push(s);
        self.at.push(p);
        p
    }
    /// Several operands with no sentinel between them.
    fn put_consecutive(&mut self, n: usize, len: usize) -> Vec<usize> {
        let p = self.cells.len();
        self.cells.extend(vec![U256::zero(); n * len]);
        let s = sentinel(self.cells.len());
        self.cells.push(s);
        (0..n).map(|i| p + i * len).collect()
    }
}
/// What a routine must leave: the cells (None: anything) and the stack.
type Want = (Vec<Option<U256>>, Vec<U256>);

fn exec(ck: &Check, name: &str, key: &str, lay: &Lay, args: &[U256], want: &Want, max: usize) {
    let below = [sentinel(900), sentinel(901)];
    with_m(|m| {
        let g = seg("KernelGeneral");
        m.clear(CTX, g);
        m.clear(0, g);
        m.set_cells(CTX, g, &lay.cells);
        let mark: Vec<U256> = (0..lay.cells.len() + 8).map(|i| sentinel(500 + i)).collect();
        m.set_cells(0, g, &mark);
        let c0 = m.clock();
        let r = call(m, name, args, &below, max);
        ck.transition((m.clock() - c0) as u64);
        let k = |w: &str| format!("{name}:{w}:{key}");
        let d = |w: String| format!("{name} on {key}: {w}");
        match r {
            Err(e) => {
                ck.violate(&k("end"), d(e));
                m.set_context(CTX);
            }
            Ok(st) => {
                if st != want.1 {
                    ck.violate(&k("stack"), d(format!("left [{}] on the stack, expected [{}]", words(&st), words(&want.1))));
                }
                let got = m.cells(CTX, g);
                for i in 0..got.len().max(want.0.len()) {
                    let x = got.get(i).copied().flatten().unwrap_or_default();
                    let w = want.0.get(i).copied().unwrap_or(Some(U256::zero()));
                    if w.is_some_and(|w| w != x) {
                        ck.violate(&k("memory"), d(format!("cell {i} became {x:#x}, expected {:#x} (operands at {:?})", w.unwrap(), lay.at)));
                        break;
                    }
                }
                let other = m.cells(0, g);
                if other.iter().map(|x| x.unwrap_or_default()).ne(mark.iter().copied()) {
                    ck.violate(&k("context"), d("changed the general memory of another context".into()));
                }
            }
        }
        ck.state(&(name.to_string(), args.to_vec(), lay.cells.clone()));
    });
    ck.eval(name);
}
fn cells(l: &Lay) -> Vec<Option<U256>> {
    l.cells.iter().map(|x| Some(*x)).collect()
}
fn set(c: &mut [Option<U256>], at: usize, v: &[U256]) {
    for (i, x) in v.iter().enumerate() {
        c[at + i] = Some(*x);
    }
}
fn any(c: &mut [Option<U256>], at: usize, n: usize) {
    for x in &mut c[at..at + n] {
        *x = None;
    }
}
fn vectors(n: usize, alpha: &[u128]) -> Vec<Vec<u128>> {
    (0..n).fold(vec![vec![]], |acc, _| acc.into_iter().flat_map(|v| alpha.iter().map(move |a| [v.clone(), vec![*a]].concat())).collect())
}
fn show(l: &[&[u128]]) -> String {
    l.iter().map(|v| format!("[{}]", v.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(" ")
}
fn u(x: usize) -> U256 {
    x.into()
}

fn two(ck: &Check, n: usize, alpha: &[u128]) {
    let v = vectors(n, alpha);
    v.par_iter().for_each(|a| {
        for b in &v {
            if ck.stopped() {
                return;
            }
            let key = show(&[a, b]);
            let (x, y) = (to_int(a), to_int(b));
            {
                let mut l = Lay::new();
                let (pa, pb) = (l.put(&lim(a)), l.put(&lim(b)));
                let w = cells(&l);
                let r = match x.cmp(&y) {
                    std::cmp::Ordering::Less => U256::zero().overflowing_sub(U256::one()).0,
                    std::cmp::Ordering::Equal => U256::zero(),
                    std::cmp::Ordering::Greater => U256::one(),
                };
                exec(ck, "cmp_bignum", &key, &l, &[u(n), u(pa), u(pb)], &(w.clone(), vec![r]), 10_000);
                let mut w = w;
                let s = to_limbs(&x + &y, n + 1);
                set(&mut w, pa, &s[..n]);
                exec(ck, "add_bignum", &key, &l, &[u(n), u(pa), u(pb)], &(w, vec![s[n]]), 10_000);
            }
            {
                let mut l = Lay::new();
                let (pa, pb, po) = (l.put(&lim(a)), l.put(&lim(b)), l.put(&vec![U256::zero(); 2 * n]));
                let mut w = cells(&l);
                set(&mut w, po, &to_limbs(&x * &y, 2 * n));
                exec(ck, "mul_bignum", &key, &l, &[u(n), u(pa), u(pb), u(po)], &(w, vec![]), 100_000);
            }
        }
    });
}
fn addmul(ck: &Check, n: usize, alpha: &[u128], vals: &[u128]) {
    let v = vectors(n, alpha);
    v.par_iter().for_each(|a| {
        for b in &v {
            for c in vals {
                if ck.stopped() {
                    return;
                }
                let key = format!("{} {c:#x}", show(&[a, b]));
                let mut l = Lay::new();
                let (pa, pb) = (l.put(&lim(a)), l.put(&lim(b)));
                let mut w = cells(&l);
                let s = to_limbs(to_int(a) + to_int(b) * *c, n + 1);
                set(&mut w, pa, &s[..n]);
                exec(ck, "addmul_bignum", &key, &l, &[u(n), u(pa), u(pb), U256::from(*c)], &(w, vec![s[n]]), 10_000);
            }
        }
    });
}
fn single(ck: &Check, n: usize, alpha: &[u128]) {
    vectors(n, alpha).par_iter().for_each(|a| {
        let key = show(&[a]);
        let x = to_int(a);
        let mut l = Lay::new();
        let pa = l.put(&lim(a));
        let w = cells(&l);
        let b = |c: bool| vec![U256::from(c as u8)];
        exec(ck, "iszero_bignum", &key, &l, &[u(n), u(pa)], &(w.clone(), b(x == BigUint::default())), 10_000);
        exec(ck, "isone_bignum", &key, &l, &[u(n), u(pa)], &(w.clone(), b(x == BigUint::from(1u8))), 10_000);
        let mut w = w;
        set(&mut w, pa, &to_limbs(x >> 1, n));
        exec(ck, "shr_bignum", &key, &l, &[u(n), u(pa)], &(w, vec![]), 10_000);
    });
}
fn modmul(ck: &Check, n: usize, alpha: &[u128], mods: &[u128]) {
    let v = vectors(n, alpha);
    let ms = vectors(n, mods);
    v.par_iter().for_each(|a| {
        for b in &v {
            for m in ms.iter().filter(|m| n == 0 || m.iter().any(|x| *x != 0)) {
                if ck.stopped() {
                    return;
                }
                let key = show(&[a, b, m]);
                let mut l = Lay::new();
                let (pa, pb, pm, po) = (l.put(&lim(a)), l.put(&lim(b)), l.put(&lim(m)), l.put(&vec![sentinel(77); n]));
                // The last two must be consecutive.
                let s = [l.put(&vec![sentinel(78); 2 * n]), l.put(&vec![U256::zero(); 4 * n])];
                let s = [s[0], s[1], s[1] + 2 * n];
                let mut w = cells(&l);
                if n > 0 {
                    set(&mut w, po, &to_limbs(to_int(a) * to_int(b) % to_int(m), n));
                    s.iter().for_each(|p| any(&mut w, *p, 2 * n));
                }
                exec(ck, "modmul_bignum", &key, &l, &[u(n), u(pa), u(pb), u(pm), u(po), u(s[0]), u(s[1]), u(s[2])], &(w, vec![]), 100_000);
            }
        }
    });
}
fn modexp(ck: &Check, n: usize, bs: &[u128], es: &[Vec<u128>], ms: &[u128]) {
    let bv = vectors(n, bs);
    let mv = vectors(n, ms);
    let cases: Vec<_> = bv.iter().flat_map(|b| es.iter().flat_map(move |e| mv_pairs(b, e))).collect();
    fn mv_pairs<'a>(b: &'a [u128], e: &'a [u128]) -> Vec<(&'a [u128], &'a [u128])> {
        vec![(b, e)]
    }
    cases.par_iter().for_each(|(b, e)| {
        for m in &mv {
            if ck.stopped() {
                return;
            }
            let key = show(&[b, e, m]);
            let mut l = Lay::new();
            let (pb, pe, pm, po) = (l.put(&lim(b)), l.put(&lim(e)), l.put(&lim(m)), l.put(&vec![U256::zero(); n]));
            let s1 = l.put(&vec![sentinel(78); n]);
            let s = l.put_consecutive(4, 2 * n);
            let mut w = cells(&l);
            let mi = to_int(m);
            let r = if mi == BigUint::default() { mi.clone() } else { to_int(b).modpow(&to_int(e), &mi) };
            set(&mut w, po, &to_limbs(r, n));
            // the exponent is consumed, the scratch cells are left in any state
            any(&mut w, pe, n);
            any(&mut w, s1, n);
            any(&mut w, s[0], 8 * n);
            exec(ck, "modexp_bignum", &key, &l, &[u(n), u(pb), u(pe), u(pm), u(po), u(s1), u(s[0]), u(s[1]), u(s[2]), u(s[3])], &(w, vec![]), 20_000_000);
        }
    });
}

// ---------------------------------------------------------------- hashes

fn message(len: usize, kind: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => (0..len).map(|i| (i * 7 + 1) as u8).collect(),
        // one non-zero byte, the last
        _ => (0..len).map(|i| if i + 1 == len { 0x80 } else { 0 }).collect(),
    }
}
fn hash(ck: &Check, name: &str, len: usize, kind: usize) {
    let msg = message(len, kind);
    let by: Vec<U256> = msg.iter().map(|b| U256::from(*b)).collect();
    let key = format!("{len} bytes of pattern {kind}");
    with_m(|m| {
        let g = seg("KernelGeneral");
        m.clear(CTX, g);
        let below = [sentinel(1), sentinel(2)];
        let c0 = m.clock();
        let (want, r) = match name {
            "sha2" => {
                use sha2::Digest;
                m.set_cells(CTX, g, &[&[U256::zero()], &by[..]].concat());
                (U256::from_big_endian(&sha2::Sha256::digest(&msg)), call(m, "sha2", &[u(0), u(len)], &below, 10_000_000))
            }
            "ripemd" => {
                use ripemd::Digest;
                m.set_cells(CTX, g, &[&vec![U256::zero(); 200], &by[..]].concat());
                (U256::from_big_endian(&ripemd::Ripemd160::digest(&msg)), call(m, "ripemd", &[u(200), u(len)], &below, 10_000_000))
            }
            _ => {
                // the instruction itself, which the kernel uses for all else
                m.set_cells(CTX, g, &by);
                let a = (U256::from(CTX) << 64) + (U256::from(seg("KernelGeneral")) << 32);
                let mut st = below.to_vec();
                st.extend([u(len), a]);
                m.set_stack(&st);
                let pc = vm::kernel_code().iter().position(|b| *b == 0x21).unwrap();
                m.set_pc(pc);
                m.set_kernel(true);
                let r = m.step().map(|_| {
                    let mut s = m.stack()[2..].to_vec();
                    s.reverse();
                    s
                });
                (U256::from_big_endian(vc::keccak(&msg).as_bytes()), r)
            }
        };
        ck.transition((m.clock() - c0) as u64);
        match r {
            Err(e) => {
                ck.violate(&format!("{name}:end:{key}"), format!("{name} of {key}: {e}"));
                m.set_context(CTX);
            }
            Ok(st) if st != [want] => ck.violate(&format!("{name}:{key}"), format!("{name} of {key}: left [{}], expected {want:#x}", words(&st))),
            _ => {}
        }
        ck.state(&(name.to_string(), msg));
    });
    ck.eval(name);
}

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b,
    0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
/// The compression function F of RFC 7693.
pub fn blake2_f(rounds: u32, h: [u64; 8], m: [u64; 16], t: [u64; 2], last: bool) -> [u64; 8] {
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(&h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t[0];
    v[13] ^= t[1];
    if last {
        v[14] = !v[14];
    }
    let mut g = |v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    };
    for r in 0..rounds as usize {
        let s = &SIGMA[r % 10];
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    std::array::from_fn(|i| h[i] ^ v[i] ^ v[i + 8])
}
fn blake(ck: &Check, rounds: u32, kind: u64, t: [u64; 2], last: bool) {
    let w = |i: u64| match kind {
        0 => 0,
        1 => u64::MAX,
        2 => 0x0123456789abcdefu64.wrapping_mul(2 * i + 1),
        3 => 1 << i,
        _ => (1u64 << 63) >> i,
    };
    let h: [u64; 8] = std::array::from_fn(|i| w(i as u64) ^ if kind == 2 { IV[i] } else { 0 });
    let msg: [u64; 16] = std::array::from_fn(|i| w(8 + i as u64));
    let key = format!("{rounds} rounds, words of pattern {kind}, t = {:#x},{:#x}, last = {last}", t[0], t[1]);
    let want: Vec<U256> = blake2_f(rounds, h, msg, t, last).iter().map(|x| U256::from(*x)).collect();
    with_m(|m| {
        m.clear(CTX, seg("KernelGeneral"));
        let mut args = vec![U256::from(rounds)];
        args.extend(h.iter().map(|x| U256::from(*x)));
        args.extend(msg.iter().map(|x| U256::from(*x)));
        args.extend([t[0].into(), t[1].into(), U256::from(last as u8)]);
        let c0 = m.clock();
        let r = call(m, "blake2_f", &args, &[sentinel(1)], 10_000_000);
        ck.transition((m.clock() - c0) as u64);
        match r {
            Err(e) => {
                ck.violate(&format!("blake2_f:end:{key}"), format!("blake2_f on {key}: {e}"));
                m.set_context(CTX);
            }
            Ok(st) if st != want => ck.violate(&format!("blake2_f:{key}"), format!("blake2_f on {key}: left [{}], expected [{}]", words(&st), words(&want))),
            _ => {}
        }
        ck.state(&("blake2_f", args));
    });
    ck.eval("blake2_f");
}

pub fn run() -> ! {
    let ck = Check::new("C23", "model_check");
    let _ = Stop::OutOfSteps;
    let top = u128::MAX;
    let a3 = [0u128, 1, 2, 1 << 64, 1 << 127, top - 1, top];
    let a2: Vec<u128> = ck.pick(vec![0, 1, 1 << 127, top], vec![0, 1, 2, 1 << 64, 1 << 127, top - 1, top]);
    let a1 = [0u128, 1, top];

    for n in 0..=4 {
        if n > 0 {
            single(&ck, n, if n <= 3 { &a3 } else { &a2 });
        }
    }
    two(&ck, 0, &a3);
    two(&ck, 1, &a3);
    two(&ck, 2, &a3);
    two(&ck, 3, ck.pick(&a1[..], &[0, 1, 1 << 127, top]));
    if ck.thorough {
        two(&ck, 4, &a1);
    }
    addmul(&ck, 0, &a3, &[0, 5]);
    addmul(&ck, 1, &a3, &a3);
    addmul(&ck, 2, &a2, &a2);
    addmul(&ck, 3, &a1, &[0, 1, 1 << 64, top]);
    let mm = [1u128, 2, 3, 7, 1 << 64, (1 << 127) - 1, 1 << 127, top - 1, top];
    modmul(&ck, 0, &a3, &mm);
    modmul(&ck, 1, &a3, &mm);
    modmul(&ck, 2, &a2, ck.pick(&[0, 1, 3, top][..], &[0, 1, 2, 3, 1 << 127, top - 1, top]));
    modmul(&ck, 3, &[0, top], &[0, 1, top]);
    let t1 = std::time::Instant::now();
    let e1: Vec<Vec<u128>> = [0u128, 1, 2, 3, 5, 1 << 16, ck.pick((1 << 20) + 1, (1 << 127) + 1), ck.pick((1 << 33) - 1, top)].iter().map(|x| vec![*x]).collect();
    modexp(&ck, 0, &[], &[vec![]], &[]);
    modexp(&ck, 1, &a3, &e1, &[0, 1, 2, 3, 1 << 64, top - 1, top]);
    let e2: Vec<Vec<u128>> = [[0u128, 0], [1, 0], [2, 0], [3, 0], [4, 0], [7, 0]].iter().map(|x| x.to_vec()).chain(ck.pick(vec![], vec![vec![1, 1], vec![0, 1], vec![top, 0], vec![0, 3], vec![top, 1]])).collect();
    modexp(&ck, 2, ck.pick(&a1[..], &[0, 1, 2, 1 << 127, top]), &e2, ck.pick(&[0, 1, top][..], &[0, 1, 2, 3, 1 << 127, top]));
    // an exponent whose low limb is zero
    modexp(&ck, 2, &[0, 3], &[vec![0, 1]], &[1, top]);
    modexp(&ck, 3, &[0, top], &[vec![0, 0, 0], vec![1, 0, 0], vec![6, 0, 0]], &[0, 1, top]);
    ck.note("modexp seconds", json!(t1.elapsed().as_secs_f64()));

    let lens: Vec<usize> = (0..=ck.pick(200, 600)).collect();
    lens.par_iter().for_each(|l| {
        for k in 0..ck.pick(3, 4) {
            for n in ["sha2", "ripemd"] {
                if ck.stopped() {
                    return;
                }
                hash(&ck, n, *l, k);
            }
        }
        for k in 0..4 {
            hash(&ck, "keccak_general", *l, k);
            hash(&ck, "keccak_general", 200 + *l, k);
        }
    });
    let ts = [[0u64, 0], [1, 0], [u64::MAX, 1], [0, u64::MAX], [u64::MAX, u64::MAX]];
    (0..ck.pick(26u32, 60)).into_par_iter().for_each(|r| {
        for k in 0..5 {
            for t in if r < 13 { &ts[..] } else { &ts[..2] } {
                for last in [false, true] {
                    blake(&ck, r, k, *t, last);
                }
            }
        }
    });
    let b = json!({"limbs": "vectors of 0 to 3 (4 in part) 128-bit limbs over 0, 1, 2, 2^64, 2^127, 2^128-2, 2^128-1 (fewer of them for longer vectors)",
        "exponents": "up to 2^33-1 and 2^128 (thorough: up to 2^256)", "hash lengths": format!("0 to {} bytes", lens.len() - 1), "blake2 rounds": ck.pick(25, 59)});
    ck.finish(
        "each routine is run in the real kernel on every combination of operands; the result, the return stack and every cell of memory (sentinels around each operand, the same segment of another context) are compared with big-integer arithmetic or an independent hash",
        b,
        &["operands are placed as the routines' comments require (zeroed scratch cells)"],
    )
}
