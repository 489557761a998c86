//! C24: what the circuits that aggregate proofs ask of public values. The
//! circuits are the real ones, over a circuit that stands for the proof of a
//! segment; every set of public values is one honest set with some elements
//! altered, and the circuit has to accept it exactly if the rules do.
use std::collections::{BTreeMap, BTreeSet};

use evm_arithmetization::fixed_recursive_verifier::{ProofWithPublicValues, ProverOutputData};
use evm_arithmetization::proof::{FinalPublicValues, PublicValues};
use evm_arithmetization::verif_hooks::circuits::{
    self as ci, Join, Joins, Link, LinkCircuit, Stage, PV_SIZE,
};
use plonky2::field::extension::quadratic::QuadraticExtension;
use plonky2::field::extension::Extendable;
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::types::{Field, Field64, PrimeField64};
use plonky2::hash::hash_types::{HashOut, RichField};
use plonky2::hash::hashing::{compress, hash_n_to_hash_no_pad, PlonkyPermutation};
use plonky2::hash::poseidon::PoseidonHash;
use plonky2::iop::target::{BoolTarget, Target};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::config::{AlgebraicHasher, GenericConfig, Hasher};
use vc::rayon::prelude::*;
use vc::{json, Check};

type F = GoldilocksField;

// ---- a hash which depends on no more than the last 16 elements, so that a
// proof stays valid when the public values before them change

const K1: u64 = 0x9e37_79b9_7f4a_7c15;
const K2: u64 = 0xd1b5_4a32_d192_ed03;

#[derive(Copy, Clone, Debug, Default, PartialEq)]
struct State<T>([T; 12]);
impl<T: Eq> Eq for State<T> {}
impl<T> AsRef<[T]> for State<T> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}

trait Step: Sized {
    fn step(s: [Self; 12]) -> [Self; 12];
}
impl Step for F {
    fn step(s: [F; 12]) -> [F; 12] {
        let (k1, k2) = (F::from_noncanonical_u64(K1), F::from_noncanonical_u64(K2));
        let sum = s[..8].chunks(2).fold(F::ONE, |a, x| k1 * a * x[0] + x[1]);
        let mut n = s;
        for i in [0, 4, 5, 6, 7] {
            n[i] = k2 * sum + s[i];
        }
        n[0] += s[8];
        n[8] = sum;
        n[9..].fill(F::ZERO);
        n
    }
}
impl Step for Target {
    fn step(_: [Target; 12]) -> [Target; 12] {
        panic!("targets are permuted by a circuit")
    }
}

impl<T: Copy + std::fmt::Debug + Default + Eq + Step + Send + Sync> PlonkyPermutation<T>
    for State<T>
{
    const RATE: usize = 8;
    const WIDTH: usize = 12;
    fn new<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut s = Self([T::default(); 12]);
        s.set_from_iter(i, 0);
        s
    }
    fn set_elt(&mut self, e: T, i: usize) {
        self.0[i] = e;
    }
    fn set_from_slice(&mut self, e: &[T], i: usize) {
        self.0[i..i + e.len()].copy_from_slice(e);
    }
    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, e: I, i: usize) {
        for (s, e) in self.0[i..].iter_mut().zip(e) {
            *s = e;
        }
    }
    fn permute(&mut self) {
        self.0 = T::step(self.0);
    }
    fn squeeze(&self) -> &[T] {
        &self.0[..8]
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
struct Weak;
impl Hasher<F> for Weak {
    const HASH_SIZE: usize = 32;
    type Hash = HashOut<F>;
    type Permutation = State<F>;
    fn hash_no_pad(x: &[F]) -> HashOut<F> {
        hash_n_to_hash_no_pad::<F, State<F>>(x)
    }
    fn two_to_one(l: HashOut<F>, r: HashOut<F>) -> HashOut<F> {
        compress::<F, State<F>>(l, r)
    }
}
impl AlgebraicHasher<F> for Weak {
    type AlgebraicPermutation = State<Target>;
    fn permute_swapped<const D: usize>(
        inputs: State<Target>,
        swap: BoolTarget,
        b: &mut CircuitBuilder<F, D>,
    ) -> State<Target>
    where
        F: RichField + Extendable<D>,
    {
        let mut s = inputs.0;
        if b._false() != swap {
            for i in 0..4 {
                let (x, y) = (s[i], s[i + 4]);
                let d = b.sub(y, x);
                s[i] = b.mul_add(swap.target, d, x);
                s[i + 4] = b.arithmetic(F::NEG_ONE, F::ONE, swap.target, d, y);
            }
        }
        let (k1, k2) = (F::from_noncanonical_u64(K1), F::from_noncanonical_u64(K2));
        let one = b.one();
        let sum = s[..8]
            .chunks(2)
            .fold(one, |a, x| b.arithmetic(k1, F::ONE, a, x[0], x[1]));
        let mut n = s;
        for i in [0, 4, 5, 6, 7] {
            n[i] = b.arithmetic(k2, F::ONE, sum, one, s[i]);
        }
        n[0] = b.add(n[0], s[8]);
        n[8] = sum;
        n[9..].fill(b.zero());
        State(n)
    }
}

#[derive(Debug, Copy, Clone, Default, Eq, PartialEq)]
struct Config;
impl GenericConfig<2> for Config {
    type F = F;
    type FE = QuadraticExtension<F>;
    type Hasher = Weak;
    type InnerHasher = Weak;
}

fn weak(x: &[F]) -> Vec<F> {
    <Weak as Hasher<F>>::hash_no_pad(x).elements.to_vec()
}

// ---- the public values

fn f(x: u64) -> F {
    F::from_canonical_u64(x)
}
fn u(x: F) -> u64 {
    x.to_canonical_u64()
}

const BEFORE: usize = 0;
const AFTER: usize = 24;
const META: usize = 48;
const HASHES: usize = META + 97;
const CUR: usize = HASHES + 2048;
const EXTRA: usize = CUR + 8;
const REGS_BEFORE: usize = EXTRA + 16;
const REGS_AFTER: usize = REGS_BEFORE + 13;
const MEM_BEFORE: usize = REGS_AFTER + 13;
const MEM_AFTER: usize = MEM_BEFORE + 64;
const END: usize = MEM_AFTER + 64;
const TIMESTAMP: usize = META + 5;
const NUMBER: usize = META + 6;
const CHAIN_ID: usize = META + 17;
const GAS_USED: usize = META + 20;
const CHECKPOINT: usize = EXTRA;
const CONSOLIDATED: usize = EXTRA + 8;
const TXN: usize = EXTRA + 12;
const GAS: usize = EXTRA + 14;
const FINAL: usize = 25;

fn name(i: usize) -> String {
    for (o, n) in [
        (END, "key"),
        (MEM_AFTER, "memory after"),
        (MEM_BEFORE, "memory before"),
        (REGS_AFTER, "registers after"),
        (REGS_BEFORE, "registers before"),
        (GAS, "gas used"),
        (TXN, "transaction number"),
        (CONSOLIDATED, "consolidated hash"),
        (EXTRA, "checkpoint root"),
        (CUR, "block hash"),
        (HASHES, "previous hashes"),
        (META, "metadata"),
        (AFTER, "roots after"),
        (BEFORE, "roots before"),
    ] {
        if i >= o {
            return format!("{n} {}", i - o);
        }
    }
    unreachable!()
}

/// The place that has to be the same as this one, in the neighbour.
fn twin(i: usize) -> Option<usize> {
    Some(match i {
        _ if i < AFTER => i + AFTER,
        _ if i < META => i - AFTER,
        _ if (HASHES + 8..EXTRA).contains(&i) => i - 8,
        TXN | GAS => i + 1,
        _ if i == TXN + 1 || i == GAS + 1 => i - 1,
        _ if (REGS_BEFORE..REGS_AFTER).contains(&i) => i + 13,
        _ if (REGS_AFTER..MEM_BEFORE).contains(&i) => i - 13,
        _ if (MEM_BEFORE..MEM_AFTER).contains(&i) => i + 64,
        _ if (MEM_AFTER..END).contains(&i) => i - 64,
        _ => return None,
    })
}

/// What is fixed for all rules.
struct Fixed {
    memory: Vec<F>,
    main: F,
    halt: F,
    empty: Vec<F>,
    keys: BTreeMap<Stage, Vec<F>>,
    hash: fn(&[F]) -> Vec<F>,
}

fn first_last(x: &Fixed, p: &[F]) -> bool {
    let (b, a) = (&p[REGS_BEFORE..REGS_AFTER], &p[REGS_AFTER..MEM_BEFORE]);
    // Registers: program counter, mode, depth and top of the stack, context, gas.
    b[0] == x.main
        && b[1] == F::ONE
        && b[2] == F::ZERO
        && b[11] == F::ZERO
        && b[12] == F::ZERO
        && a[0] == x.halt
        && a[1] == F::ONE
        && a[2] == F::ZERO
        && a[11] == F::ZERO
        && p[MEM_BEFORE..MEM_AFTER] == x.memory[..]
}

fn last_hashes(p: &[F]) -> &[F] {
    &p[HASHES + 8..EXTRA]
}

fn final_values(x: &Fixed, p: &[F]) -> Vec<F> {
    let mut r = vec![p[CHAIN_ID]];
    r.extend(&p[BEFORE..BEFORE + 8]);
    r.extend(&p[AFTER..AFTER + 8]);
    r.extend(&p[CONSOLIDATED..CONSOLIDATED + 4]);
    r.extend((x.hash)(last_hashes(p)));
    r
}

/// What a block and its parent have in common.
fn between(x: &Fixed, has_parent: bool, p: &[F], a: &[F]) -> Result<(), &'static str> {
    let no = |ok: bool, why: &'static str| if ok { Ok(()) } else { Err(why) };
    let same = |a: &[F], b: &[F], from: usize, to: usize| a[from..to] == b[from..to];
    no(
        p[AFTER..AFTER + 8] == a[BEFORE..BEFORE + 8],
        "roots between",
    )?;
    no(same(p, a, CHECKPOINT, CHECKPOINT + 8), "checkpoint")?;
    no(p[NUMBER] + F::ONE == a[NUMBER], "number")?;
    no(last_hashes(p) == &a[HASHES..CUR], "hashes")?;
    no(a[TXN] == F::ZERO && a[GAS] == F::ZERO, "first counts")?;
    no(
        a[BEFORE + 8..AFTER] == [&x.empty[..], &x.empty].concat()[..],
        "first tries",
    )?;
    no(a[GAS + 1] == a[GAS_USED], "gas used")?;
    if has_parent {
        no(p[CHAIN_ID] == a[CHAIN_ID], "chain id")?;
        no(same(p, a, CONSOLIDATED, TXN), "checkpoint's hash")?;
    } else {
        no(
            a[BEFORE..BEFORE + 8] == a[CHECKPOINT..CHECKPOINT + 8],
            "first root",
        )?;
        no(
            a[CONSOLIDATED..TXN] == (x.hash)(&a[HASHES..CUR])[..],
            "first hash",
        )?;
    }
    Ok(())
}

/// The rules.
fn rule(x: &Fixed, s: Stage, j: &Join) -> Result<(), &'static str> {
    let no = |ok: bool, why: &'static str| if ok { Ok(()) } else { Err(why) };
    let c = &j.children;
    let o = &j.out;
    let same = |a: &[F], b: &[F], from: usize, to: usize| a[from..to] == b[from..to];
    // The key with which a child was made.
    let key = |i: usize, stage: Stage| {
        no(
            c[i][c[i].len() - 68..] == x.keys[&stage][..],
            "key of a child",
        )
    };
    match s {
        Stage::Root => unreachable!(),
        Stage::Segments => {
            let (l, r) = (&c[0], &c[1]);
            let dummy = j.flags[2];
            if j.flags[0] {
                key(0, s)?;
            }
            if j.flags[1] {
                key(1, s)?;
            }
            no(!(dummy && j.flags[0]), "an aggregation alone")?;
            no(same(o, l, 0, REGS_AFTER), "result and left")?;
            no(same(o, l, MEM_BEFORE, MEM_AFTER), "first memory")?;
            let last = if dummy { l } else { r };
            no(same(o, last, REGS_AFTER, MEM_BEFORE), "last registers")?;
            no(same(o, last, MEM_AFTER, END), "last memory")?;
            if !dummy {
                no(same(l, r, 0, REGS_BEFORE), "left and right")?;
                no(
                    l[REGS_AFTER..MEM_BEFORE] == r[REGS_BEFORE..REGS_AFTER],
                    "registers between",
                )?;
                no(
                    l[MEM_AFTER..END] == r[MEM_BEFORE..MEM_AFTER],
                    "memory between",
                )?;
            }
        }
        Stage::Batches => {
            let (l, r) = (&c[0], &c[1]);
            key(0, if j.flags[0] { s } else { Stage::Segments })?;
            key(1, if j.flags[1] { s } else { Stage::Segments })?;
            no(
                same(o, l, BEFORE, AFTER) && same(o, r, AFTER, META),
                "roots",
            )?;
            no(l[AFTER..META] == r[BEFORE..AFTER], "roots between")?;
            // Metadata, hashes, checkpoint.
            no(same(o, l, META, TXN) && same(o, r, META, TXN), "block")?;
            for k in [TXN, GAS] {
                no(
                    o[k] == l[k] && l[k + 1] == r[k] && r[k + 1] == o[k + 1],
                    "counts",
                )?;
            }
            no(same(o, l, REGS_BEFORE, REGS_AFTER), "first registers")?;
            no(same(o, r, REGS_AFTER, MEM_BEFORE), "last registers")?;
            no(first_last(x, l) && first_last(x, r), "start and end")?;
        }
        Stage::Block => {
            let (p, a) = (&c[0], &c[1]);
            key(1, Stage::Batches)?;
            no(
                same(o, p, BEFORE, AFTER) && same(o, a, AFTER, REGS_BEFORE),
                "result",
            )?;
            let d = u(a[TIMESTAMP] - p[TIMESTAMP]);
            no(d < 1 << 32, "time")?;
            if j.flags[0] {
                key(0, s)?;
            }
            between(x, j.flags[0], p, a)?;
        }
        Stage::Wrapper => {
            let p = &c[0];
            key(0, Stage::Block)?;
            no(
                p[BEFORE..BEFORE + 8] == p[CHECKPOINT..CHECKPOINT + 8],
                "checkpoint",
            )?;
            no(o[..FINAL] == final_values(x, p)[..], "result")?;
        }
        Stage::Pair => {
            let mut m = vec![];
            for i in 0..2 {
                if j.flags[i] {
                    key(i, s)?;
                    m.extend(&c[i][..4]);
                } else {
                    m.extend((x.hash)(&c[i][..FINAL]));
                }
            }
            no(o[..4] == (x.hash)(&m)[..], "result")?;
            no(o[4..FINAL].iter().all(|&v| v == F::ZERO), "padding")?;
        }
    }
    Ok(())
}

/// Public values without relations, none of them twice.
fn fresh(salt: u64) -> Vec<F> {
    (0..END as u64)
        .map(|i| f(1_000_000 * salt + 7 * i + 3))
        .collect()
}

fn with_key(x: &Fixed, mut v: Vec<F>, s: Stage) -> Vec<F> {
    v.extend(&x.keys[&s]);
    v
}

/// A block without and with a parent.
fn blocks(x: &Fixed, times: &[u64]) -> Vec<Join> {
    let mut r = vec![];
    let put = |v: &mut Vec<F>, at: usize, w: &[F]| v[at..at + w.len()].copy_from_slice(w);
    let key = |v: Vec<F>, s: Stage| {
        if x.keys.is_empty() {
            v
        } else {
            with_key(x, v, s)
        }
    };
    for has_parent in [false, true] {
        // Times: the same, the most later, and something between.
        for &later in times {
            let p = fresh(5);
            let mut a = fresh(6);
            put(&mut a, BEFORE, &p[AFTER..AFTER + 8]);
            put(&mut a, BEFORE + 8, &x.empty);
            put(&mut a, BEFORE + 16, &x.empty);
            put(&mut a, CHECKPOINT, &p[CHECKPOINT..CHECKPOINT + 8]);
            a[TIMESTAMP] = p[TIMESTAMP] + f(later);
            a[NUMBER] = p[NUMBER] + F::ONE;
            a[CHAIN_ID] = p[CHAIN_ID];
            put(&mut a, HASHES, &last_hashes(&p).to_vec());
            a[TXN] = F::ZERO;
            a[GAS] = F::ZERO;
            a[GAS_USED] = a[GAS + 1];
            let mut p = p;
            if has_parent {
                put(&mut a, CONSOLIDATED, &p[CONSOLIDATED..TXN]);
            } else {
                let root = a[BEFORE..BEFORE + 8].to_vec();
                put(&mut a, CHECKPOINT, &root);
                put(&mut p, CHECKPOINT, &root);
                let h = (x.hash)(&a[HASHES..CUR]);
                put(&mut a, CONSOLIDATED, &h);
            }
            let mut o = a.clone();
            put(&mut o, BEFORE, &p[BEFORE..AFTER]);
            r.push(Join {
                flags: vec![has_parent],
                children: vec![key(p, Stage::Block), key(a, Stage::Batches)],
                out: o,
            });
        }
    }
    r
}

/// Honest cases of a stage.
fn honest(x: &Fixed, s: Stage) -> Vec<Join> {
    let mut r = vec![];
    let put = |v: &mut Vec<F>, at: usize, w: &[F]| v[at..at + w.len()].copy_from_slice(w);
    match s {
        Stage::Root => {}
        Stage::Segments => {
            for flags in [[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 0, 1]] {
                let flags: Vec<bool> = flags.iter().map(|&b| b == 1).collect();
                let l = fresh(1);
                let mut r2 = fresh(2);
                let mut o = l.clone();
                if !flags[2] {
                    put(&mut r2, 0, &l[..REGS_BEFORE]);
                    put(&mut r2, REGS_BEFORE, &l[REGS_AFTER..MEM_BEFORE]);
                    put(&mut r2, MEM_BEFORE, &l[MEM_AFTER..END]);
                    put(&mut o, REGS_AFTER, &r2[REGS_AFTER..MEM_BEFORE]);
                    put(&mut o, MEM_AFTER, &r2[MEM_AFTER..END]);
                }
                let k = |b: bool| if b { s } else { Stage::Root };
                r.push(Join {
                    children: vec![with_key(x, l, k(flags[0])), with_key(x, r2, k(flags[1]))],
                    flags,
                    out: o,
                });
            }
        }
        Stage::Batches => {
            for flags in 0..4 {
                let flags = vec![flags & 1 != 0, flags & 2 != 0];
                let mut l = fresh(3);
                let mut r2 = fresh(4);
                put(&mut r2, BEFORE, &l[AFTER..META]);
                put(&mut r2, META, &l[META..TXN]);
                for k in [TXN, GAS] {
                    r2[k] = l[k + 1];
                }
                for v in [&mut l, &mut r2] {
                    for at in [REGS_BEFORE, REGS_AFTER] {
                        v[at] = if at == REGS_BEFORE { x.main } else { x.halt };
                        v[at + 1] = F::ONE;
                        v[at + 2] = F::ZERO;
                        v[at + 11] = F::ZERO;
                    }
                    v[REGS_BEFORE + 12] = F::ZERO;
                    put(v, MEM_BEFORE, &x.memory);
                }
                let mut o = l.clone();
                put(&mut o, AFTER, &r2[AFTER..META]);
                o[TXN + 1] = r2[TXN + 1];
                o[GAS + 1] = r2[GAS + 1];
                put(&mut o, REGS_AFTER, &r2[REGS_AFTER..MEM_BEFORE]);
                put(&mut o, MEM_AFTER, &r2[MEM_AFTER..]);
                let k = |b: bool| if b { s } else { Stage::Segments };
                r.push(Join {
                    children: vec![with_key(x, l, k(flags[0])), with_key(x, r2, k(flags[1]))],
                    flags,
                    out: o,
                });
            }
        }
        Stage::Block => {
            r = blocks(x, &[0, 5, u32::MAX as u64]);
        }
        Stage::Wrapper => {
            let mut p = fresh(7);
            let root = p[BEFORE..BEFORE + 8].to_vec();
            put(&mut p, CHECKPOINT, &root);
            r.push(Join {
                flags: vec![],
                out: final_values(x, &p),
                children: vec![with_key(x, p, Stage::Block)],
            });
        }
        Stage::Pair => {
            for flags in 0..4 {
                let flags = vec![flags & 1 != 0, flags & 2 != 0];
                let mut children = vec![];
                let mut m = vec![];
                for (i, &agg) in flags.iter().enumerate() {
                    let mut v = fresh(8 + i as u64)[..FINAL].to_vec();
                    if agg {
                        v[4..].fill(F::ZERO);
                        m.extend(&v[..4]);
                    } else {
                        m.extend((x.hash)(&v));
                    }
                    children.push(with_key(x, v, if agg { s } else { Stage::Wrapper }));
                }
                let mut out = (x.hash)(&m);
                out.resize(FINAL, F::ZERO);
                r.push(Join {
                    flags,
                    children,
                    out,
                });
            }
        }
    }
    r
}

/// Alterations of one place: (set, place), the sets being the children and
/// then the result.
fn alterations(j: &Join, i: usize, thorough: bool) -> Vec<Vec<(usize, usize)>> {
    let n = j.children.len();
    let body = |s: usize| {
        if s == n {
            j.out.len()
        } else {
            j.children[s].len() - 68
        }
    };
    let mut all = vec![];
    for s in 0..=n {
        for p in [Some(i), if body(s) > FINAL { twin(i) } else { None }]
            .into_iter()
            .flatten()
        {
            if p < body(s) {
                all.push((s, p));
            }
        }
    }
    let mut r = BTreeSet::new();
    for m in 1u32..1 << all.len() {
        let sets: BTreeSet<usize> = (0..all.len())
            .filter(|b| m >> b & 1 != 0)
            .map(|b| all[b].0)
            .collect();
        if thorough || m.count_ones() <= 2 || (m.count_ones() == 3 && sets.len() == 3) {
            r.insert(
                (0..all.len())
                    .filter(|b| m >> b & 1 != 0)
                    .map(|b| all[b])
                    .collect::<Vec<_>>(),
            );
        }
    }
    r.into_iter().collect()
}

/// Links by themselves, with the real hash.
fn links(c: &Check, x: &Fixed) {
    let real = |v: &[F]| PoseidonHash::hash_no_pad(v).elements.to_vec();
    let x = Fixed {
        memory: ci::initial_memory_cap(),
        hash: real,
        empty: x.empty.clone(),
        keys: BTreeMap::new(),
        main: x.main,
        halt: x.halt,
    };
    let run = |link: Link,
               flag: bool,
               sets: &[Vec<F>],
               at: &[(usize, usize)],
               circuit: &LinkCircuit,
               want: bool| {
        let mut v = sets.to_vec();
        for &(s, i) in at {
            v[s][i] += F::ONE;
        }
        c.eval("link");
        let got = vc::catch(|| circuit.accepts(flag, &v)).unwrap_or(false);
        if got != want {
            let at: Vec<_> = at
                .iter()
                .map(|&(s, i)| format!("{s}: {}", name(i)))
                .collect();
            c.violate(
                &format!("{link:?} {flag} {}", at.join(", ")),
                &format!(
                    "{link:?} ({flag}) altered at {}: accepted: {got}, the rules say {want}",
                    at.join(", ")
                ),
            );
        }
    };
    let step = c.pick(7, 1);
    // A block and its parent.
    let circuit = LinkCircuit::new(Link::Blocks);
    for j in blocks(&x, &[5]) {
        let sets: Vec<Vec<F>> = j.children.iter().map(|v| v[..END].to_vec()).collect();
        let flag = j.flags[0];
        run(Link::Blocks, flag, &sets, &[], &circuit, true);
        let mut at = vec![];
        for i in 0..END {
            if (HASHES..CUR).contains(&i) && i % step != 0 {
                continue;
            }
            for s in 0..2 {
                at.push(vec![(s, i)]);
            }
            at.push(vec![(0, i), (1, i)]);
            if let Some(t) = twin(i) {
                at.push(vec![(0, t), (1, i)]);
            }
        }
        at.par_iter().for_each(|at| {
            let mut v = sets.clone();
            for &(s, i) in at {
                v[s][i] += F::ONE;
            }
            let want = between(&x, flag, &v[0], &v[1]).is_ok();
            run(Link::Blocks, flag, &sets, at, &circuit, want);
        });
    }
    // The values told in the end.
    let circuit = LinkCircuit::new(Link::Final);
    let mut p = fresh(7);
    let root = p[BEFORE..BEFORE + 8].to_vec();
    p[CHECKPOINT..CHECKPOINT + 8].copy_from_slice(&root);
    let sets = vec![final_values(&x, &p), p];
    run(Link::Final, false, &sets, &[], &circuit, true);
    let mut at = vec![];
    for i in 0..END {
        if (HASHES..EXTRA).contains(&i) && i % step != 0 {
            continue;
        }
        at.push(vec![(1, i)]);
    }
    for i in 0..FINAL {
        at.push(vec![(0, i)]);
    }
    at.par_iter().for_each(|at| {
        let mut v = sets.clone();
        for &(s, i) in at {
            v[s][i] += F::ONE;
        }
        let ok = v[0] == final_values(&x, &v[1])
            && v[1][BEFORE..BEFORE + 8] == v[1][CHECKPOINT..CHECKPOINT + 8];
        run(Link::Final, false, &sets, at, &circuit, ok);
    });
    // Times.
    let circuit = LinkCircuit::new(Link::Timestamps);
    let times: Vec<u64> = [
        0u64,
        1,
        2,
        1 << 31,
        (1 << 32) - 1,
        1 << 32,
        (1 << 32) + 1,
        1 << 33,
        1 << 63,
        F::ORDER - (1 << 32),
        F::ORDER - 2,
        F::ORDER - 1,
    ]
    .to_vec();
    for &a in &times {
        for &b in &times {
            let mut sets = vec![fresh(1), fresh(2)];
            sets[0][TIMESTAMP] = f(a);
            sets[1][TIMESTAMP] = f(b);
            c.eval("time");
            let want = u(f(b) - f(a)) < 1 << 32;
            let got = vc::catch(|| circuit.accepts(false, &sets)).unwrap_or(false);
            if got != want {
                c.violate(
                    &format!("time {a} {b}"),
                    &format!("a block at {b} after one at {a}: accepted: {got}"),
                );
            }
        }
    }
    // The first memory, with the real hash.
    let circuit = LinkCircuit::new(Link::InitialMemory);
    let mut v = fresh(1);
    v[MEM_BEFORE..MEM_AFTER].copy_from_slice(&x.memory);
    run(
        Link::InitialMemory,
        false,
        &[v.clone()],
        &[],
        &circuit,
        true,
    );
    for i in 0..END {
        if !(HASHES..CUR).contains(&i) || i % step == 0 {
            run(
                Link::InitialMemory,
                false,
                &[v.clone()],
                &[(0, i)],
                &circuit,
                !(MEM_BEFORE..MEM_AFTER).contains(&i),
            );
        }
    }
}

/// The prover's own functions, from segments to pairs of chains of blocks.
fn chain(
    c: &Check,
    x: &Fixed,
    joins: &Joins<Config>,
    segments: usize,
    batches: usize,
    blocks: usize,
) -> Result<(), String> {
    let all = &joins.all;
    fn e(what: &str, e: impl std::fmt::Display) -> String {
        format!("{what}: {e}")
    }
    let put = |v: &mut Vec<F>, at: usize, w: &[F]| v[at..at + w.len()].copy_from_slice(w);
    let mut parent: Option<ProofWithPublicValues<F, Config, 2>> = None;
    let mut last: Vec<F> = vec![];
    for nb in 0..blocks as u64 {
        let mut done: Option<ProofWithPublicValues<F, Config, 2>> = None;
        for k in 0..batches as u64 {
            // The public values of the batch.
            let mut v = fresh(20 + 10 * nb + k);
            if last.is_empty() {
                let root = v[BEFORE..BEFORE + 8].to_vec();
                put(&mut v, CHECKPOINT, &root);
                let h = (x.hash)(&v[HASHES..CUR]);
                put(&mut v, CONSOLIDATED, &h);
            } else {
                put(&mut v, BEFORE, &last[AFTER..META]);
                put(&mut v, META, &last[META..EXTRA]);
                put(&mut v, CHECKPOINT, &last[CHECKPOINT..TXN]);
                v[TXN] = last[TXN + 1];
                v[GAS] = last[GAS + 1];
            }
            if k == 0 {
                put(&mut v, BEFORE + 8, &x.empty);
                put(&mut v, BEFORE + 16, &x.empty);
                v[TXN] = F::ZERO;
                v[GAS] = F::ZERO;
                v[NUMBER] = f(100 + nb);
                v[TIMESTAMP] = f(1_000_000 + 12 * nb);
                if !last.is_empty() {
                    put(&mut v, HASHES, &last_hashes(&last).to_vec());
                    put(&mut v, CUR, &fresh(90 + nb)[..8]);
                }
            }
            // What the whole block uses.
            v[GAS_USED] = fresh(20 + 10 * nb + batches as u64 - 1)[GAS + 1];
            put(&mut v, MEM_BEFORE, &x.memory);
            for (at, pc) in [(REGS_BEFORE, x.main), (REGS_AFTER, x.halt)] {
                v[at..at + 13].fill(F::ZERO);
                v[at] = pc;
                v[at + 1] = F::ONE;
            }
            last = v.clone();
            // Its segments.
            let mut whole: Option<ProverOutputData<F, Config, 2>> = None;
            for s in 0..segments {
                let mut w = v.clone();
                let mid = |s: usize| fresh(50 + s as u64);
                if s > 0 {
                    put(&mut w, REGS_BEFORE, &mid(s)[REGS_BEFORE..REGS_AFTER]);
                    put(&mut w, MEM_BEFORE, &mid(s)[MEM_BEFORE..MEM_AFTER]);
                }
                if s + 1 < segments {
                    put(&mut w, REGS_AFTER, &mid(s + 1)[REGS_BEFORE..REGS_AFTER]);
                    put(&mut w, MEM_AFTER, &mid(s + 1)[MEM_BEFORE..MEM_AFTER]);
                }
                // Modes are bits.
                for at in [REGS_BEFORE + 1, REGS_AFTER + 1] {
                    w[at] = F::ONE;
                }
                let pis = with_key(x, w, Stage::Root);
                let one = ProverOutputData {
                    is_agg: false,
                    is_dummy: false,
                    proof_with_pvs: ProofWithPublicValues {
                        public_values: PublicValues::from_public_inputs(&pis),
                        intern: joins.proof(Stage::Root, &pis),
                    },
                };
                whole = Some(match whole {
                    None => one,
                    Some(l) => all
                        .prove_segment_aggregation(&l, &one)
                        .map_err(|x| e("segments", x))?,
                });
            }
            let mut whole = whole.unwrap();
            if segments == 1 {
                let mut dummy = whole.clone();
                dummy.is_dummy = true;
                whole = all
                    .prove_segment_aggregation(&whole, &dummy)
                    .map_err(|x| e("one segment", x))?;
            }
            all.verify_segment_aggregation(&whole.proof_with_pvs.intern)
                .map_err(|x| e("verify segments", x))?;
            c.eval("prover");
            let whole = whole.proof_with_pvs;
            done = Some(match done {
                None => whole,
                Some(l) => {
                    let r = all
                        .prove_batch_aggregation(k > 1, &l, false, &whole)
                        .map_err(|x| e("batches", x))?;
                    all.verify_batch_aggregation(&r.intern)
                        .map_err(|x| e("verify batches", x))?;
                    c.eval("prover");
                    r
                }
            });
        }
        let b = all
            .prove_block(parent.as_ref().map(|p| &p.intern), &done.unwrap())
            .map_err(|x| e("block", x))?;
        all.verify_block(&b.intern)
            .map_err(|x| e("verify block", x))?;
        c.eval("prover");
        parent = Some(b);
    }
    let b = parent.unwrap();
    let (w, told) = all.prove_block_wrapper(&b).map_err(|x| e("wrapper", x))?;
    all.verify_block_wrapper(&w)
        .map_err(|x| e("verify wrapper", x))?;
    if w.public_inputs[..FINAL] != final_values(x, &b.intern.public_inputs)[..] {
        return Err("the values of the wrapper are not those of the block".into());
    }
    let told2 = FinalPublicValues::from_public_inputs(&w.public_inputs);
    if told != told2 {
        return Err(format!("told {told:?}, proved {told2:?}"));
    }
    let p = all
        .prove_two_to_one_block(&w, false, &w, false)
        .map_err(|x| e("pair", x))?;
    all.verify_two_to_one_block(&p)
        .map_err(|x| e("verify pair", x))?;
    for (l, r) in [(true, false), (false, true), (true, true)] {
        let q = all
            .prove_two_to_one_block(if l { &p } else { &w }, l, if r { &p } else { &w }, r)
            .map_err(|x| e("pairs", x))?;
        all.verify_two_to_one_block(&q)
            .map_err(|x| e("verify pairs", x))?;
        c.eval("prover");
    }
    Ok(())
}

pub fn run() -> ! {
    let c = Check::new("C24", "model_check");
    assert_eq!(END, PV_SIZE, "layout of the public values");
    let mut joins =
        Joins::<Config>::new(std::env::var("DEGREE").map_or(14, |d| d.parse().unwrap()));
    let stages = [
        Stage::Segments,
        Stage::Batches,
        Stage::Block,
        Stage::Wrapper,
        Stage::Pair,
    ];
    let x = Fixed {
        memory: joins.first_memory(),
        main: f(ci::kernel_label("main") as u64),
        halt: f(ci::kernel_label("halt") as u64),
        empty: {
            let h = vc::keccak(&[0x80]);
            (0..8)
                .rev()
                .map(|k| f(u32::from_be_bytes(h[4 * k..4 * k + 4].try_into().unwrap()) as u64))
                .collect()
        },
        keys: [Stage::Root]
            .iter()
            .chain(&stages)
            .map(|&s| (s, joins.vk(s)))
            .collect(),
        hash: weak,
    };
    // Honest cases, proved and verified.
    for s in stages {
        for (k, j) in honest(&x, s).iter().enumerate() {
            if s != Stage::Segments
                && s != Stage::Batches
                && s != Stage::Pair
                && k > 0
                && !j.flags.first().is_some_and(|&b| b)
            {
                continue;
            }
            assert_eq!(rule(&x, s, j), Ok(()), "{s:?} {:?}", j.flags);
            c.eval("honest");
            match vc::catch(|| joins.prove(s, j)) {
                Ok(Ok(())) => {}
                e => c.violate(
                    &format!("honest {s:?} {:?}", j.flags),
                    &format!("an honest case is not proved: {e:?}"),
                ),
            }
        }
    }
    let joins = &joins;
    links(&c, &x);
    let chains: &[(usize, usize, usize)] = if c.thorough {
        &[
            (1, 1, 1),
            (1, 2, 2),
            (2, 1, 2),
            (3, 3, 3),
            (1, 3, 1),
            (4, 1, 1),
            (2, 4, 2),
        ]
    } else {
        &[(1, 2, 2), (3, 3, 1)]
    };
    for &(n, m, k) in chains {
        match vc::catch(|| chain(&c, &x, joins, n, m, k)) {
            Ok(Ok(())) => {}
            e => c.violate(
                &format!("chain {n} {m} {k}"),
                &format!("{k} blocks of {m} batches of {n} segments are not proved: {e:?}"),
            ),
        }
    }
    for s in stages {
        let mut all = honest(&x, s);
        if s == Stage::Block && !c.thorough {
            all.retain(|j| u(j.children[1][TIMESTAMP] - j.children[0][TIMESTAMP]) == 5);
        }
        let settings = all.len();
        for (at, j) in all.into_iter().enumerate() {
            let mut work: Vec<Vec<(usize, usize)>> = vec![vec![]];
            let n = j.children.len();
            let body = j.children.iter().map(|v| v.len() - 68).max().unwrap();
            for i in 0..body {
                // Of the hashes, some in the lower tier.
                let k = i.wrapping_sub(HASHES);
                if body > FINAL
                    && k < 2048
                    && !c.thorough
                    && !(k < 2 || (8..10).contains(&k) || k % 251 == 0 || k >= 2039)
                {
                    continue;
                }
                if body > FINAL && !c.thorough {
                    let m = i.wrapping_sub(MEM_BEFORE);
                    if m < 128 && m % 9 != 0 {
                        continue;
                    }
                    let m = i.wrapping_sub(META + 33);
                    if m < 64 && m % 9 != 0 {
                        continue;
                    }
                }
                work.extend(alterations(&j, i, c.thorough));
            }
            // In the lower tier each alteration is made with one setting of the flags.
            if !c.thorough {
                work = work
                    .into_iter()
                    .enumerate()
                    .filter(|(k, _)| k % settings == at)
                    .map(|x| x.1)
                    .collect();
            }
            // Keys; the proofs are only good for the last elements.
            for i in 0..n {
                // What stands for a parent that is not there.
                if s == Stage::Block && i == 0 && !j.flags[0] {
                    continue;
                }
                for k in 0..if c.thorough { 20 } else { 6 } {
                    work.push(vec![(i, j.children[i].len() - 68 + k)]);
                }
            }
            let bad: Vec<_> = work
                .par_iter()
                .filter_map(|w| {
                    let mut a = j.clone();
                    for &(set, p) in w {
                        let v = if set == n {
                            &mut a.out
                        } else {
                            &mut a.children[set]
                        };
                        v[p] += F::ONE;
                    }
                    let want = rule(&x, s, &a);
                    let got = match vc::catch(|| joins.accepts(s, &a)) {
                        Ok(r) => r,
                        Err(e) => Err(e),
                    };
                    (want.is_ok() != got.is_ok()).then(|| (w.clone(), want, got))
                })
                .collect();
            c.evals("alteration", work.len() as u64);
            c.transition(work.len() as u64);
            for w in &work {
                c.state(&(s, &j.flags, w));
            }
            c.sample(&format!("{s:?}"), || {
                json!(work
                    .get(work.len() / 2)
                    .map(|w| format!("{:?} {w:?}", j.flags)))
            });
            for (w, want, got) in bad {
                let sets: Vec<String> = w
                    .iter()
                    .map(|&(set, p)| {
                        format!(
                            "{} {}",
                            ["first", "second", "result"][if set == n { 2 } else { set }],
                            if body > FINAL || set == n {
                                name(p)
                            } else {
                                p.to_string()
                            }
                        )
                    })
                    .collect();
                c.violate(
                    &format!("{s:?} {:?} {}", j.flags, sets.join(", ")),
                    &format!(
                        "altered: {}; the rules say {want:?}, the circuit {got:?}",
                        sets.join(", ")
                    ),
                );
            }
        }
    }
    let b = json!({"altered": format!("{} at one place of the first, second and joined values and at its counterpart in the neighbour", c.pick("every single element, every two and every three in different sets", "every subset of the elements")),
        "places": c.pick("all but most of the previous block hashes, memory caps and blooms, of which one in 251, 9 and 9", "all"),
        "joins": "all settings of the flags of every circuit", "keys": c.pick("the first 6 elements of the key of each child", "the first 20 elements of the key of each child"),
        "chains": format!("{chains:?} (segments in a batch, batches in a block, blocks)")});
    c.finish(
        "the real aggregation circuits are built over a circuit with the shape of a segment proof, with a hash that lets any public values be attached to a proof; for every alteration of honest public values the circuit must find a witness exactly if a direct statement of the rules holds; honest cases are proved and verified, also by the prover's own functions",
        b,
        &["recursive verification itself (plonky2) is sound", "the links that use hashes of block hashes are decided with the real hash, apart from the proofs"],
    )
}
