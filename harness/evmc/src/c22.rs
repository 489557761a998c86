//! C22: transactions and RLP items are parsed and encoded exactly. Whole
//! ranges of items go through the kernel's RLP routines; transactions of every
//! type and shape go through the kernel's parser up to the intrinsic gas.
use evm_arithmetization::verif_hooks::vm::{Snapshot, Stop, Vm};
use vc::rayon::prelude::*;
use vc::{json, rlp, Check, U256};

use crate::batch::*;
use crate::c13;
use crate::common::*;
use crate::refevm::*;

const LEAD: usize = 7;

fn fill(i: usize) -> U256 {
    U256::from(0xa0 + (i * 7) % 61)
}
fn at(off: usize) -> U256 {
    addr("RlpRaw", off)
}
/// The routine must write exactly `want` from `off` on.
fn encodes(ck: &Check, name: &str, args: &[U256], off: usize, want: &[u8], stack: &[U256], key: &str) {
    ck.eval(name);
    with_vm(|m| {
        let s = seg("RlpRaw");
        let n = off + want.len() + 40;
        let cells: Vec<U256> = (0..n).map(fill).collect();
        m.set_cells(0, s, &cells);
        let below = [U256::from(77), U256::MAX];
        let c0 = m.clock();
        let r = call(m, name, args, &below, 2_000_000);
        ck.transition((m.clock() - c0) as u64);
        let bad = match r {
            Err(e) => Some(e),
            Ok(st) if st != stack => Some(format!("left [{}] on the stack, expected [{}]", words(&st), words(stack))),
            Ok(_) => m.cells(0, s).iter().enumerate().find_map(|(i, x)| {
                let x = x.unwrap_or_default();
                let w = match i.checked_sub(off).and_then(|j| want.get(j)) {
                    Some(b) => U256::from(*b),
                    None if i < n => fill(i),
                    None => U256::zero(),
                };
                (x != w).then(|| format!("byte {} of the encoding is {x:#x}, expected {w:#x}", i as i64 - off as i64))
            }),
        };
        if let Some(b) = bad {
            ck.violate(&format!("{name}:{key}"), format!("{name} of {key}: {b}"));
        }
        ck.state(&(name, want));
    })
}
/// The routine must read `bytes` and leave `stack`.
fn decodes(ck: &Check, name: &str, bytes: &[u8], stack: &[U256], key: &str) {
    ck.eval(name);
    with_vm(|m| {
        let s = seg("RlpRaw");
        let mut cells: Vec<U256> = (0..LEAD).map(fill).collect();
        cells.extend(bytes.iter().map(|b| U256::from(*b)));
        cells.extend((0..40).map(fill));
        m.set_cells(0, s, &cells);
        let below = [U256::from(77), U256::MAX];
        let c0 = m.clock();
        let r = call(m, name, &[at(LEAD)], &below, 100_000);
        ck.transition((m.clock() - c0) as u64);
        let bad = match r {
            Err(e) => Some(e),
            Ok(st) if st != stack => Some(format!("left [{}] on the stack, expected [{}]", words(&st), words(stack))),
            Ok(_) => m.cells(0, s).iter().map(|x| x.unwrap_or_default()).ne(cells).then(|| "changed the input".to_string()),
        };
        if let Some(b) = bad {
            ck.violate(&format!("{name}:{key}"), format!("{name} of {key}: {b}"));
        }
        ck.state(&(name, bytes));
    })
}
/// Values of every byte length up to `max`.
fn patterns(max: usize) -> Vec<U256> {
    let mut v = vec![U256::zero()];
    for n in 1..=max {
        for first in [1u8, 0x7f, 0x80, 0xff] {
            for rest in 0..4 {
                let mut b = [0u8; 32];
                b[32 - n] = first;
                for (i, x) in b[33 - n..].iter_mut().enumerate() {
                    *x = [0, 0xff, i as u8 + 1, 0x80 * (i + 2 == n) as u8][rest];
                }
                v.push(U256::from_big_endian(&b));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn header(base: u8, len: usize) -> Vec<u8> {
    if len <= 55 {
        vec![base + len as u8]
    } else {
        let l = vc::rlp::be_trim(&(len as u64).to_be_bytes()).to_vec();
        let mut v = vec![base + 55 + l.len() as u8];
        v.extend(l);
        v
    }
}

fn routines(ck: &Check, th: bool) {
    let only = |n: &str| std::env::var("VERIF_ONLY").map_or(true, |o| o == n);
    if !only("routines") {
        return;
    }
    let mut scalars: Vec<U256> = (0..ck.pick(0x1200u64, 0x2_0000)).map(U256::from).collect();
    scalars.extend((0xff00..0x1_0100u64).map(U256::from));
    scalars.extend(patterns(32));
    scalars.par_iter().with_max_len(64).for_each(|x| {
        let e = rlp::u256(*x);
        let key = format!("{x:#x}");
        encodes(ck, "encode_rlp_scalar", &[at(LEAD), *x], LEAD, &e, &[at(LEAD + e.len())], &key);
        let d = rlp::bytes(&e);
        encodes(ck, "doubly_encode_rlp_scalar", &[at(LEAD), *x], LEAD, &d, &[at(LEAD + d.len())], &key);
        decodes(ck, "decode_rlp_scalar", &e, &[at(LEAD + e.len()), *x], &key);
        let n = ((x.bits() + 7) / 8).max(1);
        encodes(ck, "num_bytes", &[*x], LEAD, &[], &[n.into()], &key);
        // Fixed lengths from the shortest up.
        for len in n.max(2)..=32 {
            if len > n + 1 && len < 31 && !th {
                continue;
            }
            let b = be(*x)[32 - len..].to_vec();
            let e = rlp::bytes(&b);
            encodes(ck, "encode_rlp_fixed", &[len.into(), at(LEAD), *x], LEAD, &e, &[at(LEAD + e.len())], &format!("{key} in {len} bytes"));
            let d = rlp::bytes(&e);
            encodes(ck, "doubly_encode_rlp_fixed", &[len.into(), at(LEAD), *x], LEAD, &d, &[at(LEAD + d.len())], &format!("{key} in {len} bytes"));
            decodes(ck, "decode_rlp_scalar", &e, &[at(LEAD + e.len()), *x], &format!("{key} in {len} bytes"));
        }
    });
    let mut lens: Vec<usize> = (0..ck.pick(1100, 70000)).collect();
    for k in [16, 24, 31] {
        lens.extend((1usize << k) - 3..(1 << k) + 3);
    }
    lens.retain(|l| *l < 1 << 31);
    lens.par_iter().with_max_len(64).for_each(|&l| {
        let key = format!("length {l}");
        let h = header(0xc0, l);
        decodes(ck, "decode_rlp_list_len", &h, &[at(LEAD + h.len()), l.into()], &key);
        encodes(ck, "encode_rlp_list_prefix", &[at(LEAD), l.into()], LEAD, &h, &[at(LEAD + h.len())], &key);
        let start = 30;
        encodes(
            ck, "prepend_rlp_list_prefix", &[at(start + l), at(start)], start - h.len(), &h, &[at(start - h.len()), (h.len() + l).into()], &key,
        );
        let h = header(0x80, l);
        if l != 1 {
            decodes(ck, "decode_rlp_string_len", &h, &[at(LEAD + h.len()), l.into()], &key);
        }
        encodes(ck, "encode_rlp_multi_byte_string_prefix", &[at(LEAD), l.into()], LEAD, &h, &[at(LEAD + h.len())], &key);
    });
    for b in 0..=255u8 {
        let e = rlp::bytes(&[b]);
        let skip = if b < 128 { 0 } else { 1 };
        decodes(ck, "decode_rlp_string_len", &e, &[at(LEAD + skip), 1.into()], &format!("the byte {b:#x}"));
    }
    // Strings elsewhere in memory.
    let mut strings: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    for l in (0..ck.pick(300, 1200)).chain([1023, 1024, 65535, 65536, 65537]) {
        for first in [0u8, 0x7f, 0x80] {
            if l < 2000 || first == 0 {
                strings.push((0..l).map(|i| if i == 0 { first } else { (i * 11 + l) as u8 }).collect());
            }
        }
    }
    strings.par_iter().with_max_len(8).for_each(|s| {
        let g = seg("KernelGeneral");
        let cells: Vec<U256> = s.iter().map(|b| U256::from(*b)).chain([U256::from(0xcc); 33]).collect();
        with_vm(|m| m.set_cells(0, g, &cells));
        let e = rlp::bytes(s);
        encodes(
            ck, "encode_rlp_string", &[at(LEAD), addr("KernelGeneral", 0), s.len().into()], LEAD, &e, &[at(LEAD + e.len())],
            &format!("{} bytes from {:#x}", s.len(), s.first().copied().unwrap_or(0)),
        );
    });
    // The index after each index.
    (0..65_535usize).into_par_iter().with_max_len(512).for_each(|i| {
        let i = i as u64;
        let w = |i: u64| {
            let e = rlp::uint(i);
            [U256::from_big_endian(&e), U256::from(2 * e.len())]
        };
        encodes(ck, "increment_bounded_rlp", &w(i), LEAD, &[], &w(i + 1), &format!("index {i}"));
        if i % 16 == 0 || i < 300 || i > 65_000 {
            // It may use the encoding segment for itself.
            ck.eval("scalar_to_rlp");
            let r = with_vm(|m| call(m, "scalar_to_rlp", &[i.into()], &[3.into()], 10_000));
            if r.as_deref() != Ok(&w(i)[..1]) {
                ck.violate(&format!("scalar_to_rlp:{i}"), format!("scalar_to_rlp of {i}: {r:x?}"));
            }
        }
    });
}

#[derive(Clone)]
struct Case {
    tx: Tx,
    /// The signature, if not a true one.
    sig: Option<(bool, U256, U256)>,
    /// How many transactions came before.
    earlier: usize,
}

const EARLIER: [usize; 5] = [0, 1, 127, 128, 256];

fn world() -> World {
    let mut w = c13::world();
    w.get_mut(&address_of(1)).unwrap().balance = U256::exp10(30);
    w
}
fn earlier(n: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    (0..n).map(|i| (vec![0xc1, i as u8], receipt(0, true, 21000 * (i as u64 + 1), &[]))).collect()
}
fn batch(n: usize) -> Batch {
    let mut block = base_block();
    block.base_fee = U256::zero();
    Batch {
        world: world(),
        block,
        earlier: earlier(n),
        txs: vec![Tx { ty: 0, to: Some(c13::eoa(1)), gas: 21000, key: 1, ..Tx::default() }],
        ..Batch::default()
    }
}
/// A machine about to parse a transaction.
fn snapshots() -> Vec<Snapshot> {
    EARLIER
        .par_iter()
        .map(|n| {
            let b = batch(*n);
            let e = b.expect(false);
            let mut vm = start(&b, &e);
            let s = vm.run(&[label("route_txn")], 50_000_000);
            assert!(matches!(s, Stop::Halted(_)), "{}", place(&vm, &s));
            vm.save()
        })
        .collect()
}
fn queue(raw: &[u8]) -> Vec<U256> {
    let mut q = vec![U256::from(raw.len())];
    for c in raw.chunks(32) {
        let mut w = [0u8; 32];
        w[..c.len()].copy_from_slice(c);
        q.push(U256::from_big_endian(&w));
    }
    q.reverse();
    q
}
fn field(m: &Vm, f: &str) -> U256 {
    m.get(0, seg("TxnFields"), names().txn[f])
}

/// Parses one transaction and compares all that the kernel made of it.
fn parse(m: &mut Vm, c: &Case, snaps: &[Snapshot], ck: &Check) -> Result<(), String> {
    let t = &c.tx;
    let sig = c.sig.unwrap_or_else(|| t.sign());
    let raw = t.encode_with(sig);
    m.load(&snaps[EARLIER.iter().position(|n| *n == c.earlier).unwrap()]);
    m.set_prover_queues(queue(&raw), vec![]);
    let c0 = m.clock();
    let s = m.run(&[label("ecrecover")], 50_000_000);
    if !matches!(s, Stop::Halted(_)) {
        return Err(format!("no signature was looked at: {}", place(m, &s)));
    }
    let st = m.stack();
    let top: Vec<U256> = st.iter().rev().take(4).copied().collect();
    let want = [h2u(t.signing_hash()), U256::from(27 + sig.0 as u64), sig.1, sig.2];
    if top[..] != want {
        return Err(format!("hash, v, r and s taken are [{}], expected [{}]", words(&top), words(&want)));
    }
    // The transactions trie now holds the transaction.
    let parsed = m.save();
    let mut txns: Vec<Vec<u8>> = earlier(c.earlier).into_iter().map(|x| x.0).collect();
    let len = raw.len();
    txns.push(raw);
    let root = call(m, "mpt_hash_txn_trie", &[at(len + 200), 1.into()], &[], 20_000_000)?;
    if root[0] != h2u(index_root(&txns)) {
        return Err(format!("the transactions root became {:#x}, expected {:#x}", root[0], h2u(index_root(&txns))));
    }
    m.load(&parsed);
    if c.sig.is_some() {
        // In place of the recovery.
        let mut s = st[..st.len() - 4].to_vec();
        let ret = s.pop().unwrap();
        s.push(a2u(t.sender()));
        m.set_stack(&s);
        m.set_pc(ret.as_usize());
    }
    let mut s = Stop::OutOfSteps;
    for _ in 0..50_000_000u64 {
        if !field(m, "TXN_FIELD_INTRINSIC_GAS").is_zero() {
            s = Stop::Halted(m.regs().pc);
            break;
        }
        if let Err(e) = m.step() {
            s = Stop::Failed(e);
            break;
        }
    }
    if !matches!(s, Stop::Halted(_)) {
        return Err(format!("intrinsic gas not reached: {}", place(m, &s)));
    }
    let n = |x: u64| U256::from(x);
    let mut want = vec![
        ("TXN_FIELD_TYPE", n(t.ty.into())),
        ("TXN_FIELD_CHAIN_ID_PRESENT", n(t.chain_id.is_some().into())),
        ("TXN_FIELD_CHAIN_ID", n(t.chain_id.unwrap_or(0))),
        ("TXN_FIELD_NONCE", n(t.nonce)),
        ("TXN_FIELD_MAX_PRIORITY_FEE_PER_GAS", if t.ty < 2 { t.max_fee } else { t.tip }),
        ("TXN_FIELD_MAX_FEE_PER_GAS", t.max_fee),
        ("TXN_FIELD_GAS_LIMIT", n(t.gas)),
        ("TXN_FIELD_INTRINSIC_GAS", n(t.intrinsic())),
        ("TXN_FIELD_VALUE", t.value),
        ("TXN_FIELD_DATA_LEN", t.data.len().into()),
        ("TXN_FIELD_Y_PARITY", n(sig.0.into())),
        ("TXN_FIELD_R", sig.1),
        ("TXN_FIELD_S", sig.2),
        ("TXN_FIELD_ORIGIN", a2u(t.sender())),
    ];
    if let Some(to) = t.to {
        want.push(("TXN_FIELD_TO", a2u(to)));
    }
    if t.ty == 3 {
        want.push(("TXN_FIELD_MAX_FEE_PER_BLOB_GAS", t.max_blob_fee));
    }
    for (f, w) in want {
        if field(m, f) != w {
            return Err(format!("{f} is {:#x}, expected {w:#x}", field(m, f)));
        }
    }
    if get_global(m, "ContractCreation") != n(t.to.is_none().into()) {
        return Err("a creation is not told from a call".into());
    }
    let data = m.cells(0, seg("TxnData"));
    for (i, b) in t.data.iter().enumerate() {
        let x = data.get(i).copied().flatten().unwrap_or_default();
        if x != n((*b).into()) {
            return Err(format!("byte {i} of the data is {x:#x}, expected {b:#x}"));
        }
    }
    if get_global(m, "BlobVersionedHashesLen") != (33 * t.blobs.len()).into() {
        return Err(format!("{} bytes of blob hashes", get_global(m, "BlobVersionedHashesLen")));
    }
    for (i, b) in t.blobs.iter().enumerate() {
        let x = m.get(0, seg("TxnBlobVersionedHashes"), i);
        if x != *b {
            return Err(format!("blob hash {i} is {x:#x}, expected {b:#x}"));
        }
    }
    // What is warm: exactly what the list names.
    let w = world();
    let mut addrs: Vec<Addr> = t.access.iter().map(|x| x.0).chain([t.sender(), c13::contract(1), c13::eoa(9), u2a(1.into())]).chain(t.to).collect();
    addrs.sort();
    addrs.dedup();
    let mut slots: Vec<(Addr, U256)> = t.access.iter().flat_map(|(a, k)| k.iter().map(|k| (*a, *k))).collect();
    for (a, k) in slots.clone() {
        slots.push((a, k ^ U256::one()));
        slots.push((u2a(a2u(a) ^ U256::one()), k));
    }
    slots.push((c13::contract(1), 1.into()));
    slots.sort();
    slots.dedup();
    if slots.len() > 200 {
        let k = slots.len() / 100;
        slots = slots.into_iter().step_by(k).collect();
    }
    for a in addrs {
        let listed = t.access.iter().any(|x| x.0 == a);
        let r = call(m, "insert_accessed_addresses", &[a2u(a)], &[], 100_000)?;
        if r != [n((!listed).into())] {
            return Err(format!("{a:?} listed: {listed}, found cold: {}", words(&r)));
        }
    }
    for (a, k) in slots {
        let listed = t.access.iter().any(|x| x.0 == a && x.1.contains(&k));
        let r = call(m, "insert_accessed_storage_keys", &[a2u(a), k], &[], 100_000)?;
        if r.len() != 2 || r[0] != n((!listed).into()) {
            return Err(format!("slot {k:#x} of {a:?} listed: {listed}, found cold: {}", words(&r)));
        }
        if listed {
            let orig = w.get(&a).and_then(|x| x.storage.get(&k)).copied().unwrap_or_default();
            let p = r[1].low_u64();
            let x = m.get(0, seg("AccessedStorageKeys"), p as u32 as usize);
            if x != orig {
                return Err(format!("the first value of slot {k:#x} of {a:?} is taken as {x:#x}, expected {orig:#x}"));
            }
        }
    }
    ck.transition((m.clock() - c0) as u64);
    Ok(())
}

fn base(kind: usize) -> Tx {
    let mut t = Tx {
        chain_id: (kind > 0).then_some(1),
        ty: kind.saturating_sub(1) as u8,
        nonce: 3,
        tip: 2.into(),
        max_fee: 9.into(),
        gas: 100_000,
        to: Some(c13::contract(1)),
        value: 5.into(),
        data: vec![1, 0, 2],
        key: 1,
        ..Tx::default()
    };
    if kind == 4 {
        t.max_blob_fee = 7.into();
        t.blobs = vec![blob(1)];
    }
    t
}
fn blob(i: u64) -> U256 {
    (U256::one() << 248) + i
}
fn sig() -> Option<(bool, U256, U256)> {
    Some((true, U256::MAX >> 3, U256::MAX >> 9))
}
fn bytes(n: usize, k: usize) -> Vec<u8> {
    (0..n).map(|i| match k { 0 => 0, 1 => 0x7f, 2 => 0x80 + (i % 5) as u8, _ => (i * 5 % 3) as u8 }).collect()
}

fn cases(th: bool) -> Vec<(&'static str, Case)> {
    let mut v: Vec<(&'static str, Case)> = vec![];
    let mut add = |f: &'static str, tx: Tx, sig: Option<(bool, U256, U256)>, earlier: usize| v.push((f, Case { tx, sig, earlier }));
    let p8: Vec<u64> = patterns(8).iter().map(|x| x.low_u64()).collect();
    let p32 = patterns(32);
    for kind in 0..5 {
        let b = base(kind);
        for x in &p8 {
            add("nonce", Tx { nonce: *x, ..b.clone() }, sig(), 1);
            add("gas", Tx { gas: *x, ..b.clone() }, sig(), 1);
            if kind > 0 && *x > 0 && *x < 1 << 62 {
                add("chain id", Tx { chain_id: Some(*x), ..b.clone() }, sig(), 1);
            }
        }
        for x in &p32 {
            add("value", Tx { value: *x, ..b.clone() }, sig(), 1);
            add("fee", Tx { max_fee: *x, tip: U256::zero(), ..b.clone() }, sig(), 1);
            if kind >= 3 {
                add("tip", Tx { max_fee: *x, tip: *x, ..b.clone() }, sig(), 1);
            }
            if kind == 4 {
                add("blob fee", Tx { max_blob_fee: *x, ..b.clone() }, sig(), 1);
                add("blobs", Tx { blobs: vec![blob(1), (*x >> 8) + blob(0)], ..b.clone() }, sig(), 1);
            }
            for odd in [false, true] {
                add("signature", b.clone(), Some((odd, *x, 1.into())), 1);
                if *x < U256::MAX >> 1 && vc::big::to_big(*x) * 2u8 < secp_n() {
                    add("signature", b.clone(), Some((odd, U256::MAX, *x)), 1);
                }
            }
        }
        let half = vc::big::from_big(&(secp_n() / 2u8));
        add("signature", b.clone(), Some((true, U256::one(), half)), 1);
        for n in 0..if th { 700 } else { 290 } {
            for k in 0..4 {
                if th || (n + kind + k) % 4 == 0 || (n < 70 || (250..260).contains(&n)) && (n + k) % 2 == 0 {
                    add("data", Tx { data: bytes(n, k), ..b.clone() }, sig(), 1);
                    if kind < 4 && (th || n % 4 == 0) {
                        add("init code", Tx { data: bytes(n, k), to: None, ..b.clone() }, sig(), 1);
                    }
                }
            }
        }
        for x in 0..=255u8 {
            add("data byte", Tx { data: vec![x], ..b.clone() }, sig(), 1);
        }
        for n in [1023, 1024, 4095, 65_500, 65_535, 65_536, 65_537] {
            if th || n < 5000 || kind == 3 && n != 65_500 {
                add("long data", Tx { data: bytes(n, 3), ..b.clone() }, sig(), 1);
            }
        }
        if kind < 4 {
            for n in [49_151, 49_152] {
                if th || kind == 3 {
                    add("long init code", Tx { data: bytes(n, 3), to: None, ..b.clone() }, sig(), 1);
                }
            }
        }
        for i in 0..20 {
            for f in [1u8, 0x7f, 0x80, 0xff] {
                let mut a = [0u8; 20];
                a[i] = f;
                add("to", Tx { to: Some(vc::H160(a)), ..b.clone() }, sig(), 1);
                if kind >= 2 {
                    add("listed address", Tx { access: vec![(vc::H160(a), vec![U256::from(f) << (8 * i)])], ..b.clone() }, sig(), 1);
                }
            }
        }
        add("to", Tx { to: Some(vc::H160([0; 20])), ..b.clone() }, sig(), 1);
        if kind < 4 {
            add("to", Tx { to: None, ..b.clone() }, sig(), 1);
        }
        // Fields together.
        for (i, nonce) in [0, 0x7f, 0x80, u64::MAX].into_iter().enumerate() {
            for (j, value) in [U256::zero(), 1.into(), 0x80.into(), U256::one() << 255].into_iter().enumerate() {
                for (k, data) in [vec![], vec![5], vec![0x85], bytes(55, 3), bytes(56, 3), bytes(300, 3)].into_iter().enumerate() {
                    for to in [b.to, None] {
                        for (l, fee) in [0u64, 127, 128].into_iter().enumerate() {
                            if to.is_none() && kind == 4 || !th && (i + j + k + l) % 3 != 0 {
                                continue;
                            }
                            let t = Tx { nonce, value, data: data.clone(), to, max_fee: fee.into(), tip: U256::zero(), ..b.clone() };
                            add("fields", t, sig(), EARLIER[(i + j + k + l) % 4]);
                        }
                    }
                }
            }
        }
        for n in EARLIER {
            for len in [0, 31, 32, 33, 200] {
                add("index", Tx { data: bytes(len, 3), ..b.clone() }, sig(), n);
            }
        }
        if kind == 4 {
            for n in 1..=if th { 40 } else { 12 } {
                add("blobs", Tx { blobs: (0..n).map(|i| blob(i * i)).collect(), ..b.clone() }, sig(), 1);
            }
        }
        if kind >= 2 {
            // Access lists of every shape.
            let keys: [Vec<U256>; 6] = [vec![], vec![1.into()], vec![U256::MAX], vec![1.into(), 1.into()], vec![2.into(), 1.into()], vec![0.into(), U256::one() << 255, 1.into()]];
            let addrs = [c13::contract(1), c13::eoa(9), address_of(1), c13::contract(7)];
            let mut entries = vec![];
            for a in addrs {
                for k in &keys {
                    entries.push((a, k.clone()));
                }
            }
            for (i, x) in entries.iter().enumerate() {
                add("access list", Tx { access: vec![x.clone()], ..b.clone() }, sig(), 1);
                for (j, y) in entries.iter().enumerate() {
                    if th || (i + j) % 3 == kind - 2 || i == j {
                        add("access list", Tx { access: vec![x.clone(), y.clone()], ..b.clone() }, sig(), 1);
                    }
                    if th || (i * 5 + j) % 16 == kind {
                        for (k, z) in entries.iter().enumerate() {
                            if th && (i + j + k) % 3 == kind - 2 || (i + j + k) % 6 == 0 {
                                add("access list", Tx { access: vec![x.clone(), y.clone(), z.clone()], ..b.clone() }, sig(), 1);
                            }
                        }
                    }
                }
            }
            for n in 0..if th { 60 } else { 24 } {
                add("addresses", Tx { access: (0..n).map(|i| (addr20(1, i * 7 % 13), vec![])).collect(), ..b.clone() }, sig(), 1);
                add("slots", Tx { access: vec![(c13::contract(7), (0..n).map(|i| U256::from(i * 7 % 11 + 98)).collect())], ..b.clone() }, sig(), 1);
            }
            for n in [1984u64, 1985, 1986, 1987] {
                if th || kind == 3 && n > 1984 && n < 1987 {
                    add("many slots", Tx { access: vec![(c13::contract(7), (0..n).map(|i| U256::from(i * 7 % 2003 + 98)).collect())], ..b.clone() }, sig(), 1);
                }
            }
        }
        // True signatures.
        for (i, key) in (1..=3u64).enumerate() {
            for nonce in 0..if th { 20 } else { 3 } {
                for data in [vec![], bytes(60, 3)] {
                    add("signed", Tx { key, nonce: nonce * 77, data, ..b.clone() }, None, EARLIER[i]);
                }
            }
        }
    }
    v
}

/// Signatures that prove nothing must stop the machine.
fn forged(ck: &Check, snaps: &[Snapshot]) {
    let n = vc::big::from_big(&secp_n());
    let half = vc::big::from_big(&(secp_n() / 2u8));
    let mut v = vec![];
    for kind in 0..5 {
        let t = base(kind);
        let (odd, r, s) = t.sign();
        let z = U256::zero();
        for (what, r, s) in [
            ("a true signature", r, s),
            ("s in the upper half", r, n - s),
            ("the least s in the upper half", r, half + 1),
            ("s of zero", r, z),
            ("r of zero", z, s),
            ("r of the group order", n, s),
            ("the greatest r", U256::MAX, s),
            ("s of the group order", r, n),
            ("the greatest s", r, U256::MAX),
            ("an r that is no abscissa", 5.into(), s),
        ] {
            v.push((kind, what, t.encode_with((odd, r, s))));
        }
        // Parities other than 0 and 1.
        if kind >= 2 {
            for y in [2u8, 3, 27, 28, 0x7f] {
                let e = t.encode_with((odd, r, s));
                let p = e.windows(2).rposition(|w| w == [odd as u8 | if odd { 0 } else { 0x80 }, 0xa0]);
                if let Some(p) = p {
                    let mut e = e;
                    e[p] = y;
                    v.push((kind, "a parity of neither 0 nor 1", e));
                }
            }
        }
    }
    v.par_iter().with_max_len(1).for_each(|(kind, what, raw)| {
        ck.eval("forged");
        with_vm(|m| {
            m.load(&snaps[1]);
            m.set_prover_queues(queue(raw), vec![]);
            let s = m.run(&[label("buy_gas"), label("invalid_txn"), label("txn_loop_after"), label("txn_loop"), label("execute_withdrawals")], 50_000_000);
            ck.transition(m.clock() as u64);
            ck.state(raw);
            if matches!(s, Stop::Failed(_)) == (*what == "a true signature") {
                ck.violate(&format!("forged:{kind}:{what}"), format!("a transaction of kind {kind} with {what}: {}", place(m, &s)));
            }
        })
    })
}

pub fn run() -> ! {
    let ck = Check::new("C22", "model_check");
    let th = ck.thorough;
    let t = ck.elapsed();
    routines(&ck, th);
    eprintln!("C22 routines: {:.1} s", (ck.elapsed() - t).as_secs_f64());
    let snaps = snapshots();
    let t = ck.elapsed();
    forged(&ck, &snaps);
    eprintln!("C22 forged: {:.1} s", (ck.elapsed() - t).as_secs_f64());
    let t = ck.elapsed();
    let v = cases(th);
    v.par_iter().with_max_len(4).for_each(|(f, c)| {
        if ck.stopped() {
            return;
        }
        ck.eval(f);
        ck.state(&c.tx.encode_with(c.sig.unwrap_or_default()));
        let d = || format!("{f}: {:?}, {} data bytes, signature {:?}, transaction number {}", Tx { data: vec![], ..c.tx.clone() }, c.tx.data.len(), c.sig, c.earlier);
        match vc::catch(|| with_vm(|m| parse(m, c, &snaps, &ck))) {
            Ok(Ok(())) => ck.sample(f, || json!(d())),
            Ok(Err(e)) => ck.violate(f, format!("{}: {e}", d())),
            Err(e) => ck.violate(f, format!("{}: panic: {e}", d())),
        }
    });
    eprintln!("C22 transactions: {} in {:.1} s", v.len(), (ck.elapsed() - t).as_secs_f64());
    ck.finish(
        "one state per item and per transaction; transitions are machine steps",
        json!({"item_lengths": "0..1100 (quick), 0..70000 (thorough), around 2^16, 2^24, 2^31", "data_bytes": "0..290 and up to 65537", "access_list_entries": 3, "transaction_index": 256}),
        &["the reference encodings of the harness state RLP and the transaction formats", "items are canonically encoded"],
    )
}
