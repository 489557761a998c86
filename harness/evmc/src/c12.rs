//! C12: a reverted call frame leaves no trace.
use std::collections::BTreeMap;

use vc::rayon::prelude::*;
use vc::{Check, U256};

use crate::asm::*;
use crate::batch::*;
use crate::prog::*;
use crate::refevm::*;

// What a script can do, one byte each.
const EFFECTS: u8 = 16;
const PROBE: u8 = 0x1e;
const REVERT_: u8 = 0x1d;
const INVALID_: u8 = 0x1c;
const NAMES: [&str; 16] = [
    "clear slot 0", "slot 0 := 7", "slot 1 := 1", "slot 0 := 5", "transient 0 += 3", "log", "send 3 to an absent account", "touch an absent account", "read a balance", "read slot 2",
    "create", "create, failing", "create what destroys itself", "create and call what destroys itself", "create at a fixed address", "self-destruct",
];
const KINDS: [(u8, u64, &str); 5] = [(0xf1, 0, "CALL"), (0xf1, 2, "CALL with value"), (0xf4, 0, "DELEGATECALL"), (0xf2, 1, "CALLCODE"), (0xfa, 0, "STATICCALL")];

/// Contracts that do what a script tells them.
fn scripted(i: u64) -> Addr {
    addr20(0xd0, i)
}
fn root() -> Addr {
    addr20(0xcc, 1)
}
fn dies() -> Code {
    Code::new().o(CALLER).o(SELFDESTRUCT)
}
#[derive(Default)]
struct Asm {
    c: Vec<u8>,
    at: BTreeMap<usize, usize>,
    fix: Vec<(usize, usize)>,
}
impl Asm {
    fn put(&mut self, c: Code) -> &mut Self {
        self.c.extend(c.0);
        self
    }
    fn here(&mut self, l: usize) -> &mut Self {
        self.at.insert(l, self.c.len());
        self.c.push(JUMPDEST);
        self
    }
    fn to(&mut self, l: usize, op: u8) -> &mut Self {
        self.c.extend([0x61, 0, 0]);
        self.fix.push((self.c.len() - 2, l));
        self.c.push(op);
        self
    }
    fn done(mut self) -> Vec<u8> {
        for (p, l) in &self.fix {
            self.c[*p..*p + 2].copy_from_slice(&(self.at[l] as u16).to_be_bytes());
        }
        self.c
    }
}
fn c() -> Code {
    Code::new()
}
fn call(to: Addr, value: u64) -> Code {
    c().p(0).p(0).p(0).p(0).p(value).p(to).p(100_000).o(0xf1).o(POP)
}
/// The code of an effect; leaves the stack as it was.
fn effect(e: u8) -> Code {
    let absent = addr20(0xe9, 9);
    let create = |init: Code, value: u64, op2: Option<u64>, then: Code| {
        let n = init.0.len();
        let x = c().mem(0, &init.0);
        match op2 {
            Some(salt) => x.p(salt).p(n).p(0).p(value).o(0xf5),
            None => x.p(n).p(0).p(value).o(0xf0),
        }
        .c(&then)
    };
    let pop = c().o(POP);
    match e {
        0 => c().sstore(0, 0),
        1 => c().sstore(0, 7),
        2 => c().sstore(1, 1),
        3 => c().sstore(0, 5),
        4 => c().p(3).p(0).os(&[TLOAD, ADD]).p(0).o(TSTORE),
        5 => c().p(7).p(5).p(0).o(0xa1),
        6 => call(absent, 3),
        7 => call(addr20(0xe8, 8), 0),
        8 => c().p(addr20(0xe7, 7)).os(&[0x31, POP]),
        9 => c().p(2).os(&[SLOAD, POP]),
        10 => create(c().sstore(0, 1).p(8).p(0).o(TSTORE).ret(&[0]), 1, None, pop),
        11 => create(c().sstore(0, 1).c(&call(absent, 1)).p(0).p(0).o(REVERT), 2, None, pop),
        12 => create(c().c(&dies()), 1, None, pop),
        13 => create(c().ret(&dies().0), 1, None, c().p(0).p(0).p(0).p(0).p(0).os(&[0x85, GAS, 0xf1, POP, POP])),
        14 => create(c().ret(&[0]), 0, Some(4), pop),
        15 => c().p(addr20(0xe6, 6)).o(SELFDESTRUCT),
        PROBE => {
            let mut x = c();
            for k in 0..3u64 {
                x = x.p(k).os(&[SLOAD, POP]);
            }
            x = x.p(0).os(&[TLOAD, POP, 0x47, POP]);
            for i in [9u64, 8, 7, 6] {
                x = x.p(addr20(0xe0 + i as u8, i)).os(&[0x80, 0x31, POP, 0x3f, POP]);
            }
            // What the next creation of this contract would be: its nonce.
            x.p(0).p(0).p(0).os(&[0xf0, POP])
        }
        INVALID_ => c().o(INVALID),
        REVERT_ => c().p(0).p(0).o(REVERT),
        _ => unreachable!(),
    }
}
/// The code that runs a script: its input.
fn interpreter() -> Vec<u8> {
    let mut a = Asm::default();
    a.put(c().p(0));
    a.here(1000).put(c().os(&[CALLDATASIZE, 0x81, 0x10])).to(1001, 0x57).put(c().o(STOP)); // i < size
    a.here(1001).put(c().os(&[0x80, CALLDATALOAD]).p(0).os(&[0x1a, 0x90]).p(1).os(&[ADD, 0x90])); // op, i + 1
    let mut ops: Vec<u8> = (0..EFFECTS).collect();
    ops.extend([PROBE, REVERT_, INVALID_]);
    ops.extend((0..KINDS.len() as u8).map(|k| 0x20 + k));
    for op in &ops {
        a.put(c().o(0x80).p(*op as u64).o(0x14)).to(*op as usize, 0x57);
    }
    a.put(c().o(INVALID));
    for op in &ops {
        a.here(*op as usize).put(c().o(POP)); // i
        if *op < 0x20 {
            a.put(effect(*op)).to(1000, 0x56);
            continue;
        }
        let (code, value, _) = KINDS[*op as usize - 0x20];
        // i -> len, i, mem[0..len] = script
        a.put(c().o(0x80).p(1).os(&[ADD, CALLDATALOAD]).p(0).o(0x1a)); // len, i
        a.put(c().os(&[0x80, 0x82]).p(2).os(&[ADD]).p(0).o(CALLDATACOPY));
        a.put(c().p(0).p(0).os(&[0x82]).p(0)); // 0, len, 0, 0, len, i
        if code == 0xf1 || code == 0xf2 {
            a.put(c().p(value));
        }
        // target
        let depth = if code == 0xf1 || code == 0xf2 { 7 } else { 6 };
        a.put(c().o(0x80 + depth - 1).o(CALLDATALOAD).p(0).o(0x1a).p(scripted(0)).o(ADD));
        a.put(c().p(3_000_000).o(code).o(POP)); // len, i
        a.put(c().o(ADD).p(2).o(ADD)).to(1000, 0x56);
    }
    a.done()
}
fn open(kind: u8, target: u64, script: &[u8]) -> Vec<u8> {
    let mut v = vec![0x20 + kind, target as u8, script.len() as u8];
    v.extend(script);
    v
}
fn tell(s: &[u8]) -> String {
    let mut i = 0;
    let mut v = vec![];
    while i < s.len() {
        v.push(match s[i] {
            INVALID_ => "fail".to_string(),
            REVERT_ => "revert".to_string(),
            PROBE => "look".to_string(),
            x if x >= 0x20 => {
                let n = s[i + 2] as usize;
                let t = format!("{} {} [{}]", KINDS[x as usize - 0x20].2, s[i + 1], tell(&s[i + 3..i + 3 + n]));
                i += 2 + n;
                t
            }
            x => NAMES[x as usize].to_string(),
        });
        i += 1;
    }
    v.join(", ")
}
fn base() -> Batch {
    let mut b = Batch { world: base_world(), block: base_block(), ..Batch::default() };
    let code = interpreter();
    let w = &mut b.world;
    w.insert(address_of(7), Acct { balance: U256::exp10(20), nonce: 5, ..Acct::default() });
    let st: BTreeMap<U256, U256> = [(0.into(), 5.into())].into();
    w.insert(root(), Acct { nonce: 1, balance: 1000.into(), code: vec![0xfe], storage: st.clone() });
    for i in 0..4 {
        w.insert(scripted(i), Acct { nonce: 1 + i, balance: (100 + i).into(), code: code.clone(), storage: st.clone() });
    }
    w.insert(addr20(0xe7, 7), Acct { balance: 5.into(), ..Acct::default() });
    // Code that is created later.
    w.insert(addr20(0xee, 1), Acct { nonce: 1, code: dies().0, ..Acct::default() });
    w.insert(addr20(0xee, 2), Acct { nonce: 1, code: vec![0], ..Acct::default() });
    b.txs.push(Tx { ty: 2, chain_id: Some(1), nonce: 5, tip: 1.into(), max_fee: 20.into(), gas: 30_000_000, to: Some(root()), value: 3.into(), key: 7, ..Tx::default() });
    b
}
/// The root contract runs a script that starts with its own effects.
fn root_code(script: &[u8]) -> Vec<u8> {
    let mut x = c();
    let mut i = 0;
    while i < script.len() {
        if script[i] < 0x20 {
            x = x.c(&effect(script[i]));
            i += 1;
            continue;
        }
        let n = script[i + 2] as usize;
        let (op, value, _) = KINDS[script[i] as usize - 0x20];
        x = x.mem(0, &script[i + 3..i + 3 + n]).p(0).p(0).p(n).p(0);
        if op == 0xf1 || op == 0xf2 {
            x = x.p(value);
        }
        x = x.p(scripted(script[i + 1] as u64)).p(9_000_000).o(op).o(POP);
        i += 3 + n;
    }
    x.0
}
struct Job {
    family: &'static str,
    script: Vec<u8>,
    finish: bool,
}
/// Afterwards all contracts look around.
fn probes(targets: &[u64]) -> Vec<u8> {
    let mut v = vec![PROBE];
    for t in targets {
        v.extend(open(0, *t, &[PROBE]));
    }
    v
}
const ENDS: [&[u8]; 3] = [&[], &[REVERT_], &[INVALID_]];

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
fn jobs(th: bool) -> Vec<Job> {
    let mut v = vec![];
    let hidden = |s: &[u8]| s.iter().any(|e| matches!(e, 5 | 7 | 10..=15));
    // One frame: every pair of effects, in every kind of call, with every end,
    // after and before an effect of the caller.
    for a in 0..EFFECTS {
        for b in (0..EFFECTS).map(Some).chain([None]) {
            for (ki, _) in KINDS.iter().enumerate() {
                for (ei, e) in ENDS.iter().enumerate() {
                    let mut s = vec![a];
                    s.extend(b);
                    s.extend(*e);
                    if !th && b.is_some() && (ki > 2 || ei == 2 && ki != 0) {
                        continue;
                    }
                    let fin = hidden(&s) && (th || b.is_none() || (a as usize + b.unwrap() as usize + ki + ei) % 4 == 0);
                    v.push(Job { family: "one frame", script: cat(&[&open(ki as u8, 1, &s), &probes(&[1])]), finish: fin });
                }
            }
        }
    }
    for pre in 0..15u8 {
        for a in 0..EFFECTS {
            for ki in if th { vec![0u8, 2, 3] } else { vec![0, 2] } {
                for e in &ENDS[..2] {
                    let s = cat(&[&[a], e]);
                    let fin = th || (pre + a + ki) % 9 == 0;
                    v.push(Job { family: "before and after", script: cat(&[&[pre], &open(ki, 1, &s), &[(a + pre) % 15], &probes(&[1])]), finish: fin });
                }
            }
        }
    }
    // Two frames within one another.
    let some: Vec<u8> = if th { (0..16).collect() } else { vec![0, 1, 4, 6, 10] };
    for a in &some {
        for b in &some {
            for d in &some {
                for (k, t) in [(0u8, 1u64), (0, 2), (2, 2), (3, 2), (2, 1)] {
                    for e2 in &ENDS {
                        for e1 in &ENDS {
                            let h = *a as usize + 3 * *b as usize + 5 * *d as usize + k as usize + e1.len() + e2.len();
                            if !th && h % 3 != 0 {
                                continue;
                            }
                            let inner = cat(&[&[*b], e2]);
                            let outer = cat(&[&[*a], &open(k, t, &inner), &[*d], e1]);
                            v.push(Job { family: "two frames", script: cat(&[&open(0, 1, &outer), &probes(&[1, 2])]), finish: if th { h % 4 == 0 } else { h % 16 == 0 } });
                        }
                    }
                }
            }
        }
    }
    // Everything that is seen only at the end, in every order.
    for a in [5u8, 10, 12, 13, 14, 15, 7] {
        for b in [5u8, 10, 12, 13, 14, 15, 7, 6] {
            for e2 in &ENDS[..2] {
                for e1 in &ENDS[..2] {
                    let outer = cat(&[&[5], &open(0, 2, &cat(&[&[b], e2])), &[a], e1]);
                    v.push(Job { family: "ends", script: cat(&[&open(0, 1, &outer), &open(2, 1, &[5, 14]), &probes(&[2])]), finish: true });
                }
            }
        }
    }
    // Three frames within one another.
    let few: &[u8] = if th { &[0, 1, 2, 4, 6, 12, 15] } else { &[1, 4] };
    for a in few {
        for b in few {
            for d in few {
                for e in 0..27usize {
                    for t in [[1u64, 2, 3], [1, 2, 1]] {
                        for k in [0u8, 2] {
                            let f3 = cat(&[&[*d], ENDS[e / 9]]);
                            let f2 = cat(&[&[*b], &open(k, t[2], &f3), &[*a], ENDS[e / 3 % 3]]);
                            let f1 = cat(&[&[*a], &open(0, t[1], &f2), &[*b], ENDS[e % 3]]);
                            v.push(Job { family: "three frames", script: cat(&[&open(0, t[0], &f1), &probes(&[1, 2, 3])]), finish: e % 9 == 4 });
                        }
                    }
                }
            }
        }
    }
    // Frames beside one another: each may be undone.
    for a in &some {
        for b in &some {
            for e in 0..27usize {
                let fr = |x: u8, e: usize, t: u64| open(0, t, &cat(&[&[x], ENDS[e]]));
                let t = if (a + b) % 2 == 0 { [1u64, 1, 1] } else { [1, 2, 1] };
                let inner = cat(&[&fr(*a, e / 9, t[0]), &fr(*b, e / 3 % 3, t[1]), &[*a]]);
                v.push(Job { family: "frames in a row", script: cat(&[&open(0, 3, &cat(&[&inner, ENDS[e % 3]])), &fr(*b, 0, t[2]), &probes(&[1, 2])]), finish: e % 9 == 4 });
            }
        }
    }
    v
}

pub fn run() -> ! {
    let ck = Check::new("C12", "model_check");
    let v = jobs(ck.thorough);
    let only = std::env::var("VERIF_ONLY").ok();
    thread_local! { static P: std::cell::RefCell<Option<Prog>> = const { std::cell::RefCell::new(None) }; }
    v.par_iter().with_min_len(4).for_each(|j| {
        if ck.stopped() || only.as_ref().is_some_and(|o| o != j.family) {
            return;
        }
        let code = root_code(&j.script);
        ck.eval(j.family);
        let r = vc::catch(|| P.with(|p| p.borrow_mut().get_or_insert_with(|| Prog::new(base())).run_told(&ck, &code, 29_000_000, j.finish, j.family, &|| tell(&j.script))));
        match r {
            Ok(o) => ck.sample(j.family, || vc::json!({"frames": tell(&j.script), "gas": o.map(|o| o.gas), "to_the_end": j.finish})),
            Err(e) => ck.violate(j.family, format!("{}: panic: {e}", tell(&j.script))),
        }
    });
    let n = v.len();
    ck.finish(
        "one state per script of nested frames; transitions are machine steps",
        vc::json!({"scripts": n, "effects": NAMES, "kinds": KINDS.map(|k| k.2), "nesting": 3}),
        &["the reference EVM of the harness states the specification (Cancun)"],
    )
}
