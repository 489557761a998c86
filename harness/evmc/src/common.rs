//! What the checks of the virtual machine share.
use std::collections::HashMap;
use std::sync::OnceLock;

use evm_arithmetization::verif_hooks::vm::{self, Stop, Vm};
use vc::U256;

pub const HALT: usize = 0xdeadbeef;

pub struct Names {
    pub seg: HashMap<String, usize>,
    pub global: HashMap<String, usize>,
    pub ctx: HashMap<String, usize>,
    pub txn: HashMap<String, usize>,
}
pub fn names() -> &'static Names {
    static N: OnceLock<Names> = OnceLock::new();
    N.get_or_init(|| Names {
        seg: vm::segments().into_iter().enumerate().map(|(i, (n, _))| (n, i)).collect(),
        global: vm::global_metadata().into_iter().collect(),
        ctx: vm::context_metadata().into_iter().collect(),
        txn: vm::txn_fields().into_iter().collect(),
    })
}
pub fn seg(n: &str) -> usize {
    *names().seg.get(n).unwrap_or_else(|| panic!("no segment {n}"))
}
/// The scaled address of a cell of context 0.
pub fn addr(segment: &str, virt: usize) -> U256 {
    (U256::from(seg(segment)) << 32) + virt
}
pub fn label(n: &str) -> usize {
    *vm::kernel_labels().get(n).unwrap_or_else(|| panic!("no label {n}"))
}
pub fn set_ctx_meta(vm: &mut Vm, ctx: usize, field: &str, v: U256) {
    let f = *names().ctx.get(field).unwrap_or_else(|| panic!("no context field {field}"));
    vm.set(ctx, seg("ContextMetadata"), f, v)
}
pub fn set_global(vm: &mut Vm, field: &str, v: U256) {
    let f = *names().global.get(field).unwrap_or_else(|| panic!("no global field {field}"));
    vm.set(0, seg("GlobalMetadata"), f, v)
}
pub fn get_global(vm: &Vm, field: &str) -> U256 {
    let f = *names().global.get(field).unwrap_or_else(|| panic!("no global field {field}"));
    vm.get(0, seg("GlobalMetadata"), f)
}

/// Runs a kernel routine: `args[0]` is on top of the stack, the return
/// address below them, `below` further down. Gives the stack above `below`,
/// top first.
pub fn call(vm: &mut Vm, name: &str, args: &[U256], below: &[U256], max: usize) -> Result<Vec<U256>, String> {
    let mut st = below.to_vec();
    st.push(HALT.into());
    st.extend(args.iter().rev());
    run_stack(vm, name, st, below, max)
}
/// The same for routines whose arguments do not end with a return address in
/// the usual place: the whole stack is given.
pub fn run_stack(vm: &mut Vm, name: &str, st: Vec<U256>, below: &[U256], max: usize) -> Result<Vec<U256>, String> {
    vm.set_stack(&st);
    vm.set_pc(label(name));
    vm.set_kernel(true);
    match vm.run(&[HALT], max) {
        Stop::Halted(_) => {}
        s => return Err(format!("{name}: {s:?} at {}", vm::offset_name(vm.regs().pc))),
    }
    let s = vm.stack();
    if s.len() < below.len() || s[..below.len()] != *below {
        return Err(format!("{name} disturbed the stack below its arguments: {s:?}"));
    }
    let mut r = s[below.len()..].to_vec();
    r.reverse();
    Ok(r)
}
pub fn words(a: &[U256]) -> String {
    a.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(", ")
}
/// A machine made once per thread and kept.
pub fn with_vm<T>(f: impl FnOnce(&mut Vm) -> T) -> T {
    thread_local! { static V: std::cell::RefCell<Option<Vm>> = const { std::cell::RefCell::new(None) }; }
    V.with(|v| {
        let mut v = v.borrow_mut();
        f(v.get_or_insert_with(|| Vm::new(0, vec![])))
    })
}
