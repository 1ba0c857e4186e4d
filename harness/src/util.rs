//! Helpers shared by the harnesses.  Everything goes through rtforth's public
//! interface: words are found by name and executed by the interpreter.
pub use crate::sym::*;
pub use rtforth::core::{Control, Core};
pub use rtforth::exception::*;
pub use rtforth::loader::HasLoader;
pub use rtforth::memory::Memory;
pub use rtforth::mock_vm::VM;
#[allow(unused_imports)]
pub use rtforth::{FALSE, NUM_TASKS, TRUE};

/// Interprets `s` as one line of the user input buffer.
pub fn eval(vm: &mut VM, s: &str) {
    vm.set_source(s);
    vm.evaluate_input();
}
/// As `eval`, and nothing may go wrong.
pub fn good(vm: &mut VM, s: &str, id: u32) {
    eval(vm, s);
    ck(id, vm.last_error().is_none());
}
pub fn err(vm: &VM) -> isize {
    match vm.last_error() {
        Some(e) => e.into(),
        None => 0,
    }
}
pub fn code(e: Exception) -> isize {
    e.into()
}
pub fn xt(vm: &mut VM, name: &str) -> usize {
    vm.find(name).expect("a word of the dictionary")
}
/// Executes one word the way a definition would.
pub fn call(vm: &mut VM, name: &str) {
    let w = xt(vm, name);
    vm.state().instruction_pointer = 0;
    vm.execute_word(w);
    vm.run();
}
/// Calls a word by its execution token.
pub fn call_xt(vm: &mut VM, w: usize) {
    vm.state().instruction_pointer = 0;
    vm.execute_word(w);
    vm.run();
}

pub fn sset(vm: &mut VM, v: &[isize]) {
    vm.s_stack().reset();
    for x in v {
        vm.s_stack().push(*x);
    }
}
pub fn fset(vm: &mut VM, v: &[f64]) {
    vm.f_stack().reset();
    for x in v {
        vm.f_stack().push(*x);
    }
}
pub fn rset(vm: &mut VM, v: &[isize]) {
    vm.r_stack().reset();
    for x in v {
        vm.r_stack().push(*x);
    }
}
pub fn sget(vm: &mut VM, i: usize) -> isize {
    vm.s_stack().as_slice()[i]
}
/// The data stack holds exactly `v`, bottom first.
pub fn sis(vm: &mut VM, v: &[isize]) -> bool {
    let s = vm.s_stack().as_slice();
    if s.len() != v.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..v.len() {
        ok &= s[i] == v[i];
    }
    ok
}
pub fn ris(vm: &mut VM, v: &[isize]) -> bool {
    let s = vm.r_stack().as_slice();
    if s.len() != v.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..v.len() {
        ok &= s[i] == v[i];
    }
    ok
}
/// Equal as bit patterns, all NaNs alike.
pub fn feq(a: f64, b: f64) -> bool {
    (a.to_bits() == b.to_bits()) | ((a != a) & (b != b))
}
pub fn fis(vm: &mut VM, v: &[f64]) -> bool {
    let s = vm.f_stack().as_slice();
    if s.len() != v.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..v.len() {
        ok &= feq(s[i], v[i]);
    }
    ok
}
pub fn quiet(vm: &mut VM) -> bool {
    vm.last_error().is_none()
}
/// Error gone, stacks empty, source empty.
pub fn recover(vm: &mut VM) {
    vm.reset();
    vm.clear_stacks();
}
/// What is in the output buffer.
pub fn out(vm: &mut VM) -> Vec<u8> {
    match vm.output_buffer().as_ref() {
        Some(b) => b.as_bytes().to_vec(),
        None => vec![],
    }
}
pub fn clear_out(vm: &mut VM) {
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear()
    }
}
/// Byte-wise equality without branching on the bytes.
pub fn beq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
pub fn flag_of(c: bool) -> isize {
    if c {
        -1
    } else {
        0
    }
}
/// A text of `n` characters from one byte each (7-bit), as a String.
pub fn ascii_text(n: usize) -> String {
    let mut v: Vec<u8> = Vec::with_capacity(n + 1);
    for _ in 0..n {
        v.push(any7());
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn start(vm: &mut VM) -> usize {
    vm.data_space().start()
}
pub fn limit(vm: &mut VM) -> usize {
    vm.data_space().limit()
}
pub fn here(vm: &mut VM) -> usize {
    vm.data_space().here()
}
/// One byte of memory, read behind the machine's back.
pub fn peek8(a: usize) -> u8 {
    unsafe { *(a as *const u8) }
}
pub fn peek(a: usize) -> isize {
    unsafe { std::ptr::read_unaligned(a as *const isize) }
}
pub fn poke8(a: usize, v: u8) {
    unsafe { *(a as *mut u8) = v }
}
pub fn poke(a: usize, v: isize) {
    unsafe { std::ptr::write_unaligned(a as *mut isize, v) }
}
pub fn set_base(vm: &mut VM, b: isize) {
    let a = vm.data_space().system_variables().base_addr();
    poke(a, b);
}
/// Where the machine keeps its clock, in nanoseconds: what `advance` changes.
pub fn clock(vm: &mut VM) -> *mut u64 {
    let p = vm as *mut VM as *mut u64;
    let n = std::mem::size_of::<VM>() / 8;
    let mut was = vec![];
    unsafe {
        for i in 0..n {
            was.push(std::ptr::read_volatile(p.add(i)));
        }
        vm.advance();
        for i in 0..n {
            if std::ptr::read_volatile(p.add(i)) == was[i].wrapping_add(1_000_000) {
                *p.add(i) = was[i];
                return p.add(i);
            }
        }
    }
    stuck(99)
}
