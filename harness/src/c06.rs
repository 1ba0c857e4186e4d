//! C06: dictionary search.
use crate::util::*;

fn up(c: u8) -> u8 {
    // ASCII upper case without branching
    let low = (c.wrapping_sub(b'a') < 26) as u8;
    c - low * 32
}
/// Names equal up to ASCII case (lengths are concrete).
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= up(a[i]) == up(b[i]);
    }
    ok
}
/// `r` is the latest visible word called `tok` among the first `n` (0: none).
fn latest(vm: &mut VM, tok: &[u8], r: usize, n: usize) -> bool {
    let mut ok = true;
    for i in 1..n {
        let w = &vm.wordlist()[i];
        if w.is_hidden() {
            ok &= r != i;
            continue;
        }
        let nfa = w.nfa();
        let name = unsafe { vm.data_space().get_str(nfa) }.as_bytes();
        if name.len() != tok.len() {
            ok &= r != i;
            continue;
        }
        if i == r {
            ok &= same(name, tok);
        } else if i > r {
            ok &= !same(name, tok);
        }
    }
    ok & (r < n)
}
fn all(vm: &mut VM) -> usize {
    vm.wordlist().len()
}
fn lookup(vm: &mut VM, tok: &[u8]) -> usize {
    let s = unsafe { std::str::from_utf8_unchecked(tok) };
    match vm.find(s) {
        Some(i) => i,
        None => 0,
    }
}
/// A name of `n` arbitrary visible characters.
fn name(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n {
        let c = any7();
        assume((c > 32) & (c < 127));
        v.push(c);
    }
    v
}
fn define(vm: &mut VM, pre: &str, n: &[u8], post: &str) {
    let mut s = String::with_capacity(64);
    s.push_str(pre);
    s.push_str(unsafe { std::str::from_utf8_unchecked(n) });
    s.push_str(post);
    eval(vm, &s);
}

/// A token of arg characters among all the words of the system.
pub extern "C" fn h_c06_base(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut tok = vec![];
    for _ in 0..arg {
        tok.push(any7());
    }
    let r = lookup(vm, &tok);
    let n = all(vm);
    ck(1, latest(vm, &tok, r, n));
    if r != 0 {
        reach(1);
    }
}

/// Every word of the system is found by its own name in any mixture of cases,
/// and one changed character makes it something else.
pub extern "C" fn h_c06_case(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = vm.wordlist().len();
    let i = 1 + arg as usize * 40 + choice(40);
    if i >= n || vm.wordlist()[i].is_hidden() {
        end();
    }
    let nfa = vm.wordlist()[i].nfa();
    let mut tok = unsafe { vm.data_space().get_str(nfa) }.as_bytes().to_vec();
    for c in tok.iter_mut() {
        let letter = c.is_ascii_alphabetic() as u8;
        *c ^= 32 * letter * (flag() as u8);
    }
    let r = lookup(vm, &tok);
    ck(2, r != 0);
    ck(3, latest(vm, &tok, r, n));
    reach(1);
}

/// The bucket the present hash function puts a name into.  Only used to pick
/// interesting groups of names; the oracle does not depend on it.
fn group(n: &[u8]) -> u32 {
    let mut h: u32 = 5381;
    for &c in n {
        let big = (c.wrapping_sub(b'A') < 26) as u8;
        h = h.wrapping_mul(33).wrapping_add((c | (big * 32)) as u32);
    }
    h % 64
}
/// Words with arbitrary names are defined (colon, create, constant), and an
/// arbitrary token is looked up.  The names are of two groups; within a group
/// they may share bucket, hash value, or spelling.
pub extern "C" fn h_c06_new(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = 1 + (arg % 3) as usize;
    let kind = arg / 3;
    let w0 = vm.wordlist().len();
    let a = name(n);
    let b = name(n);
    let tok = name(n);
    let k = [5, 38];
    assume(group(&a) == k[0]);
    assume(group(&b) == k[choice(2)]);
    assume(group(&tok) == k[choice(2)]);
    // not one of the system's words: they would be redefined, which is fine,
    // but : could then not be used afterwards
    assume(latest(vm, &a, 0, w0));
    assume(latest(vm, &b, 0, w0));
    assume(latest(vm, &tok, 0, w0));
    match kind {
        0 => {
            define(vm, ": ", &a, " 11 ;");
            define(vm, "22 constant ", &b, "");
        }
        1 => {
            // the second is still in progress
            define(vm, ": ", &a, " 11 ;");
            define(vm, ": ", &b, " 33");
        }
        _ => {
            // the second was abandoned
            define(vm, "create ", &a, "");
            define(vm, ": ", &b, " if ;");
            ck(4, !quiet(vm));
            recover(vm);
        }
    }
    ck(5, quiet(vm));
    ck(6, vm.wordlist().len() >= w0 + 1);
    let r = lookup(vm, &tok);
    let wa = w0;
    let wb = w0 + 1;
    let sa = same(&tok, &a);
    let sb = same(&tok, &b);
    // without branching on the names
    let is = |r: usize, b_visible: bool| {
        if r == wb {
            sb & b_visible
        } else if r == wa {
            sa & !(sb & b_visible)
        } else {
            (r == 0) & !sa & !(sb & b_visible)
        }
    };
    ck(7, is(r, kind == 0));
    if kind == 1 {
        // completed
        eval(vm, ";");
        ck(9, quiet(vm));
        let r = lookup(vm, &tok);
        ck(10, is(r, true));
    }
    reach(1);
}
/// Fixed scenes (redefinition of system words, equal hash values, other
/// alphabets), any token.
pub extern "C" fn h_c06_scene(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let scenes: [(&str, usize); 8] = [
        (": dup 1 ; create swap 5 constant DROP", 4),
        // equal hash values: c*33+d
        ("1 constant aB 2 constant b! 3 constant `c 4 constant AB", 2),
        ("create q1 create q2 create q3 create q1 marker q2", 2),
        (": over 1 ; : x1 over ; : over", 4),
        (": dup dup", 3),
        ("1 constant \u{e9} 2 constant \u{c9}", 2),
        (": x if ; ", 1),
        ("create x create y : y [ create z", 1),
    ];
    let (src, n) = scenes[arg as usize];
    eval(vm, src);
    if arg == 5 {
        // other characters are compared as they are
        let w = vm.wordlist().len();
        ck(11, vm.find("\u{e9}") == Some(w - 2));
        ck(12, vm.find("\u{c9}") == Some(w - 1));
        ck(13, vm.find("\u{e8}") == None);
    }
    let mut tok = vec![];
    for _ in 0..n {
        tok.push(any7());
    }
    if n == 4 {
        // (only those sharing a bucket with these: see h_c06_base for others)
        let near: [&[u8]; 3] = [b"drop", b"over", b"swap"];
        assume(group(&tok) == group(near[choice(3)]));
    }
    let r = lookup(vm, &tok);
    let m = all(vm);
    ck(14, latest(vm, &tok, r, m));
    reach(1);
}

/// Through the interpreter: ' and execution see the same word.
pub extern "C" fn h_c06_tick(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = arg as usize;
    good(vm, ": va 11 ; : vb 22 ; : VA 33 ;", 20);
    let t = name(n);
    define(vm, "' ", &t, "");
    let m = all(vm);
    if quiet(vm) {
        ck(21, vm.s_stack().len() == 1);
        let r = sget(vm, 0) as usize;
        ck(22, r != 0 && latest(vm, &t, r, m));
    } else {
        ck(23, err(vm) == code(UNDEFINED_WORD) && vm.s_stack().len() == 0);
        ck(24, latest(vm, &t, 0, m));
    }
    reach(1);
}
