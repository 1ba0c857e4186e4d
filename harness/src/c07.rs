//! C07: markers.
use crate::util::*;

const BETWEEN: [&str; 14] = [
    ": aB 1 ;",
    "variable b!",
    "create dup 3 allot",
    "7 constant `c",
    "marker m2 : x1 x0 ; create M",
    "marker M2 create x1 variable aB m2",
    ": m 1 ; : m m 1+ ;",
    ": x0 x0 1+ ; immediate",
    ": bad if ;",
    "defer swap 3 constant over",
    ": drop drop ; 2.5e0 fconstant pi",
    "create x0 does>",
    "+",
    ": um m ;",
];
const EXTRA: [&str; 12] = ["aB", "b!", "`c", "m2", "M", "m", "x1", "x0", "bad", "um", "pi", "swap"];

struct Before {
    words: usize,
    here: usize,
    found: Vec<Option<usize>>,
    extra: Vec<Option<usize>>,
}
fn name_of(vm: &mut VM, i: usize) -> Vec<u8> {
    let nfa = vm.wordlist()[i].nfa();
    unsafe { vm.data_space().get_str(nfa) }.as_bytes().to_vec()
}
fn look(vm: &mut VM, n: &[u8]) -> Option<usize> {
    vm.find(unsafe { std::str::from_utf8_unchecked(n) })
}
fn record(vm: &mut VM) -> Before {
    let words = vm.wordlist().len();
    let mut found = vec![];
    for i in 1..words {
        let n = name_of(vm, i);
        found.push(look(vm, &n));
    }
    let mut extra = vec![];
    for n in EXTRA.iter() {
        extra.push(vm.find(n));
    }
    Before { words, here: here(vm), found, extra }
}
fn restored(vm: &mut VM, b: &Before) {
    ck(1, vm.wordlist().len() == b.words);
    ck(2, here(vm) == b.here);
    let mut same = true;
    for i in 1..b.words {
        let n = name_of(vm, i);
        same &= look(vm, &n) == b.found[i - 1];
    }
    ck(3, same);
    let mut same = true;
    for (i, n) in EXTRA.iter().enumerate() {
        same &= vm.find(n) == b.extra[i];
    }
    ck(4, same);
}

/// Any `arg`-th kind of definition and any two more in between.
fn explore(vm: &mut VM, arg: u64, n: usize) {
    let (k, v) = (cell(), cell());
    good(vm, "variable x0 : aB 41 ; : aB aB 1+ ;", 90);
    let off = choice(3);
    good(vm, ["", "create z 1 allot", "create z 15 allot"][off], 90);
    sset(vm, &[k]);
    good(vm, "constant kk", 90);
    let b = record(vm);
    // everything up to here stays as it is
    let probe = start(vm) + 8 + choice(2) * (b.here - start(vm) - 200);
    let probe_end = probe + 190;
    good(vm, "marker m", 5);
    let m = xt(vm, "m");
    ck(6, m == b.words);
    let mut vis = m;
    let mut um = false;
    for i in 0..n {
        let c = if i == 0 { arg as usize } else { choice(BETWEEN.len() + 1) };
        if c == BETWEEN.len() {
            break;
        }
        eval(vm, BETWEEN[c]);
        recover(vm);
        um |= c == 13;
        vis = match vm.find("m") {
            Some(w) => w,
            None => 0,
        };
    }
    let mut before = vec![];
    for a in probe..probe_end {
        before.push(peek8(a));
    }
    // a cell changes meanwhile
    let x0 = vm.wordlist()[b.extra[7].unwrap()].dfa();
    poke(x0, v);
    for a in x0..x0 + 8 {
        if a >= probe && a < probe_end {
            before[a - probe] = peek8(a);
        }
    }
    let z = cell();
    sset(vm, &[z]);
    if um && vm.find("um").is_some() && choice(2) == 0 {
        eval(vm, "um");
        // (um runs what m was then: the marker, unless m was redefined before)
        if vm.wordlist().len() > b.words {
            recover(vm);
            call_xt(vm, m);
            ck(7, quiet(vm));
        } else {
            ck(8, quiet(vm) && sis(vm, &[z]));
        }
    } else if vis == m {
        eval(vm, "m");
        ck(9, quiet(vm) && sis(vm, &[z]));
    } else {
        call_xt(vm, m);
        ck(10, quiet(vm) && sis(vm, &[z]));
    }
    restored(vm, &b);
    let mut same = true;
    for a in probe..probe_end {
        same &= peek8(a) == before[a - probe];
    }
    ck(11, same);
    // old and new definitions work
    recover(vm);
    good(vm, "kk aB x0 @", 12);
    ck(13, sis(vm, &[k, 42, v]));
    sset(vm, &[z]);
    good(vm, "constant m2 : aB aB m2 ; immediate : n1 aB ; n1 variable x1 x1 x0 =", 14);
    ck(15, sis(vm, &[42, z, 42, z, 0]) | sis(vm, &[42, z, 0]));
    // again
    recover(vm);
    let b2 = record(vm);
    good(vm, "marker m : dup 5 ; : x1 dup ; m", 16);
    restored(vm, &b2);
    reach(1);
}
pub extern "C" fn h_c07_two(vm: *mut VM, arg: u64) {
    explore(unsafe { &mut *vm }, arg, 2)
}
pub extern "C" fn h_c07_three(vm: *mut VM, arg: u64) {
    explore(unsafe { &mut *vm }, arg, 3)
}

fn group(n: &[u8]) -> u32 {
    let mut h: u32 = 5381;
    for &c in n {
        let big = (c.wrapping_sub(b'A') < 26) as u8;
        h = h.wrapping_mul(33).wrapping_add((c | (big * 32)) as u32);
    }
    h % 64
}
fn up(c: u8) -> u8 {
    let low = (c.wrapping_sub(b'a') < 26) as u8;
    c - low * 32
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        ok &= up(a[i]) == up(b[i]);
    }
    ok
}
fn name(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n {
        let c = any7();
        assume((c > 32) & (c < 127));
        v.push(c);
    }
    v
}
fn define(vm: &mut VM, pre: &str, n: &[u8], post: &str) {
    let mut s = String::with_capacity(64);
    s.push_str(pre);
    s.push_str(unsafe { std::str::from_utf8_unchecked(n) });
    s.push_str(post);
    eval(vm, &s);
}
/// None of the first `n` words is called `t`.
fn fresh(vm: &mut VM, t: &[u8], n: usize) -> bool {
    let mut ok = true;
    for i in 1..n {
        let w = name_of(vm, i);
        if w.len() == t.len() {
            ok &= !same(&w, t);
        }
    }
    ok
}
/// Arbitrary names of two characters, which may share buckets, hash values or
/// spelling: two before the marker, two after it, one looked up.
pub extern "C" fn h_c07_name(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let w0 = vm.wordlist().len();
    let k = [5, 38];
    let mut n = vec![];
    for i in 0..4 {
        let t = name(2);
        assume(group(&t) == k[(arg as usize >> i) & 1]);
        assume(fresh(vm, &t, w0));
        n.push(t);
    }
    let (a, b, c, tok) = (&n[0], &n[1], &n[2], &n[3]);
    define(vm, ": ", a, " 11 ;");
    define(vm, "12 constant ", b, "");
    ck(20, quiet(vm));
    let h = here(vm);
    define(vm, "marker ---- : ", c, " 13 ; variable ----- : ---- ---- ;");
    ck(21, quiet(vm));
    let r = match look(vm, tok) {
        Some(i) => i,
        None => 0,
    };
    let (sa, sb, sc) = (same(tok, a), same(tok, b), same(tok, c));
    let wc = w0 + 3;
    ck(22, (r == wc) == sc);
    eval(vm, "----");
    ck(23, quiet(vm) && here(vm) == h && vm.wordlist().len() == w0 + 2);
    let r = match look(vm, tok) {
        Some(i) => i,
        None => 0,
    };
    ck(24, if r == w0 + 1 {
        sb
    } else if r == w0 {
        sa & !sb
    } else {
        (r == 0) & !sa & !sb
    });
    define(vm, "14 constant ", tok, "");
    ck(25, quiet(vm));
    ck(26, look(vm, tok) == Some(w0 + 2));
    reach(1);
}

/// Names in every bucket, defined after the marker, some of them shadowing
/// names defined before it.
pub extern "C" fn h_c07_buckets(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut names: Vec<String> = vec![];
    for i in 0..24u8 {
        for j in 0..(if arg == 0 { 5u8 } else { 8 }) {
            let mut s = String::from(if arg == 1 { "Q" } else { "q" });
            s.push((b'a' + (i + arg as u8) % 26) as char);
            s.push((if arg == 2 { b'0' } else { b'a' } + j) as char);
            names.push(s);
        }
    }
    let v = cell();
    for (i, n) in names.iter().enumerate() {
        if i % 3 == 0 {
            sset(vm, &[v]);
            let mut s = String::from("constant ");
            s.push_str(n);
            good(vm, &s, 90);
        }
    }
    let b = record(vm);
    good(vm, "marker m", 5);
    for n in names.iter() {
        let mut s = String::from("variable ");
        s.push_str(n);
        good(vm, &s, 91);
    }
    let z = cell();
    sset(vm, &[z]);
    eval(vm, "m");
    ck(9, quiet(vm) && sis(vm, &[z]));
    restored(vm, &b);
    for (i, n) in names.iter().enumerate() {
        if i % 3 == 0 {
            sset(vm, &[z]);
            eval(vm, n);
            ck(20, quiet(vm) && sis(vm, &[z, v]));
        } else {
            ck(21, vm.find(n).is_none());
        }
    }
    reach(1);
}
