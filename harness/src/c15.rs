//! C15: compiling a phrase and executing it equals interpreting it.
use crate::util::*;

/// Words and phrases without parsing and without compile-only words.  `v` is
/// an area of four cells, `k` makes an address of it out of any number.
const POOL: [&str; 153] = [
    "dup", "drop", "swap", "over", "nip", "tuck", "rot", "-rot", "2dup", "2drop", "2swap", "2over", "?dup", "depth",
    "3 and pick", "+", "-", "*", "/", "mod", "/mod", "and", "or", "xor", "lshift", "rshift", "=", "<>", "<", ">", "<=",
    ">=", "max", "min", "within", "1+", "1-", "2*", "2/", "negate", "abs", "invert", "0=", "0<>", "0<", "0>", "not",
    "true", "false", "max-n", "max-u", "bl", "5", "-1", "$7f", "%101", "'x'", "-9223372036854775808", "0", "1.5e0",
    "-2e-3", "0e", "fdup", "fdrop", "fswap", "fover", "fnip", "frot", "1 fpick", "f+", "f-", "f*", "f/", "f**", "f~",
    "f<", "f>", "f0<", "f0=", "fmin", "fmax", "fabs", "fnegate", "floor", "fround", "fceil", "fsqrt", "fsin", "fcos",
    "ftan", "fasin", "facos", "fatan", "fatan2", "fsincos", "pi", "s>f", "f>s", "v", "k @", "k !", "k +!", "k c@",
    "k c!", "v 2@", "v 2!", "k on", "k off", "v f@", "v f!", "v count", "v 5 rot fill", "v dup 8 + 9 move",
    "base @", "hex base @ decimal", "here", "pad", "cells", "cell+", "char+", "chars", "floats", "float+", "aligned",
    "faligned", "bounds", "/string", "meter", "mm", "um", "deg", "rad", "hr", "minute", "sec", "msec", "usec",
    "mm/min", "mm/sec", "um/msec", "rpm", "hz", "1/sec", "$7f and emit", "space", "cr", "noop", "abort", "0stacks 1 2 3 4 5 6 7 8 0e 1e 2e 3e",
    "me", "compiling?", "source-id", "error",
];

struct Input {
    s: [isize; 12],
    f: [f64; 8],
    m: [isize; 4],
    v: usize,
}
#[derive(PartialEq)]
struct Snap {
    err: isize,
    s: Vec<isize>,
    f: Vec<u64>,
    r: usize,
    c: usize,
    m: Vec<isize>,
    out: Vec<u8>,
    base: isize,
    here: usize,
    words: usize,
    compiling: bool,
    idle: bool,
}

fn input(vm: &mut VM) -> Input {
    // k: any number to one of the seven half-cell positions of v's first 3 1/2 cells
    good(vm, "create v 32 allot : k 24 and v + ; ' bye handler!", 80);
    good(vm, "v", 81);
    let v = sget(vm, 0) as usize;
    sset(vm, &[]);
    Input {
        s: [
            cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell(),
        ],
        f: [float(), float(), float(), float(), float(), float(), float(), float()],
        m: [cell(), cell(), cell(), cell()],
        v,
    }
}
fn set(vm: &mut VM, i: &Input) {
    recover(vm);
    rset(vm, &[]);
    sset(vm, &i.s);
    fset(vm, &i.f);
    for n in 0..4 {
        poke(i.v + 8 * n, i.m[n]);
    }
    set_base(vm, 10);
    clear_out(vm);
}
fn snap(vm: &mut VM, i: &Input) -> Snap {
    let err = err(vm);
    let a = vm.data_space().system_variables().base_addr();
    Snap {
        err,
        s: vm.s_stack().as_slice().to_vec(),
        f: vm.f_stack().as_slice().iter().map(|x| x.to_bits()).collect(),
        r: vm.r_stack().len() as usize,
        c: vm.c_stack().len() as usize,
        m: (0..4).map(|n| peek(i.v + 8 * n)).collect(),
        out: out(vm),
        base: peek(a),
        here: here(vm),
        words: vm.wordlist().len(),
        compiling: vm.state().is_compiling,
        idle: vm.state().instruction_pointer == 0,
    }
}
fn cells_eq(a: &[isize], b: &[isize]) -> bool {
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
fn same(id: u32, a: &Snap, b: &Snap) {
    ck(id, a.err == b.err);
    ck(id + 1, a.s.len() == b.s.len() && cells_eq(&a.s, &b.s));
    ck(id + 2, a.f.len() == b.f.len());
    let mut ok = true;
    for i in 0..a.f.len() {
        ok &= feq(f64::from_bits(a.f[i]), f64::from_bits(b.f[i]));
    }
    ck(id + 2, ok);
    ck(id + 3, cells_eq(&a.m, &b.m));
    ck(id + 4, beq(&a.out, &b.out));
    ck(id + 5, (a.base == b.base) & (a.here == b.here) & (a.words == b.words));
    // after an error the return stack is what `reset` clears
    ck(id + 6, a.err != 0 || a.r == b.r);
    ck(id + 7, a.c == b.c);
    ck(id + 8, a.compiling == b.compiling);
}

/// Phrases in sequence, compiled against interpreted.
fn compare(vm: &mut VM, phrase: &str) {
    let i = input(vm);
    let off = choice(2);
    if off == 1 {
        good(vm, "1 c,", 82);
    }
    good(vm, &[": p ", phrase, " ;"].concat(), 1);
    set(vm, &i);
    eval(vm, phrase);
    let a = snap(vm, &i);
    set(vm, &i);
    eval(vm, "p");
    let b = snap(vm, &i);
    same(2, &a, &b);
    reach(1);
}

/// Two of the pool: the one `arg`, and any.
pub extern "C" fn h_c15_pair(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = choice(POOL.len());
    let w = POOL[arg as usize];
    // f~ decides on exact differences: not on computed floats
    if POOL[n] == "f~" && arg > 60 && arg < 145 && arg != 74 {
        end()
    }
    compare(vm, &[w, " ", POOL[n]].concat());
}
/// Four: every `arg`-th of the pool one after the other, round and round.
pub extern "C" fn h_c15_chain(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = choice(POOL.len());
    let step = arg as usize;
    let k = POOL.len();
    for d in 1..4 {
        if POOL[(n + d * step) % k] == "f~" {
            end()
        }
    }
    let t = [
        POOL[n], " ", POOL[(n + step) % k], " ", POOL[(n + 2 * step) % k], " ", POOL[(n + 3 * step) % k],
    ]
    .concat();
    compare(vm, &t);
}
/// The other ways to get at the effect of a word.
pub extern "C" fn h_c15_forms(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut n = choice(16) + 16 * arg as usize;
    if n >= POOL.len() {
        n = 0;
    }
    let w = POOL[n];
    let i = input(vm);
    set(vm, &i);
    eval(vm, w);
    let a = snap(vm, &i);
    set(vm, &i);
    match choice(11) {
        0 => {
            if w == "here" || w == "pad" {
                end()
            }
            // at compile time
            good(vm, ": p 1", 20);
            eval(vm, &["[ ", w, " ]"].concat());
            let mut b = snap(vm, &i);
            if b.err == 0 {
                ck(21, b.compiling);
                b.compiling = false;
                // a definition takes data space, a name and the control stack
                b.here = a.here;
                b.words = a.words;
                b.c = a.c;
                same(22, &a, &b);
                sset(vm, &[]);
                set_base(vm, 10);
                good(vm, "2 ; p", 29);
                ck(30, sis(vm, &[1, 2]));
            } else {
                ck(31, b.err == a.err);
            }
            reach(1);
            end()
        }
        1 => good(vm, &[": p ", w, " ; immediate"].concat(), 20),
        2 => good(vm, &[": q ", w, " ; : p q ;"].concat(), 20),
        3 => good(vm, &[": q ", w, " ; : m postpone q ; immediate : p m ;"].concat(), 20),
        4 => good(vm, &[": q ", w, " ; immediate : m postpone q ; : p m ;"].concat(), 20),
        5 => good(vm, &[": q ", w, " ; : p ['] q execute ;"].concat(), 20),
        6 => good(vm, &[": q ", w, " ; : m ['] q compile, ; immediate : p m ;"].concat(), 20),
        7 => good(vm, &[": q ", w, " ; compile-only : p q ;"].concat(), 20),
        8 => good(vm, &["defer p : q ", w, " ; ' q ' p defer!"].concat(), 20),
        9 => good(vm, &[": p [ 1 2 ] ", w, " [ 2drop ] ;"].concat(), 20),
        // an immediate word with the effect, while a definition is compiled
        _ => {
            good(vm, &[": q ", w, " ; immediate"].concat(), 20);
            good(vm, ": p 1", 20);
            eval(vm, "q");
            let mut b = snap(vm, &i);
            if b.err == 0 {
                b.compiling = a.compiling;
                b.here = a.here;
                b.words = a.words;
                b.c = a.c;
                if w != "compiling?" && w != "here" && w != "pad" {
                    same(22, &a, &b);
                }
                sset(vm, &[]);
                set_base(vm, 10);
                good(vm, "2 ; p", 29);
                ck(30, sis(vm, &[1, 2]));
            } else {
                ck(31, b.err == a.err);
            }
            reach(1);
            end()
        }
    }
    // the definitions moved here and pad: interpret once more
    set(vm, &i);
    eval(vm, w);
    let a = snap(vm, &i);
    set(vm, &i);
    eval(vm, "p");
    let b = snap(vm, &i);
    same(40, &a, &b);
    reach(1);
}

/// Literals of any value.
pub extern "C" fn h_c15_lit(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (x, y, z) = (cell(), cell(), cell());
    let (f, g) = (float(), float());
    let off = range(0, 8);
    for _ in 0..off {
        good(vm, "0 c,", 80);
    }
    good(vm, ": p", 81);
    sset(vm, &[z, x, y]);
    fset(vm, &[g, f]);
    match arg {
        0 => {
            good(vm, "literal", 1);
            ck(2, sis(vm, &[z, x]) & fis(vm, &[g, f]));
        }
        1 => {
            good(vm, "2literal", 1);
            ck(2, sis(vm, &[z]) & fis(vm, &[g, f]));
        }
        2 => {
            good(vm, "fliteral", 1);
            ck(2, sis(vm, &[z, x, y]) & fis(vm, &[g]));
        }
        _ => {
            good(vm, "literal fliteral literal", 1);
            ck(2, sis(vm, &[z]) & fis(vm, &[g]));
        }
    }
    good(vm, "-7 ; : other 99 99 ;", 3);
    for _ in 0..2 {
        sset(vm, &[z]);
        fset(vm, &[g]);
        good(vm, "p", 4);
        match arg {
            0 => ck(5, sis(vm, &[z, y, -7]) & fis(vm, &[g])),
            1 => ck(5, sis(vm, &[z, x, y, -7]) & fis(vm, &[g])),
            2 => ck(5, sis(vm, &[z, -7]) & fis(vm, &[g, f])),
            _ => ck(5, sis(vm, &[z, y, x, -7]) & fis(vm, &[g, f])),
        }
    }
    reach(1);
}

const ONLY: [&str; 54] = [
    "exit", "lit", "flit", "_s\"", "branch", "0branch", "_do", "_qdo", "_loop", "_+loop", "unloop", "leave", "i", "j",
    ">r", "r>", "r@", "2>r", "2r>", "2r@", "compile,", "_postpone", "_does", "pause", "activate", "[']", "[char]", ";",
    "if", "else", "then", "case", "of", "endof", "endcase", "begin", "while", "repeat", "until", "again", "label",
    "goto", "call", "recurse", "do", "?do", "loop", "+loop", "postpone", "does>", "s\"", ".\"", "literal", "mine",
];
const ONLY2: [&str; 3] = ["2literal", "fliteral", "mine2"];

/// Interpreting a compile-only word is refused and does nothing else.
pub extern "C" fn h_c15_only(vm: *mut VM, _: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, ": mine 1 emit ; compile-only : mine2 1 emit ; immediate compile-only", 80);
    let i = input(vm);
    let n = choice(ONLY.len() + ONLY2.len());
    let w = if n < ONLY.len() { ONLY[n] } else { ONLY2[n - ONLY.len()] };
    set(vm, &i);
    let a = snap(vm, &i);
    match choice(3) {
        0 => eval(vm, w),
        1 => eval(vm, &[w, " 65 emit"].concat()),
        _ => eval(vm, &["noop ", w, " dup"].concat()),
    }
    let b = snap(vm, &i);
    ck(1, b.err == code(INTERPRETING_A_COMPILE_ONLY_WORD));
    ck(2, b.s.is_empty() & b.f.is_empty() & b.out.is_empty());
    ck(3, cells_eq(&a.m, &b.m) & (a.base == b.base) & (a.here == b.here) & (a.words == b.words));
    ck(4, (b.r == 0) & (b.c == 0) & !b.compiling);
    set(vm, &i);
    let a = snap(vm, &i);
    eval(vm, ": t 5 ; t +");
    ck(5, quiet(vm));
    let b = snap(vm, &i);
    ck(6, b.s.len() == 12 && cells_eq(&b.s[..11], &a.s[..11]));
    ck(7, b.s[11] == a.s[11].wrapping_add(5));
    reach(1);
}

/// immediate and compile-only in any combination.
pub extern "C" fn h_c15_flags(vm: *mut VM, _: u64) {
    let vm = unsafe { &mut *vm };
    let (imm, only) = (choice(2) == 1, choice(2) == 1);
    let order = choice(2) == 1;
    good(vm, ": before 3 ;", 80);
    good(vm, ": w 1+ ;", 81);
    let flags = match (imm, only) {
        (false, false) => "",
        (true, false) => "immediate",
        (false, true) => "compile-only",
        _ if order => "immediate compile-only",
        _ => "compile-only immediate",
    };
    good(vm, flags, 82);
    good(vm, ": after 4 ;", 83);
    let (z, x) = (cell(), cell());
    sset(vm, &[z, x]);
    eval(vm, "w");
    if only {
        ck(1, err(vm) == code(INTERPRETING_A_COMPILE_ONLY_WORD));
        ck(2, sis(vm, &[]));
        recover(vm);
    } else {
        ck(3, quiet(vm) & sis(vm, &[z, x.wrapping_add(1)]));
    }
    // compiled
    sset(vm, &[]);
    good(vm, ": p", 84);
    sset(vm, &[z, x]);
    good(vm, "w", 4);
    ck(5, sis(vm, &[z, if imm { x.wrapping_add(1) } else { x }]));
    good(vm, "before after ;", 6);
    sset(vm, &[z, x]);
    good(vm, "p", 7);
    let y = if imm { x } else { x.wrapping_add(1) };
    ck(8, sis(vm, &[z, y, 3, 4]));
    // postponed
    good(vm, ": m postpone w ; immediate", 9);
    sset(vm, &[]);
    good(vm, ": q", 10);
    sset(vm, &[z, x]);
    good(vm, "m", 11);
    ck(12, sis(vm, &[z, if imm { x.wrapping_add(1) } else { x }]));
    good(vm, "5 ;", 13);
    sset(vm, &[z, x]);
    good(vm, "q", 14);
    ck(15, sis(vm, &[z, y, 5]));
    reach(1);
}

/// Postponing the words of control structures.
pub extern "C" fn h_c15_own(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (z, x) = (cell(), cell());
    match arg {
        0 => {
            good(vm, ": <if postpone if ; immediate : |else postpone else ; immediate : then> postpone then ; immediate", 80);
            good(vm, ": p <if 1 |else 2 then> 3 ;", 81);
            sset(vm, &[z, x]);
            good(vm, "p", 1);
            ck(2, sis(vm, &[z, if x != 0 { 1 } else { 2 }, 3]));
        }
        1 => {
            good(vm, ": 0<>while postpone 0<> postpone while ; immediate : done postpone repeat ; immediate", 80);
            good(vm, ": p begin dup 0<>while 1- done 7 ;", 81);
            assume((x >= 0) & (x < 4));
            sset(vm, &[z, x]);
            good(vm, "p", 1);
            ck(2, sis(vm, &[z, 0, 7]));
        }
        2 => {
            good(vm, ": for 0 postpone literal postpone ?do ; immediate : next postpone loop ; immediate", 80);
            good(vm, ": p 0 swap for i + next ;", 81);
            recover(vm);
            assume((x >= 0) & (x < 5));
            sset(vm, &[z, x]);
            eval(vm, "p");
            ck(1, quiet(vm));
            ck(2, sis(vm, &[z, x * (x - 1) / 2]));
        }
        3 => {
            good(vm, ": lit2 postpone literal postpone 1+ ; immediate", 80);
            good(vm, ": p", 81);
            sset(vm, &[z, x]);
            good(vm, "lit2", 1);
            ck(2, sis(vm, &[z]));
            good(vm, ";", 3);
            sset(vm, &[z]);
            good(vm, "p p", 4);
            ck(5, sis(vm, &[z, x.wrapping_add(1), x.wrapping_add(1)]));
        }
        4 => {
            // recursion
            good(vm, ": p dup if dup 1- recurse + then ;", 80);
            assume((x >= 0) & (x < 6));
            sset(vm, &[z, x]);
            good(vm, "p", 1);
            ck(2, sis(vm, &[z, x * (x + 1) / 2]));
        }
        5 => {
            // recurse names the definition in progress, not an older one
            good(vm, ": p drop 1000 ; : p dup 0> if 1- recurse 1+ else drop 5 then ;", 80);
            assume((x >= 0) & (x < 4));
            sset(vm, &[z, x]);
            good(vm, "p", 1);
            ck(2, sis(vm, &[z, 5 + x]));
        }
        6 => {
            // while the name itself means the older one
            good(vm, ": p 1+ ; : p p p ;", 80);
            sset(vm, &[z, x]);
            good(vm, "p", 1);
            ck(2, sis(vm, &[z, x.wrapping_add(2)]));
        }
        7 => {
            good(vm, ": cs postpone s\" ; immediate : p cs abc\" ;", 80);
            sset(vm, &[z]);
            good(vm, "p", 1);
            ck(2, vm.s_stack().len() == 3 && (sget(vm, 0) == z) & (sget(vm, 2) == 3));
            let a = sget(vm, 1) as usize;
            ck(3, (peek8(a) == b'a') & (peek8(a + 1) == b'b') & (peek8(a + 2) == b'c'));
        }
        8 => {
            // a literal computed in the middle of a definition
            good(vm, ": p 1 [", 80);
            sset(vm, &[z, x]);
            good(vm, "1+ ] literal 2 ;", 1);
            ck(2, sis(vm, &[z]));
            sset(vm, &[z]);
            good(vm, "p", 3);
            ck(4, sis(vm, &[z, 1, x.wrapping_add(1), 2]));
        }
        9 => {
            good(vm, ": p [char] a char", 80);
            eval(vm, "; p b");
            ck(1, quiet(vm) & sis(vm, &[97, 98]));
        }
        10 => {
            good(vm, ": d postpone do ; immediate : l postpone +loop ; immediate", 80);
            good(vm, ": p 0 5 0 d i + 2 l ;", 81);
            sset(vm, &[z]);
            good(vm, "p", 1);
            ck(2, sis(vm, &[z, 6]));
        }
        _ => {
            good(vm, ": c postpone case ; immediate : o postpone of ; immediate : eo postpone endof ; immediate : ec postpone endcase ; immediate", 80);
            good(vm, ": p c 1 o 10 eo 2 o 20 eo 30 swap ec ;", 81);
            sset(vm, &[z, x]);
            good(vm, "p", 1);
            ck(2, sis(vm, &[z, if x == 1 { 10 } else if x == 2 { 20 } else { 30 }]));
        }
    }
    reach(1);
}
