//! C01: no word crashes the host.  The obligations are the executor's own: no
//! panic, no access outside the machine's memory, no unbounded recursion.
use crate::util::*;

fn name_of(vm: &mut VM, w: usize) -> String {
    let nfa = vm.wordlist()[w].nfa();
    unsafe { vm.data_space().get_str(nfa).to_string() }
}
fn one_of(n: &str, l: &str) -> bool {
    l.split(' ').any(|x| x == n)
}
/// Words that call the operating system, or other words without end: C17, C19
/// and C20 are about them.
const SKIP: &str = "file-size file-position close-file create-file delete-file open-file read-file write-file \
resize-file reposition-file open-source load-line include included load-source-file \\\\ nod get ms evaluate-input \
flush-output flush-to-err halt stop compile-token interpret-token xtime";
/// Words that write to memory at an address they are given.
const WRITE1: &str = "! c! f! 2! +! on off";
/// Whose result would be executed, or whose operand is a word's number.
const TOKEN: &str = "execute _postpone >body >name defer@ defer! handler! compile, (xtime) .xtime .word";

/// Not inside the dictionary or the code: outside of memory or behind it.
fn harmless(vm: &mut VM, a: isize, n: usize) -> bool {
    let (s, h, l) = (start(vm), here(vm), limit(vm));
    let a = a as usize;
    let inside = (a >= s.wrapping_sub(64)) & (a < l);
    !inside | ((a >= h) & (a <= l - n))
}

fn setup(vm: &mut VM, w: usize, name: &str, depth: usize, fdepth: usize) {
    let mut v = vec![];
    for _ in 0..depth {
        v.push(cell());
    }
    let mut f = vec![];
    let shown = one_of(name, "f. f.r .s");
    for i in 0..fdepth {
        let some = [1.5, -0.0, f64::NAN, f64::INFINITY, 1e22];
        f.push(match shown {
            true if i + 1 == fdepth => some[choice(5)],
            true => 1.5,
            false => float(),
        });
    }
    let (h, l) = (here(vm) as isize, limit(vm) as isize);
    let pre = |v: &mut Vec<isize>, n: usize, x: &[isize]| {
        if n < depth {
            v[depth - 1 - n] = x[choice(x.len())]
        }
    };
    match name {
        // values that are shown digit by digit, counts, and their extremes
        "spaces" => pre(&mut v, 0, &[0, 1, 20, -1, isize::MIN]),
        ".r" | "h.r" => {
            pre(&mut v, 0, &[0, 1, 20, -1, isize::MIN]);
            pre(&mut v, 1, &[0, -1, isize::MIN, isize::MAX]);
        }
        "f.r" => {
            pre(&mut v, 0, &[0, 17, 18, -1, isize::MAX]);
            pre(&mut v, 1, &[0, 20, -1, isize::MIN]);
        }
        "type" | "dump" | "_dump" | "_type" if depth > 1 => {
            let p = [
                (h, 0),
                (h, 2),
                (l - 1, isize::MAX),
                (l, 1),
                (0, isize::MAX),
                (-1, 2),
                (isize::MIN, isize::MIN),
                (l - 4, -1),
            ][choice(8)];
            v[depth - 2] = p.0;
            v[depth - 1] = p.1;
        }
        ".s" => v.fill(isize::MIN),
        "activate" | "suspend" | "resume" => pre(&mut v, 0, &[0, 1, 2, 5, 6, -1, isize::MIN]),
        "." | "h." => pre(&mut v, 0, &[0, -1, isize::MIN, isize::MAX]),
        "?" => pre(&mut v, 0, &[h, l - 8, l - 7, 0, -1]),
        "emit" => pre(&mut v, 0, &[0, 65, 0x80, 0xff, 0x100, -1]),
        "word" | "parse" | "_skip" => pre(&mut v, 0, &[32, 34, 0, -1, 0xd800, 0xe9, 0x110000, isize::MIN]),
        "release" => pre(&mut v, 0, &[h, l - 8, l - 7, 0, -1]),
        _ => {}
    }
    if depth < 2 && one_of(name, "spaces .r h.r f.r dump _dump _type fill") && (depth == 0 || name != "spaces") {
        // they count down what lies below the stack
        end()
    }
    let k = vm.wordlist().len() as isize;
    let top = |n: usize| -> isize { if n < depth { v[depth - 1 - n] } else { 0x12345678 } };
    if one_of(name, WRITE1) {
        assume(harmless(vm, top(0), 16));
    }
    if one_of(name, TOKEN) {
        // one existing token, any other that is none
        let t = [0, k - 1][choice(2)];
        if name == "defer!" || name == "defer@" {
            assume(top(0) == k - 1 || (top(0) < 0) | (top(0) >= k));
            // its body lies in the dictionary: nothing executes it here
        } else {
            assume((top(0) == t) | (top(0) < 0) | (top(0) >= k));
        }
    }
    if name == "move" {
        // from anywhere to where no code is, few bytes or too many
        assume((top(0) <= 3) | (top(0) as usize >= 0x20000));
        assume(harmless(vm, top(1), 16));
    }
    if name == "append" {
        let h = here(vm) as isize;
        let l = limit(vm) as isize;
        assume((top(0) < h - 65536) | (top(0) > l) | (top(0) == h));
        assume((top(1) <= 2) | (top(1) as usize >= 0x20000));
    }
    if name == "!token" {
        assume(harmless(vm, top(0), 64));
    }
    if name == "fill" {
        assume(top(1) <= 2);
        assume(harmless(vm, top(2), 16));
    }
    let _ = w;
    sset(vm, &v);
    fset(vm, &f);
}

/// What may be under construction, and how it is begun.
const OPEN: [&str; 9] = [
    "",
    ": t",
    ": t if",
    ": t begin",
    ": t begin while",
    ": t do",
    ": t case",
    ": t case 1 of",
    ": t [ 1 ] label [ 2 ] goto if begin",
];
const SOURCE: [&str; 4] = ["", "  abc\" d\u{e9}f) 9 ' nosuch", " zz 5", "dup"];
const DEPTHS: [(usize, usize); 6] = [(0, 0), (2, 2), (1, 1), (3, 0), (6, 4), (64, 64)];

fn one(vm: &mut VM, w: usize) {
    let name = name_of(vm, w);
    if one_of(&name, SKIP) || name.is_empty() {
        end()
    }
    let imm = vm.wordlist()[w].is_immediate();
    let only = vm.wordlist()[w].is_compile_only();
    let n = choice(6);
    let (d, f) = DEPTHS[n];
    let (c, s) = if imm { (choice(9), choice(3)) } else { (0, choice(if n == 1 { 4 } else { 2 })) };
    let nr = if n == 4 { choice(3) } else { 0 };
    good(vm, "' bye handler!", 95);
    if only && !imm {
        // inside a definition, where alone it may be
        good(vm, ": t", 96);
        vm.compile_word(w);
        good(vm, "bye bye bye ;", 97);
        // wherever an odd operand leads
        let (h, bye) = (here(vm), xt(vm, "bye") as isize);
        for i in 0..64 {
            unsafe { vm.data_space().put_isize(bye, h + 8 * i) }
        }
    } else {
        good(vm, OPEN[c], 90);
    }
    setup(vm, w, &name, d, f);
    let (lo, hi) = (start(vm) as isize, limit(vm) as isize);
    // nothing to return to
    if only && !imm {
        for x in vm.s_stack().as_slice().iter() {
            assume((*x < lo) | (*x > hi));
        }
    }
    let mut r = vec![];
    let few = name == ".backtrace";
    for _ in 0..[0, 1, if few { 1 } else { 4 }][nr] {
        let x = cell();
        assume((x < lo) | (x > hi));
        r.push(x);
    }
    rset(vm, &r);
    vm.set_source(SOURCE[s]);
    clear_out(vm);
    if only && !imm {
        call(vm, "t");
    } else {
        call_xt(vm, w);
    }
    vm.check_stacks();
    reach(1);
    // still usable
    if n > 1 || one_of(&name, WRITE1) || one_of(&name, "move fill append base !token allot") {
        return;
    }
    vm.set_handler(0);
    recover(vm);
    set_base(vm, 10);
    good(vm, "0labels", 94);
    good(vm, ": uu 5 * ; 3 uu", 91);
    ck(92, sis(vm, &[15]));
}

/// Words 8 arg + 1 to 8 arg + 8 of the dictionary.
pub extern "C" fn h_c01_word(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let w = 1 + 8 * arg as usize + choice(8);
    if w >= vm.wordlist().len() {
        end()
    }
    one(vm, w);
}

const DEFINING: [&str; 12] = [
    ": t 5 dup ;",
    "create x",
    "variable y 5 y !",
    "5 constant z",
    "marker -m -m",
    ": t 1.5e 5 dup 7 dup ;",
    ": t s\" abcdefghijklmnopqrstuvwxyz\" type ;",
    ": t if 5 else 6 then begin while repeat case 1 of 2 endof endcase ;",
    ": t 5 0 do i leave loop ;",
    "defer d ' noop ' d defer!",
    "1.5e fconstant w",
    ": t postpone if postpone dup ; immediate : u t then ;",
];

/// A definition with only so many bytes left in the data space.
pub extern "C" fn h_c01_full(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let line = DEFINING[arg as usize];
    good(vm, "' bye handler!", 95);
    let left = match choice(3) {
        0 => range(0, 40),
        1 => range(96, 232),
        _ => range(520, 680),
    };
    let l = limit(vm);
    let h = here(vm);
    ck(80, vm.data_space().set_here(l - left).is_ok());
    eval(vm, line);
    reach(1);
    ck(81, quiet(vm) | (err(vm) == code(DICTIONARY_OVERFLOW)));
    ck(82, here(vm) <= l);
    if left >= 680 {
        ck(83, quiet(vm));
    }
    // with room again everything goes on
    vm.set_handler(0);
    recover(vm);
    ck(84, vm.data_space().set_here(h + 4096).is_ok());
    good(vm, ": uu 5 * ; 3 uu", 85);
    ck(86, sis(vm, &[15]));
}

/// Immediate words that compile without end.
pub extern "C" fn h_c01_endless(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let line = [
        ": e begin postpone dup again ; immediate : t e ;",
        ": e begin postpone 1 again ; immediate : t e ;",
        ": e begin 5 , again ; e",
        ": e begin 5 c, again ; e",
        ": e begin [char] x postpone literal again ; immediate : t e ;",
        ": e begin 1.5e postpone fliteral again ; immediate : t e ;",
        ": e begin [ ' dup ] literal compile, again ; immediate : t e ;",
        ": e begin create again ; e x y",
    ][arg as usize];
    good(vm, "' bye handler!", 95);
    let l = limit(vm);
    let left = range(300, 317);
    ck(80, vm.data_space().set_here(l - 1400).is_ok());
    // the word itself, then little is left
    let (a, b) = match line.find("; immediate ") {
        Some(n) => (&line[..n + 12], &line[n + 12..]),
        None => {
            let n = line.find("; ").unwrap();
            (&line[..n + 2], &line[n + 2..])
        }
    };
    eval(vm, a);
    if !quiet(vm) {
        end()
    }
    let h = here(vm);
    if arg < 7 && arg != 2 && arg != 3 {
        eval(vm, ": t");
    }
    ck(80, vm.data_space().set_here((l - left).max(h)).is_ok());
    eval(vm, b.trim_start_matches(": t "));
    reach(1);
    ck(81, !quiet(vm));
    ck(82, here(vm) <= l);
}

/// Any word at all through EXECUTE, as `' word execute` at the prompt does.
pub extern "C" fn h_c01_naked(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let w = 1 + 8 * arg as usize + choice(8);
    if w >= vm.wordlist().len() || !vm.wordlist()[w].is_compile_only() {
        end()
    }
    let name = name_of(vm, w);
    if vm.wordlist()[w].is_immediate() || one_of(&name, SKIP) {
        end()
    }
    good(vm, "' bye handler!", 95);
    let (d, f) = DEPTHS[choice(5)];
    setup(vm, w, &name, d, f);
    let (lo, hi) = (start(vm) as isize, limit(vm) as isize);
    for x in vm.s_stack().as_slice().iter() {
        assume((*x < lo) | (*x > hi));
    }
    rset(vm, &[]);
    reach(1);
    let e = xt(vm, "execute");
    vm.s_stack().push(w as isize);
    vm.state().instruction_pointer = 0;
    vm.execute_word(e);
    vm.run();
}

const FILES: [&str; 18] = [
    "file-size", "file-position", "close-file", "reposition-file", "resize-file", "read-file", "write-file", "create-file",
    "open-file", "delete-file", "open-source", "load-line", "close-source", "source-id!", ".source-line", ".source-path",
    "included", "include",
];
/// The words on files and sources, whatever the stacks hold.
pub extern "C" fn h_c01_file(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = FILES[arg as usize % 18];
    good(vm, "' bye handler!", 90);
    let o = crate::os::os();
    o.arm(&[("a", b"1 drop\n: t 5 ;\nt drop\n".to_vec()), ("b", b"0 /\n".to_vec())]);
    let at = start(vm) as isize + 0xe000;
    poke8(at as usize, b'a');
    poke8(at as usize + 1, b'b');
    for k in 0..2 {
        sset(vm, &[at + k, 1, 2]);
        call(vm, "open-file");
        ck(91, sis(vm, &[k + 1, 0]));
    }
    sset(vm, &[at, 1, 2]);
    call(vm, "open-source");
    ck(92, sis(vm, &[1]));
    o.calm();
    let d = [0, 1, 2, 3, 4, 64][choice(6)];
    let mut v = vec![];
    for _ in 0..d {
        v.push(cell());
    }
    if arg >= 7 && d > 0 && arg != 17 {
        // names: short, too long, or not in memory
        let l = limit(vm) as isize;
        let k = if arg == 7 || arg == 8 || arg == 10 { 1 } else { 0 };
        let takes = [7, 8, 9, 10, 16].contains(&arg);
        if takes && d > k + 1 {
            let (a, n) = [(at, 1), (at, 2), (at + 1, 1), (at, 0), (at, -1), (at, 300), (l - 1, 2), (l, 1), (0, 1), (-1, 5)][choice(10)];
            v[d - 2 - k] = a;
            v[d - 1 - k] = n;
        }
    }
    if (arg == 5 || arg == 6) && d > 2 {
        let l = limit(vm) as isize;
        let (a, n) = [(at, 1), (at, 9), (at, 0), (at, -1), (l - 1, 2), (l, 1), (0, 1), (-1, 5), (at, isize::MAX), (l - 3, isize::MIN)][choice(10)];
        v[d - 3] = a;
        v[d - 2] = n;
    }
    if arg == 4 {
        if d < 3 {
            // a length of what lies below the stack: hundreds of megabytes
            end()
        }
        v[d - 3] = [0, 7, 40, -1, isize::MIN][choice(5)];
    }
    sset(vm, &v);
    vm.set_source(["", " a", " b 5", " nosuch"][if arg == 17 { choice(4) } else { 0 }]);
    o.faults = 1;
    call(vm, name);
    vm.check_stacks();
    reach(1);
    o.settle();
    recover(vm);
    good(vm, ": uu 5 * ; 3 uu", 93);
    ck(94, sis(vm, &[15]));
}
