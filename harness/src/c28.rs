//! C28: the words that show the machine's state show exactly that state.
use crate::util::*;

/// The name of a word, as stored in the dictionary.
fn name(vm: &mut VM, w: usize) -> Vec<u8> {
    let a = vm.wordlist()[w].nfa();
    let n = peek(a) as usize;
    let mut v = vec![];
    for i in 0..n {
        v.push(peek8(a + 8 + i));
    }
    v
}
/// The dictionary, newest word first.
fn listing(vm: &mut VM, skip: &[usize]) -> Vec<u8> {
    let mut v = vec![];
    for w in (1..vm.wordlist().len()).rev() {
        if !skip.contains(&w) {
            v.extend(name(vm, w));
            v.push(b' ');
        }
    }
    v
}
fn same(vm: &mut VM, v: &[u8]) -> bool {
    let b = vm.output_buffer().as_ref().unwrap().as_bytes();
    beq(b, v)
}

/// words, after all sorts of definitions.
pub extern "C" fn h_c28_words(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let base = vm.wordlist().len();
    let was = listing(vm, &[]);
    good(vm, "' bye handler!", 90);
    let mut skip: Vec<usize> = vec![];
    // what is shown before the words that were there at the start
    let new: Vec<&[u8]>;
    let (c1, c2) = (any7(), any7());
    assume((c1 >= b'0') & (c2 >= b'0') & (c1 <= b'3') & (c2 <= b'8'));
    let any = if arg == 5 { [b'~', b'0' + choice(3) as u8, b'x'] } else { [b'~', c1, c2] };
    let text = unsafe { String::from_utf8_unchecked(any.to_vec()) };
    match arg {
        0 => new = vec![],
        1 => {
            good(vm, &["5 constant ", &text, " variable p"].concat(), 91);
            new = vec![b"p", &any];
        }
        2 => {
            // an abandoned definition stays hidden
            good(vm, ": ok ;", 91);
            eval(vm, ": broken then ;");
            ck(92, vm.last_error().is_some());
            vm.run();
            recover(vm);
            skip.push(base + 1);
            eval(vm, ": Later ;");
            ck(93, quiet(vm));
            new = vec![b"later", b"ok"];
        }
        3 => {
            // a definition in progress is hidden
            clear_out(vm);
            good(vm, ": one ; : two [ words ] ;", 91);
            ck(94, same(vm, &[b"one ", &was[..]].concat()));
            new = vec![b"two", b"one"];
        }
        4 => {
            // redefinitions are listed each
            good(vm, ": dup dup ; : Dup dup ; create dup", 91);
            new = vec![b"dup", b"dup", b"dup"];
        }
        5 => {
            good(vm, "marker m : x1 ;", 91);
            eval(vm, &["1 2 2constant ", &text, " m : x2 ;"].concat());
            ck(92, quiet(vm));
            new = vec![b"x2"];
        }
        _ => {
            good(vm, "defer d1 1e fconstant f1 fvariable f2 : x ; immediate : y ; compile-only", 91);
            new = vec![b"y", b"x", b"f2", b"f1", b"d1"];
        }
    }
    let (x, f) = (cell(), float());
    sset(vm, &[x]);
    fset(vm, &[f]);
    clear_out(vm);
    let h = here(vm);
    eval(vm, "words");
    ck(1, quiet(vm));
    let mut v = vec![];
    for n in &new {
        v.extend_from_slice(n);
        v.push(b' ');
    }
    v.extend_from_slice(&was);
    ck(2, same(vm, &v));
    ck(3, sis(vm, &[x]) & fis(vm, &[f]) & (here(vm) == h));
    if skip.is_empty() {
        let l = listing(vm, &skip);
        ck(4, beq(&l, &v));
    }
    reach(1);
}

/// .word of any token at all: 16 tokens at a time, or any that is none.
pub extern "C" fn h_c28_word(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let how = arg & 1 != 0;
    if how {
        good(vm, ": t .word ;", 90);
    }
    let n = vm.wordlist().len();
    let lo = (arg as usize >> 1) * 16;
    let (x, mut y) = (cell(), cell());
    if lo < n {
        y = (lo + choice(16.min(n - lo))) as isize;
    } else {
        assume((y as usize) >= n);
    }
    sset(vm, &[x, y]);
    clear_out(vm);
    eval(vm, if how { "t" } else { ".word" });
    ck(1, quiet(vm));
    ck(2, sis(vm, &[x]));
    if lo < n {
        let mut v = name(vm, y as usize);
        v.push(b' ');
        ck(3, same(vm, &v));
    } else {
        ck(4, same(vm, b"unknown "));
    }
    reach(1);
}

/// .backtrace with any address on the return stack: inside of any word, or outside of the dictionary.
pub extern "C" fn h_c28_addresses(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, ": first 1 2 + ; : second dup drop ; create data 1 , 2 , 3 , : last noop ;", 90);
    let n = vm.wordlist().len();
    let w = 1 + arg as usize * 8 + choice(8);
    let a = any64() as usize;
    let hi = here(vm);
    let mid = vm.wordlist()[n - 3].nfa() + 20;
    let inside = w < n;
    if inside {
        let end = if w + 1 < n { vm.wordlist()[w + 1].nfa() } else { hi };
        assume((a >= vm.wordlist()[w].nfa()) & (a < end));
    } else {
        assume((a < vm.wordlist()[1].nfa()) | (a >= hi));
    }
    let shape = w % 3;
    let rs: Vec<isize> = match shape {
        0 => vec![a as isize],
        1 => vec![mid as isize, a as isize],
        _ => vec![a as isize, 0, mid as isize],
    };
    rset(vm, &rs);
    let x = cell();
    sset(vm, &[x]);
    clear_out(vm);
    vm.state().instruction_pointer = 0;
    let bt = xt(vm, ".backtrace");
    vm.execute_word(bt);
    ck(1, quiet(vm));
    ck(2, ris(vm, &rs) & sis(vm, &[x]));
    let o = out(vm);
    if !inside {
        // what is no place in the dictionary has no owner; the text is free
        ck(3, o.starts_with(b"backtrace: "));
        reach(1);
        return;
    }
    let mut v = b"backtrace: ".to_vec();
    let the = [&name(vm, w)[..], b" "].concat();
    let other = [&name(vm, n - 3)[..], b" "].concat();
    match shape {
        0 => v.extend(the),
        1 => {
            v.extend(other);
            v.extend(the)
        }
        _ => {
            v.extend(the);
            v.extend(b"unknown(0) ");
            v.extend(other)
        }
    }
    ck(4, o.len() >= v.len() && beq(&o[..v.len()], &v));
    reach(1);
}

/// .backtrace in the handler names the words that were active, in order.
pub extern "C" fn h_c28_calls(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, ": report .backtrace bye ; ' report handler!", 90);
    let bad = [
        ("0 /", "/"), ("-7 @", "@"), ("-7 !", "!"), ("0 mod", "mod"), 
        ("-5 c!", "c!"), ("abort", "abort"), ("-1 f@", "f@"), ("-4 0e f!", "f!"), ("0 /mod", "/mod"),
    ];
    let (text, word) = bad[arg as usize % bad.len()];
    let names = ["inner", "Q", "a-longer-name", "top"];
    good(vm, &[": ", names[0], " 1 ", text, " drop ;"].concat(), 91);
    let depth = range(0, 3);
    let gap = flag();
    for k in 1..=depth {
        if gap {
            good(vm, ": filler 1 2 3 ;", 92);
        }
        let s = if k == 2 {
            [": ", names[k], " true if ", names[k - 1], " then 2 drop ;"].concat()
        } else {
            [": ", names[k], " 1 drop ", names[k - 1], " 2 drop ;"].concat()
        };
        good(vm, &s, 93);
    }
    clear_out(vm);
    let top = names[depth];
    eval(vm, top);
    ck(1, vm.last_error().is_some());
    let mut v = b"backtrace: unknown(0) ".to_vec();
    for k in (0..=depth).rev() {
        v.extend_from_slice(names[k].to_lowercase().as_bytes());
        v.push(b' ');
    }
    v.extend_from_slice(word.as_bytes());
    v.extend_from_slice(b" report ");
    ck(2, same(vm, &v));
    reach(1);
}

/// A recursion of any depth up to 40, with loops in between.
pub extern "C" fn h_c28_deep(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, ": report .backtrace bye ; ' report handler!", 90);
    good(vm, ": fail 0 / ; : down dup if 1- recurse drop else 1 fail then ; : go 7 swap down drop ;", 91);
    let n = arg as usize * 10 + choice(10);
    let x = cell();
    sset(vm, &[x, n as isize]);
    clear_out(vm);
    eval(vm, "go");
    ck(1, err(vm) == code(DIVISION_BY_ZERO));
    let mut v = b"backtrace: unknown(0) go ".to_vec();
    for _ in 0..=n {
        v.extend_from_slice(b"down ");
    }
    v.extend_from_slice(b"fail / report ");
    ck(2, same(vm, &v));
    reach(1);
}

fn dec(n: usize) -> String {
    n.to_string()
}
fn hex(n: usize) -> String {
    let mut s = String::new();
    let mut k = n;
    while k != 0 || s.is_empty() {
        s.insert(0, b"0123456789ABCDEF"[k % 16] as char);
        k /= 16;
    }
    s
}

/// .memory after any amount of allocation.
pub extern "C" fn h_c28_memory(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (s, l, h) = (start(vm), limit(vm), here(vm));
    let lo = [0, 90, 1000, l - h - 40][arg as usize & 3];
    let n = lo + choice(40);
    let x = cell();
    sset(vm, &[x, n as isize]);
    eval(vm, "allot");
    ck(1, quiet(vm));
    clear_out(vm);
    eval(vm, ".memory");
    ck(2, quiet(vm));
    ck(3, here(vm) == h + n);
    let v = [
        "data space capacity: ", &dec(l - s), ", used: ", &dec(h + n - s), ", start: 0x", &hex(s), ", limit: 0x", &hex(l), ", here: 0x",
        &hex(h + n), "\n",
    ]
    .concat();
    ck(4, same(vm, v.as_bytes()));
    ck(5, sis(vm, &[x]));
    reach(1);
}

/// dump of any bytes.
pub extern "C" fn h_c28_dump(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let how = arg & 1 != 0;
    if how {
        good(vm, ": t dump ;", 90);
    }
    good(vm, "hex", 91);
    let b = [16, 10, 8, 2][choice(4)];
    set_base(vm, b);
    let a = here(vm) + 24 + range(0, 1);
    let mut m = vec![];
    for i in 0..32 {
        poke8(a + i, (i * 37 + 29) as u8);
        m.push((i * 37 + 29) as u8);
    }
    // two of the bytes shown are arbitrary
    let (p, q) = ((arg as usize >> 1) % 8, 8 + (arg as usize >> 1) * 5 % 8);
    let (c, d) = (any8(), any8());
    poke8(a + p, c);
    poke8(a + q, d);
    m[p] = c;
    m[q] = d;
    let n = [-1, 0, 1, 7, 8, 9, 16][choice(7)];
    let x = cell();
    sset(vm, &[x, a as isize, n]);
    clear_out(vm);
    eval(vm, if how { "t" } else { "dump" });
    ck(1, quiet(vm));
    let mut v = String::new();
    let mut k = 0;
    while (k as isize) < n {
        v.push_str(&hex(a + k));
        v.push_str(": ");
        for i in k..k + 8 {
            v.push_str(if m[i] < 16 { "  " } else { " " });
            v.push_str(&hex(m[i] as usize));
        }
        v.push_str("  ");
        for i in k..k + 8 {
            let c = m[i] & 0x7f;
            v.push(if (c >= 32) & (c < 127) { c as char } else { '_' });
        }
        v.push('\n');
        k += 8;
    }
    ck(2, same(vm, v.as_bytes()));
    ck(3, sis(vm, &[x]));
    let base = vm.data_space().system_variables().base_addr();
    ck(4, peek(base) == b);
    for i in 0..32 {
        ck(5, peek8(a + i) == m[i]);
    }
    reach(1);
}

/// .input shows the line being read, wherever it stands; .s is checked in C13.
pub extern "C" fn h_c28_input(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut s = [" .input ", "1 .input drop ( ", ".( ab) .input ( "][arg as usize % 3].as_bytes().to_vec();
    if arg % 3 == 0 {
        s.extend_from_slice(b"\\ ");
    }
    for _ in 0..arg / 3 {
        let c = any7();
        assume((c != b')') & (c >= 32));
        s.push(c);
    }
    let line = unsafe { String::from_utf8_unchecked(s.clone()) };
    let x = cell();
    sset(vm, &[x]);
    clear_out(vm);
    eval(vm, &line);
    ck(1, quiet(vm));
    let mut v = if arg % 3 == 2 { b" ab".to_vec() } else { vec![] };
    v.extend_from_slice(&s);
    ck(2, same(vm, &v));
    ck(3, sis(vm, &[x]));
    ck(4, beq(vm.input_buffer().as_ref().unwrap().as_bytes(), &s));
    reach(1);
}

/// The limits of a cell, and the words without output.
pub extern "C" fn h_c28_limits(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let x = cell();
    let t = ["max-n", "max-u", "depth", "true"][arg as usize & 3];
    if arg & 4 != 0 {
        good(vm, &[": t ", t, " ;"].concat(), 90);
    }
    sset(vm, &[x]);
    let f = float();
    fset(vm, &[f, f, f]);
    eval(vm, if arg & 4 != 0 { "t" } else { t });
    ck(1, quiet(vm));
    let y = [isize::MAX, -1, 1, -1][arg as usize & 3];
    ck(2, sis(vm, &[x, y]) & fis(vm, &[f, f, f]));
    reach(1);
}
