//! C20: sources deliver the lines of their files.
use crate::os::*;
use crate::util::*;

fn put(at: usize, s: &[u8]) {
    for i in 0..s.len() {
        poke8(at + i, s[i]);
    }
}
fn place(vm: &mut VM) -> usize {
    start(vm) + 0xe000
}
fn open_file(vm: &mut VM, name: &str) -> isize {
    let at = place(vm);
    put(at, name.as_bytes());
    sset(vm, &[at as isize, name.len() as isize, 0]);
    call(vm, "open-file");
    let r = (sget(vm, 0), sget(vm, 1));
    ck(80, r.1 == 0);
    vm.s_stack().reset();
    r.0
}
/// A source for the file named; its path is `path`.
fn open_source(vm: &mut VM, name: &str, path: &str) -> isize {
    let f = open_file(vm, name);
    let at = place(vm);
    put(at, path.as_bytes());
    let u = cell();
    sset(vm, &[u, at as isize, path.len() as isize, f]);
    call(vm, "open-source");
    ck(81, quiet(vm) & (vm.s_stack().len() == 2) & (sget(vm, 0) == u));
    let s = sget(vm, 1);
    ck(82, s > 0);
    // the file has no other user now
    sset(vm, &[f]);
    call(vm, "file-position");
    ck(83, sget(vm, 2) != 0);
    vm.s_stack().reset();
    s
}
/// load-line: its results, or the exception.
fn load(vm: &mut VM, id: isize) -> Result<(isize, isize), isize> {
    let u = cell();
    sset(vm, &[u, id]);
    call(vm, "load-line");
    if !quiet(vm) {
        let e = err(vm);
        vm.set_error(None);
        vm.clear_stacks();
        return Err(e);
    }
    ck(84, (vm.s_stack().len() == 3) & (sget(vm, 0) == u));
    let r = (sget(vm, 1), sget(vm, 2));
    vm.s_stack().reset();
    Ok(r)
}
fn line(vm: &mut VM, id: isize) -> Result<Vec<u8>, isize> {
    shown(vm, ".source-line", id)
}
/// What a word shows about a source.
fn shown(vm: &mut VM, word: &str, id: isize) -> Result<Vec<u8>, isize> {
    clear_out(vm);
    let u = cell();
    sset(vm, &[u, id]);
    call(vm, word);
    let o = out(vm);
    clear_out(vm);
    if !quiet(vm) {
        let e = err(vm);
        vm.set_error(None);
        vm.clear_stacks();
        ck(85, o.is_empty());
        return Err(e);
    }
    ck(86, sis(vm, &[u]));
    vm.s_stack().reset();
    Ok(o)
}

/// The lines of a text, as they are delivered: None where they are not a text.
fn split(t: &[u8]) -> Vec<Option<Vec<u8>>> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut j = i;
        while j < t.len() && t[j] != b'\n' {
            j += 1
        }
        let mut e = j;
        if j < t.len() {
            j += 1;
            if e > i && t[e - 1] == b'\r' {
                e -= 1
            }
        }
        let bytes = &t[i..j];
        v.push(match std::str::from_utf8(bytes) {
            Ok(_) => Some(t[i..e].to_vec()),
            Err(_) => None,
        });
        i = j;
    }
    v
}

fn deliver(vm: &mut VM, text: &[u8], id: isize) {
    let want = split(text);
    for w in want.iter() {
        match (w, load(vm, id)) {
            (Some(w), r) => {
                ck(1, r == Ok((w.len() as isize, -1)));
                let l = line(vm, id);
                match l {
                    Ok(l) => {
                        ck(2, l.len() == w.len());
                        ck(3, beq(&l, w));
                    }
                    Err(_) => ck(4, false),
                }
            }
            (None, r) => ck(5, r == Err(code(FILE_IO_EXCEPTION))),
        }
    }
    // the end, for good
    for _ in 0..2 {
        ck(6, load(vm, id) == Ok((0, 0)));
        ck(7, line(vm, id) == Ok(vec![]));
    }
}

/// Any text, read in any pieces.
pub extern "C" fn h_c20_lines(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let o = os();
    let n = arg as usize % 8;
    let mut t = vec![];
    for _ in 0..n {
        t.push(if arg < 8 { any7() } else { any8() });
    }
    o.arm(&[("a", t.clone())]);
    if arg < 8 {
        o.shorts = 3;
        o.signals = 1;
    } else {
        o.shorts = 1;
    }
    let id = open_source(vm, "a", "a");
    deliver(vm, &t, id);
    reach(1);
}

/// Longer texts, of line ends and letters.
pub extern "C" fn h_c20_ends(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let o = os();
    let n = 7 + arg as usize / 4;
    let mut t = vec![];
    for i in 0..n {
        let c = if i < 2 { (arg as usize >> i & 1) + choice(2) * 2 } else { choice(3) };
        t.push([b'\n', b'\r', b'x', b'y'][c]);
    }
    o.arm(&[("a", t.clone())]);
    o.shorts = 1;
    let id = open_source(vm, "a", "a");
    deliver(vm, &t, id);
    reach(1);
}

/// Lines as long as the reader's buffer.
pub extern "C" fn h_c20_long(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let o = os();
    let total = 8192 * (1 + arg as usize % 2);
    let mut t = vec![b'x'; total + 3];
    let at = total - 3 + (arg as usize / 2) % 4;
    for i in 0..3 {
        t[at + i] = [b'\n', b'\r', b'z', 0xc3, 0xa9][choice(5)];
    }
    if arg >= 8 {
        t[5] = b'\n';
    }
    o.arm(&[("a", t.clone())]);
    let id = open_source(vm, "a", "a");
    deliver(vm, &t, id);
    reach(1);
}

/// A read fails.
pub extern "C" fn h_c20_fault(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let o = os();
    let n = arg as usize;
    let mut t = vec![];
    for _ in 0..n {
        t.push(any7());
    }
    o.arm(&[("a", t.clone()), ("b", b"other\nlines\n".to_vec())]);
    let other = open_source(vm, "b", "b");
    ck(10, load(vm, other) == Ok((5, -1)));
    o.shorts = 2;
    o.signals = 1;
    o.faults = 1;
    o.calm();
    let id = open_file_quiet(vm);
    let want = split(&t);
    let mut k = 0;
    let mut failed = 0;
    loop {
        match load(vm, id) {
            Ok((_, 0)) => break,
            Ok(r) => {
                if failed == 0 {
                    ck(11, k < want.len());
                    if let Some(w) = &want[k] {
                        ck(12, r.0 == w.len() as isize);
                        ck(13, line(vm, id) == Ok(w.clone()));
                    }
                    k += 1;
                }
            }
            Err(e) => {
                failed += 1;
                ck(14, e == code(FILE_IO_EXCEPTION));
                ck(15, o.failed & (failed == 1));
            }
        }
    }
    // reported once if it happened
    ck(16, (failed == 1) == o.failed);
    ck(17, (failed > 0) | (k == want.len()));
    o.settle();
    ck(18, line(vm, other) == Ok(b"other".to_vec()));
    ck(19, load(vm, other) == Ok((5, -1)));
    ck(20, line(vm, other) == Ok(b"lines".to_vec()));
    ck(21, load(vm, other) == Ok((0, 0)));
    reach(1);
}
/// Opening does not fail here.
fn open_file_quiet(vm: &mut VM) -> isize {
    let o = os();
    let (f, s) = (o.faults, o.signals);
    o.faults = 0;
    o.signals = 0;
    let id = open_source(vm, "a", "a");
    o.faults = f;
    o.signals = s;
    o.calm();
    id
}

const TEXT: [&str; 3] = ["a1\na2\r\na3", "bb1\n\nbb3\n", "\n"];
const NAME: [&str; 3] = ["a", "b", "c"];

#[derive(Clone)]
struct Src {
    id: isize,
    file: usize,
    next: usize,
    line: Vec<u8>,
}

/// Sources opened, read, shown, made current and closed in any order.
fn history(vm: &mut VM, ops: &[usize]) {
    let mut files = vec![];
    for i in 0..3 {
        files.push((NAME[i], TEXT[i].as_bytes().to_vec()));
    }
    os().arm(&files);
    let mut v: Vec<Src> = vec![];
    let mut cur = 0;
    for op in ops {
        if *op < 3 {
            // the current source stays so
            let path = ["x/a", "long/path/b", ""][*op];
            let id = open_source(vm, NAME[*op], path);
            for s in v.iter() {
                ck(30, s.id != id);
            }
            v.push(Src {
                id,
                file: *op,
                next: 0,
                line: vec![],
            });
            continue;
        }
        let id = 1 + (*op as isize - 3) % 3;
        let mut i = v.len();
        for j in 0..v.len() {
            if v[j].id == id {
                i = j
            }
        }
        let ok = i < v.len();
        let bad = code(INVALID_NUMERIC_ARGUMENT);
        match (*op - 3) / 3 {
            0 => {
                let r = load(vm, id);
                if ok {
                    let l = split(TEXT[v[i].file].as_bytes());
                    if v[i].next < l.len() {
                        v[i].line = l[v[i].next].clone().unwrap();
                        v[i].next += 1;
                        ck(31, r == Ok((v[i].line.len() as isize, -1)));
                    } else {
                        v[i].line = vec![];
                        ck(32, r == Ok((0, 0)));
                    }
                } else {
                    ck(33, r == Err(bad));
                }
            }
            1 => {
                let r = shown(vm, ".source-line", id);
                ck(34, if ok { r == Ok(v[i].line.clone()) } else { r == Err(bad) });
            }
            2 => {
                let r = shown(vm, ".source-path", id);
                ck(35, if ok { r == Ok(["x/a", "long/path/b", ""][v[i].file].as_bytes().to_vec()) } else { r == Err(bad) });
            }
            3 => {
                let r = shown(vm, "close-source", id);
                let may = ok & (id != cur);
                ck(36, r == if may { Ok(vec![]) } else { Err(bad) });
                if may {
                    v.remove(i);
                }
            }
            4 => {
                let r = shown(vm, "source-id!", id);
                ck(37, r == if ok { Ok(vec![]) } else { Err(bad) });
                if ok {
                    cur = id;
                }
            }
            _ => {
                let r = shown(vm, "source-id!", 0);
                ck(38, r == Ok(vec![]));
                cur = 0;
            }
        }
        call(vm, "source-id");
        ck(39, sis(vm, &[cur]));
        vm.s_stack().reset();
    }
    ck(40, os().opened() == v.len());
    // what is left is as it was
    for s in v.iter() {
        ck(41, line(vm, s.id) == Ok(s.line.clone()));
        let l = split(TEXT[s.file].as_bytes());
        for k in s.next..l.len() {
            ck(42, load(vm, s.id) == Ok((l[k].as_ref().unwrap().len() as isize, -1)));
            ck(43, line(vm, s.id) == Ok(l[k].clone().unwrap()));
        }
        ck(44, load(vm, s.id) == Ok((0, 0)));
    }
    reach(1);
}
pub extern "C" fn h_c20_four(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let a = arg as usize % 3;
    let b = arg as usize / 3;
    history(vm, &[a, b, choice(19), choice(19)]);
}
pub extern "C" fn h_c20_six(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let a = arg as usize % 19;
    let p = [[0, 3, 12], [0, 1, 6], [1, 3, 15], [1, 0, 4]][arg as usize / 19];
    history(vm, &[p[0], p[1], p[2], a, choice(19), choice(19)]);
}

/// Any number as identifier.
pub extern "C" fn h_c20_number(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    os().arm(&[("a", b"one\ntwo\n".to_vec()), ("b", b"drei\n".to_vec())]);
    let a = open_source(vm, "a", "pa");
    let b = open_source(vm, "b", "pb");
    ck(1, load(vm, a) == Ok((3, -1)));
    ck(2, load(vm, b) == Ok((4, -1)));
    let x = cell();
    let bad = code(INVALID_NUMERIC_ARGUMENT);
    let f = open_file(vm, "a");
    match arg {
        0 => {
            let r = load(vm, x);
            ck(3, if x == a { r == Ok((3, -1)) } else if x == b { r == Ok((0, 0)) } else { r == Err(bad) });
        }
        1 => {
            let r = line(vm, x);
            ck(4, if x == a { r == Ok(b"one".to_vec()) } else if x == b { r == Ok(b"drei".to_vec()) } else { r == Err(bad) });
        }
        2 => {
            let r = shown(vm, ".source-path", x);
            ck(5, if x == a { r == Ok(b"pa".to_vec()) } else if x == b { r == Ok(b"pb".to_vec()) } else { r == Err(bad) });
        }
        3 => {
            let r = shown(vm, "close-source", x);
            ck(6, r == if (x == a) | (x == b) { Ok(vec![]) } else { Err(bad) });
            ck(7, os().opened() == if r.is_ok() { 2 } else { 3 });
        }
        4 => {
            let r = shown(vm, "source-id!", x);
            let ok = (x == a) | (x == b) | (x == 0);
            ck(8, r == if ok { Ok(vec![]) } else { Err(bad) });
            call(vm, "source-id");
            ck(9, sis(vm, &[if ok { x } else { 0 }]));
        }
        _ => {
            // a file for it
            let at = place(vm);
            let u = cell();
            sset(vm, &[u, at as isize, 2, x]);
            call(vm, "open-source");
            if x == f {
                ck(10, quiet(vm) & (vm.s_stack().len() == 2) & (sget(vm, 0) == u));
                let s = sget(vm, 1);
                ck(11, (s != a) & (s != b));
                vm.s_stack().reset();
                ck(12, load(vm, s) == Ok((3, -1)));
                ck(13, line(vm, s) == Ok(b"one".to_vec()));
            } else {
                ck(14, err(vm) == bad);
                vm.set_error(None);
                vm.clear_stacks();
                ck(15, os().opened() == 3);
                sset(vm, &[f]);
                call(vm, "file-position");
                ck(16, sis(vm, &[0, 0, 0]));
                vm.s_stack().reset();
            }
        }
    }
    vm.set_source_id(0);
    if !(arg == 3 && x == a) {
        ck(20, line(vm, a) == Ok(if arg == 0 && x == a { b"two".to_vec() } else { b"one".to_vec() }));
    }
    reach(1);
}

// -- include --

static mut LOG: Vec<isize> = vec![];
fn note(vm: &mut VM) {
    let x = vm.s_stack().pop();
    unsafe { LOG.push(x) }
}

/// A line of a file, and what it does: numbers noted, -1 a file, -2 the rest
/// of the file skipped, -3 a definition's first half, -4 its second.
const LINES: [(&str, &[isize]); 14] = [
    ("1 note", &[1]),
    ("", &[]),
    ("  \t ", &[]),
    ("2 note include n 3 note", &[2, -1, 3]),
    ("include n", &[-1]),
    ("include  n   4 note  ", &[-1, 4]),
    (": w 5 note ; w w", &[5, 5]),
    ("6 note \\ 7 note", &[6]),
    ("8 note \\\\ 9 note", &[8, -2]),
    (": d 10", &[]),
    ("note ; d", &[10]),
    ("include n include n 11 note", &[-1, -1, 11]),
    (": go s\" n\" included 12 note ; go 13 note", &[-1, 12, 13]),
    ("( 14 note) 15 note", &[15]),
];

struct Plan {
    /// lines of m and n, and how each ends
    m: Vec<usize>,
    n: Vec<usize>,
    crlf: bool,
    last: bool,
}
fn text(v: &[usize], crlf: bool, last: bool) -> Vec<u8> {
    let mut t = String::new();
    for (i, l) in v.iter().enumerate() {
        t.push_str(LINES[*l].0);
        if i + 1 < v.len() || last {
            t.push_str(if crlf { "\r\n" } else { "\n" });
        }
    }
    t.into_bytes()
}
fn trace(p: &Plan, v: &[usize], inner: bool, o: &mut Vec<isize>) {
    let mut open = false;
    for l in v {
        for x in LINES[*l].1 {
            match *x {
                -1 if inner => stuck(88),
                -1 => trace(p, &p.n, true, o),
                -2 => return,
                x => o.push(x),
            }
        }
        if *l == 9 {
            open = true
        }
        if *l == 10 && open {
            open = false
        }
    }
}
/// Whether the lines make sense: definitions in two halves, no third level.
fn sane(v: &[usize], inner: bool) -> bool {
    for (i, l) in v.iter().enumerate() {
        if *l == 9 && !(i + 1 < v.len() && v[i + 1] == 10) {
            return false;
        }
        if *l == 10 && !(i > 0 && v[i - 1] == 9) {
            return false;
        }
        if inner && LINES[*l].1.contains(&-1) {
            return false;
        }
    }
    true
}
fn run(vm: &mut VM, p: &Plan) {
    vm.add_primitive("note", note);
    good(vm, "' bye handler!", 99);
    unsafe { LOG = vec![] }
    os().arm(&[("m", text(&p.m, p.crlf, p.last)), ("n", text(&p.n, !p.crlf, p.last))]);
    let u = [cell(), cell()];
    sset(vm, &u);
    let f = vm.f_stack().len();
    eval(vm, "20 note include m 21 note : z 22 note ; include m z");
    ck(1, quiet(vm));
    let mut want = vec![20];
    trace(p, &p.m, false, &mut want);
    want.push(21);
    trace(p, &p.m, false, &mut want);
    want.push(22);
    let log = unsafe { &LOG };
    ck(2, log.len() == want.len());
    for i in 0..want.len() {
        ck(3, log[i] == want[i]);
    }
    ck(4, sis(vm, &u) & (vm.f_stack().len() == f));
    ck(5, vm.state().source_id == 0);
    ck(6, os().opened() == 0);
    ck(7, !vm.state().is_compiling);
    // and lines of the terminal go on
    eval(vm, "23 note");
    ck(8, quiet(vm) & (unsafe { LOG[LOG.len() - 1] } == 23));
    reach(1);
}
/// Three lines in a file, two in the one it includes.
pub extern "C" fn h_c20_include(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let a = arg as usize % 14;
    let m = vec![a, choice(14), choice(14)];
    let n = vec![choice(14), choice(14)];
    if !sane(&m, false) || !sane(&n, true) {
        end()
    }
    os().shorts = 0;
    run(
        vm,
        &Plan {
            m,
            n,
            crlf: arg / 14 % 2 == 1,
            last: arg / 28 == 0,
        },
    );
}
/// Any pieces the kernel may deliver.
pub extern "C" fn h_c20_pieces(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    os().shorts = 2;
    let p = Plan {
        m: vec![[0, 4], [3, 8], [9, 10], [6, 1]][arg as usize % 4].to_vec(),
        n: vec![0, 13],
        crlf: arg / 4 % 2 == 1,
        last: arg / 8 == 0,
    };
    run(vm, &p);
}

/// Files that include each other as deep as it goes, and deeper.
pub extern "C" fn h_c20_deep(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    vm.add_primitive("note", note);
    good(vm, "' bye handler!", 99);
    unsafe { LOG = vec![] }
    good(vm, "variable k", 90);
    let deep = arg == 1;
    let n = range(1, 18);
    if deep {
        // the return stack limits this one
        os().arm(&[("r0", b"1 note deeper 2 note\n3 note\n".to_vec())]);
        good(vm, ": deeper -1 k +! k @ if s\" r0\" included then ;", 92);
    } else {
        for i in 0..n {
            let next = format!("1 note include r{} 2 note\n3 note\n", i + 1);
            let t = if i + 1 < n { next } else { "1 note 2 note\r\n3 note".to_string() };
            let name = format!("r{}", i);
            os().arm(&[(&name, t.into_bytes())]);
        }
        os().arm(&[("s", b"1 note include t 2 note\n3 note".to_vec()), ("t", b"4 note".to_vec())]);
    }
    recover(vm);
    call(vm, "k");
    let a = sget(vm, 0) as usize;
    recover(vm);
    poke(a, n as isize);
    eval(vm, "include r0 9 note");
    let log = unsafe { &LOG };
    if n <= if deep { 12 } else { 16 } {
        ck(1, quiet(vm));
        ck(2, log.len() == 3 * n + 1);
        for i in 0..n {
            ck(3, log[i] == 1);
        }
        for i in 0..n {
            ck(4, (log[n + 2 * i] == 2) & (log[n + 2 * i + 1] == 3));
        }
        ck(5, log[3 * n] == 9);
        ck(6, os().opened() == 0);
    } else if n > 16 {
        // too deep is an error, and nothing but one
        ck(7, !quiet(vm));
        ck(8, (log.len() <= 16) & (vm.s_stack().len() == 0));
    }
    recover(vm);
    // as ever
    unsafe { LOG = vec![] }
    poke(a, 2);
    eval(vm, if deep { "include r0 9 note" } else { "include s 9 note" });
    ck(9, quiet(vm));
    ck(10, unsafe { LOG.len() == if deep { 7 } else { 5 } });
    reach(1);
}

/// Errors in included files, again and again.
pub extern "C" fn h_c20_again(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    vm.add_primitive("note", note);
    good(vm, "' bye handler!", 99);
    unsafe { LOG = vec![] }
    let bad = ["1 note zork 2 note\n3 note\n", "1 note include n 2 note\n", "1 note abort\n", ": x if ;\n", "include nofile\n", "1 note\n"][arg as usize % 6];
    os().arm(&[
        ("m", bad.as_bytes().to_vec()),
        ("n", b"zork\n4 note".to_vec()),
        ("o", b"5 note\n6 note include p\n7 note".to_vec()),
        ("p", b"8 note".to_vec()),
    ]);
    let last = arg % 6 == 5;
    for _ in 0..40 {
        unsafe { LOG = vec![] }
        eval(vm, "include m 9 note");
        ck(1, quiet(vm) == last);
        ck(2, vm.s_stack().is_empty());
        unsafe {
            for x in LOG.iter() {
                ck(3, (*x == 1) | (last & (*x == 9)));
            }
        }
        recover(vm);
        unsafe { LOG = vec![] }
        eval(vm, "include o 9 note");
        ck(4, quiet(vm));
        unsafe { ck(5, LOG == [5, 6, 8, 7, 9]) }
        recover(vm);
    }
    reach(1);
}

/// The interactive program tells file, line number and line of an error.
pub extern "C" fn h_c20_report(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, "-work", 92);
    vm.add_primitive("receive", crate::c18::receive);
    vm.add_primitive("flush-output", crate::c18::flush);
    vm.add_primitive("note", note);
    good(vm, "marker -work", 93);
    unsafe { LOG = vec![] }
    // lines before the error in m, and in the file it includes
    let a = choice(4);
    let b = choice(4);
    let inner = arg % 2 == 1;
    let after = arg / 2 % 2 == 1;
    let mut m = String::new();
    for i in 0..a {
        m.push_str(["1 note\n", "include o 2 note\r\n", "\n"][(i + arg as usize / 4) % 3]);
    }
    let mut n = String::new();
    for _ in 0..b {
        n.push_str("\n");
    }
    n.push_str("3 note zork 4 note\n5 note\n");
    m.push_str(if inner { "6 note include n 7 note" } else { "6 note zork 7 note" });
    if after {
        m.push_str("\n8 note\n");
    }
    os().arm(&[
        ("dir/m", m.as_bytes().to_vec()),
        ("n", n.as_bytes().to_vec()),
        ("o", b"\n\n\n9 note\n\n".to_vec()),
    ]);
    let o = crate::c18::session(vm, &["include dir/m 10 note", "11 note", "include o 12 note"]);
    let (path, no, l) = if inner {
        ("n", b + 1, "3 note zork 4 note")
    } else {
        ("dir/m", a + 1, "6 note zork 7 note")
    };
    let want = format!("zork Undefined word (:{}: {})", no, l);
    let want = want.replace("(:", &format!("({}:", path));
    ck(1, crate::c18::count(&o, want.as_bytes()) == 1);
    ck(2, crate::c18::count(&o, b"zork Undefined") == 1);
    unsafe {
        let k = LOG.len();
        ck(3, k >= 4);
        ck(4, LOG[k - 3..] == [11, 9, 12]);
        for x in LOG.iter() {
            ck(5, !(*x == 10 || *x == 4 || *x == 5 || *x == 7 || *x == 8));
        }
        ck(6, LOG.contains(&6) && (LOG.contains(&3) == inner));
    }
    reach(1);
}
