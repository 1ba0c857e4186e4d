//! C22: string literals and text output.
use crate::c14::{text, Text};
use crate::util::*;

/// The characters up to `del`: how many, and where the text goes on.
fn upto(t: &Text, del: u32) -> (usize, usize) {
    let mut j = 0;
    while j < t.len() && t.code[j] != del {
        j += 1;
    }
    (j, if j < t.len() { j + 1 } else { j })
}
fn memory_is(a: isize, w: &[u8]) -> bool {
    let mut ok = true;
    for k in 0..w.len() {
        ok &= peek8(a as usize + k) == w[k];
    }
    ok
}
/// Source: a blank, then the text.
fn source(vm: &mut VM, t: &Text) {
    let mut b = vec![b' '];
    b.extend_from_slice(&t.bytes);
    vm.set_source(unsafe { std::str::from_utf8_unchecked(&b) });
}
fn inside(vm: &mut VM, t: &Text, a: isize, n: usize) -> bool {
    let _ = t;
    let (lo, hi) = (start(vm) as isize, here(vm) as isize);
    a >= lo && a + n as isize <= hi
}

/// s" with any text: arg % 16 characters, arg / 16: of all widths.
pub extern "C" fn h_c22_s(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let t = text(arg as usize % 16, arg >= 16);
    let (j, q) = upto(&t, b'"' as u32);
    let pre = choice(2);
    good(vm, if pre == 0 { ": p" } else { "create odd 3 allot : p 11" }, 90);
    let z = cell();
    sset(vm, &[z]);
    source(vm, &t);
    call(vm, "s\"");
    ck(1, quiet(vm) & sis(vm, &[z]));
    ck(2, vm.state().source_index == 1 + t.off[q]);
    good(vm, "7 ; : other s\" xxxxxxxxxxxx\" ; create data 77 , 78 ,", 3);
    let mut want = vec![z];
    if pre == 1 {
        want.push(11);
    }
    sset(vm, &[z]);
    call(vm, "p");
    ck(4, quiet(vm));
    let w = t.part(0, j).to_vec();
    let n = want.len();
    let s = vm.s_stack().as_slice();
    ck(5, s.len() == n + 3);
    let (a, u, m) = (s[n], s[n + 1], s[n + 2]);
    ck(6, (u == w.len() as isize) & (m == 7));
    ck(7, inside(vm, &t, a, w.len()));
    ck(8, memory_is(a, &w));
    // the same string again, and its output
    vm.s_stack().pop();
    let x = any7();
    clear_out(vm);
    sset(vm, &[x as isize]);
    call(vm, "emit");
    sset(vm, &[z, a, u]);
    call(vm, "type");
    ck(9, quiet(vm) & sis(vm, &[z]));
    let mut o = vec![x];
    o.extend_from_slice(&w);
    ck(10, beq(&out(vm), &o));
    reach(1);
}
/// ." with any text
pub extern "C" fn h_c22_dot(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let t = text(arg as usize % 16, arg >= 16);
    let (j, q) = upto(&t, b'"' as u32);
    good(vm, ": p", 90);
    let z = cell();
    sset(vm, &[z]);
    source(vm, &t);
    clear_out(vm);
    call(vm, ".\"");
    ck(1, quiet(vm) & sis(vm, &[z]));
    ck(2, vm.state().source_index == 1 + t.off[q]);
    ck(3, out(vm).is_empty());
    good(vm, "7 ; : other .\" yyyyyyyyyyyyyyy\" ;", 4);
    let w = t.part(0, j);
    let mut o = vec![];
    for _ in 0..2 {
        sset(vm, &[z]);
        call(vm, "p");
        ck(5, quiet(vm) & sis(vm, &[z, 7]));
        o.extend_from_slice(w);
        ck(6, beq(&out(vm), &o));
    }
    reach(1);
}
/// .( prints at once all from where the word ended up to the parenthesis.
pub extern "C" fn h_c22_paren(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let t = text(arg as usize % 16, arg >= 16);
    let (j, q) = upto(&t, b')' as u32);
    let compiling = flag();
    if compiling {
        good(vm, ": p", 90);
    }
    let z = cell();
    sset(vm, &[z]);
    t.put(vm);
    clear_out(vm);
    let h = here(vm);
    call(vm, ".(");
    ck(1, quiet(vm) & sis(vm, &[z]));
    ck(2, vm.state().source_index == t.off[q]);
    ck(3, beq(&out(vm), t.part(0, j)));
    ck(4, here(vm) == h);
    reach(1);
}
/// Whole lines through the interpreter; the text has no delimiter.
/// arg % 8: form, arg / 8: length.
pub extern "C" fn h_c22_line(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut t = vec![];
    for _ in 0..arg / 8 {
        let c = any7();
        assume((c != b'"') & (c != b')'));
        t.push(c);
    }
    let line = |a: &str, t: &[u8], b: &str| {
        let mut v = a.as_bytes().to_vec();
        v.extend_from_slice(t);
        v.extend_from_slice(b.as_bytes());
        unsafe { String::from_utf8_unchecked(v) }
    };
    let mut twice = t.clone();
    twice.extend_from_slice(&t);
    let mut spaced = vec![b' '];
    spaced.extend_from_slice(&t);
    let mut seen = t.clone();
    seen.extend_from_slice(b"|");
    seen.extend_from_slice(&t);
    clear_out(vm);
    vm.s_stack().reset();
    match arg % 8 {
        0 => {
            good(vm, &line(": p s\" ", &t, "\" type 5 ; p 6"), 1);
            ck(2, sis(vm, &[5, 6]));
            ck(3, beq(&out(vm), &t));
        }
        1 => {
            // the delimiter is missing: the text ends with the line
            good(vm, &line(": p s\" ", &t, ""), 1);
            good(vm, "type 5 ; p 6", 1);
            ck(2, sis(vm, &[5, 6]));
            ck(3, beq(&out(vm), &t));
        }
        2 => {
            good(vm, &line(": p .\" ", &t, ""), 1);
            good(vm, "5 ; p 6 p", 1);
            ck(2, sis(vm, &[5, 6, 5]));
            ck(3, beq(&out(vm), &twice));
        }
        3 => {
            good(vm, &line("1 .( ", &t, ") 2 3"), 1);
            ck(2, sis(vm, &[1, 2, 3]));
            ck(3, beq(&out(vm), &spaced));
        }
        4 => {
            good(vm, &line("1 .( ", &t, ""), 1);
            good(vm, "2", 1);
            ck(2, sis(vm, &[1, 2]));
            ck(3, beq(&out(vm), &spaced));
        }
        5 => {
            // one of two strings
            let f = cell();
            good(vm, &line(": p if s\" ", &t, "\" else s\" other\" then 124 emit type 8 ;"), 1);
            sset(vm, &[f]);
            call(vm, "p");
            ck(2, quiet(vm) & sis(vm, &[8]));
            let mut o = vec![b'|'];
            if f != 0 {
                o.extend_from_slice(&t);
            } else {
                o.extend_from_slice(b"other");
            }
            ck(3, beq(&out(vm), &o));
        }
        6 => {
            good(vm, &line(": p .\" ", &t, "\" 124 emit "), 1);
            good(vm, &line(".\" ", &t, "\" ; p"), 1);
            ck(2, sis(vm, &[]));
            ck(3, beq(&out(vm), &seen));
        }
        _ => {
            // a string to another word, with a loop around
            good(vm, &line(": p 2 0 do s\" ", &t, "\" i if type else 2drop then loop ; p"), 1);
            ck(2, sis(vm, &[]));
            ck(3, beq(&out(vm), &t));
        }
    }
    reach(1);
}
/// A long string, some of its characters arbitrary.
pub extern "C" fn h_c22_long(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = [255, 256, 700, 1023][arg as usize];
    let mut t = vec![];
    for i in 0..n {
        if i % 97 == 3 || i == n - 1 || i == 255 {
            let c = any7();
            assume(c != b'"');
            t.push(c);
        } else {
            t.push(b'a' + (i % 26) as u8);
        }
    }
    let mut l = b": p s\" ".to_vec();
    l.extend_from_slice(&t);
    l.extend_from_slice(b"\" 5 ; : q .\" ");
    l.extend_from_slice(&t);
    l.extend_from_slice(b"\" ; p");
    good(vm, unsafe { std::str::from_utf8_unchecked(&l) }, 1);
    let (a, u) = (sget(vm, 0), sget(vm, 1));
    ck(2, sis(vm, &[a, n as isize, 5]));
    ck(3, (u == n as isize) && memory_is(a, &t));
    sset(vm, &[]);
    clear_out(vm);
    call(vm, "q");
    ck(4, quiet(vm) & sis(vm, &[]) & beq(&out(vm), &t));
    reach(1);
}
/// emit: any cell is the character of its low byte.
pub extern "C" fn h_c22_emit(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut o = vec![];
    clear_out(vm);
    let z = cell();
    for _ in 0..=arg {
        let x = cell();
        sset(vm, &[z, x]);
        call(vm, "emit");
        ck(1, quiet(vm) & sis(vm, &[z]));
        let b = x as u8;
        if b < 128 {
            o.push(b);
        } else {
            o.push(0xc0 | b >> 6);
            o.push(0x80 | b & 0x3f);
        }
    }
    ck(2, beq(&out(vm), &o));
    reach(1);
}
/// type from any place of memory; count, /string; space, cr, spaces.
pub extern "C" fn h_c22_type(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, "create area 32 allot area", 90);
    let a = sget(vm, 0) as usize;
    let mut b = vec![];
    for i in 0..16 {
        let c = any7();
        poke8(a + i, c);
        b.push(c);
    }
    clear_out(vm);
    let z = cell();
    match arg {
        0 => {
            let (off, n) = (choice(9), choice(8));
            sset(vm, &[z, (a + off) as isize, n as isize]);
            call(vm, "type");
            ck(1, beq(&out(vm), &b[off..off + n]));
        }
        1 => {
            let n = choice(12);
            poke8(a, n as u8);
            sset(vm, &[z, a as isize]);
            call(vm, "count");
            call(vm, "type");
            ck(1, beq(&out(vm), &b[1..1 + n]));
        }
        2 => {
            call(vm, "space");
            sset(vm, &[z]);
            call(vm, "cr");
            ck(1, beq(&out(vm), b" \n"));
        }
        3 => {
            let n = cell();
            assume(n < 12);
            sset(vm, &[z, n]);
            call(vm, "spaces");
            let o = out(vm);
            ck(1, o.len() as isize == if n > 0 { n } else { 0 });
            let mut ok = true;
            for c in o {
                ok &= c == b' ';
            }
            ck(2, ok);
        }
        _ => {
            // printable characters as they are, others as _
            let n = choice(8);
            sset(vm, &[z, a as isize, n as isize]);
            call(vm, "_type");
            let mut o = vec![];
            for &c in &b[..n] {
                o.push(if (c >= 32) & (c < 127) { c } else { b'_' });
            }
            ck(1, beq(&out(vm), &o));
        }
    }
    ck(3, quiet(vm) & sis(vm, &[z]));
    let mut ok = true;
    for i in 1..16 {
        ok &= peek8(a + i) == b[i];
    }
    ck(4, ok);
    reach(1);
}
/// Every distinct exception has a text; names of words.
pub extern "C" fn h_c22_word(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let names = ["dup", "spaces", "(", "s\"", "2constant", "fvariable"];
    let z = cell();
    clear_out(vm);
    if arg == 0 {
        let i = choice(names.len());
        let w = xt(vm, names[i]);
        sset(vm, &[z, w as isize]);
        call(vm, ".word");
        let mut o = names[i].as_bytes().to_vec();
        o.push(b' ');
        ck(1, beq(&out(vm), &o));
    } else {
        // no such word
        let w = cell();
        assume((w < 0) | (w > 5000));
        sset(vm, &[z, w]);
        call(vm, ".word");
        ck(1, beq(&out(vm), b"unknown "));
    }
    ck(2, quiet(vm) & sis(vm, &[z]));
    reach(1);
}
