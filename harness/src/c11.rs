//! C11: integer tokens.
use crate::util::*;

fn digit(c: u8) -> isize {
    // 99: not a digit; without branching
    let d = c.wrapping_sub(b'0');
    let l = c.wrapping_sub(b'a');
    let u = c.wrapping_sub(b'A');
    let mut r = 99;
    if d < 10 {
        r = d as isize
    } else if l < 6 {
        r = l as isize + 10
    } else if u < 6 {
        r = u as isize + 10
    }
    r
}
/// What the token says.
pub fn integer(t: &[u8], base: isize) -> Option<isize> {
    if t.len() == 3 && t[0] == 39 && t[2] == 39 {
        return Some(t[1] as isize);
    }
    let mut i = 0;
    let mut b = base;
    if i < t.len() {
        let p = t[i];
        if p == b'%' {
            b = 2;
            i += 1;
        } else if p == b'#' {
            b = 10;
            i += 1;
        } else if p == b'$' {
            b = 16;
            i += 1;
        }
    }
    let mut neg = false;
    if i < t.len() {
        if t[i] == b'-' {
            neg = true;
            i += 1;
        } else if t[i] == b'+' {
            i += 1;
        }
    }
    if i == t.len() {
        return None;
    }
    let mut v: isize = 0;
    while i < t.len() {
        let d = digit(t[i]);
        if d == 99 || d >= b {
            return None;
        }
        v = v.wrapping_mul(b).wrapping_add(d);
        i += 1;
    }
    Some(if neg { 0isize.wrapping_sub(v) } else { v })
}
fn text(t: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(t) }
}
const BASES: [isize; 11] = [10, 16, 2, 8, 36, 1, 0, -10, 3, 7, isize::MAX];

/// The number converter alone, interpreting or compiling.
fn convert(vm: &mut VM, t: &[u8], base: isize) {
    set_base(vm, base);
    let z = cell();
    let f = float();
    sset(vm, &[z]);
    fset(vm, &[f]);
    let compiling = choice(2) == 1;
    if compiling {
        good(vm, ": p", 90);
        sset(vm, &[z]);
        set_base(vm, base);
    }
    vm.set_error(None);
    let h = here(vm);
    vm.evaluate_integer(text(t));
    let e = integer(t, base);
    match e {
        Some(v) => {
            ck(1, quiet(vm));
            if compiling {
                ck(2, sis(vm, &[z]));
                eval(vm, ";");
                eval(vm, "p");
            }
            ck(3, quiet(vm));
            ck(4, sis(vm, &[z, v]));
            ck(5, fis(vm, &[f]));
            reach(1);
        }
        None => {
            ck(6, !quiet(vm));
            ck(7, sis(vm, &[z]) & fis(vm, &[f]));
            ck(8, here(vm) == h);
            reach(2);
        }
    }
}

/// Any token of 1 + arg / 12 7-bit characters in any base.
pub extern "C" fn h_c11_any(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut t = vec![];
    for _ in 0..1 + arg / 12 {
        t.push(any7());
    }
    let k = (arg % 12) as usize;
    let b = if k < 11 { BASES[k] } else { cell() };
    convert(vm, &t, b);
}
/// Tokens of many digits.
pub extern "C" fn h_c11_long(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (n, kind, prefix): (usize, usize, &[u8]) = [
        (19, 0, b"" as &[u8]),
        (20, 0, b"-" as &[u8]),
        (21, 0, b"+"),
        (25, 0, b"#-"),
        (16, 1, b"$"),
        (17, 1, b"$-"),
        (17, 2, b"$"),
        (64, 3, b"%"),
        (65, 3, b"%-"),
        (22, 4, b""),
        (12, 5, b""),
    ][arg as usize];
    let mut t = prefix.to_vec();
    for _ in 0..n {
        let c = any7();
        match kind {
            0 => assume((c >= b'0') & (c <= b'9')),
            1 => assume((c >= b'a') & (c <= b'f')),
            2 => assume((c >= b'A') & (c <= b'F')),
            3 => assume((c >= b'0') & (c <= b'1')),
            4 => assume((c >= b'0') & (c <= b'7')),
            _ => assume((c >= b'0') & (c <= b'9')),
        }
        t.push(c);
    }
    let base = [10, 10, 10, 16, 10, 2, 8, 10, 10, 8, 16][arg as usize];
    convert(vm, &t, base);
}
/// The character between quotes, any byte sequence of a character.
pub extern "C" fn h_c11_char(vm: *mut VM, _: u64) {
    let vm = unsafe { &mut *vm };
    let c = any7();
    assume((c > 32) & (c < 127));
    let t = [39, c, 39];
    let z = cell();
    sset(vm, &[z]);
    let compiling = choice(2) == 1;
    if compiling {
        eval(vm, ": p");
        sset(vm, &[z]);
    }
    eval(vm, text(&t));
    if compiling {
        eval(vm, "; p");
    }
    ck(10, quiet(vm));
    ck(11, sis(vm, &[z, c as isize]));
    reach(1);
}

/// The bucket the present hash function puts a name into (only to pick
/// groups of tokens).
fn group(n: &[u8]) -> u32 {
    let mut h: u32 = 5381;
    for &c in n {
        let big = (c.wrapping_sub(b'A') < 26) as u8;
        h = h.wrapping_mul(33).wrapping_add((c | (big * 32)) as u32);
    }
    h % 64
}
/// Through the interpreter: a token that is no word.
pub extern "C" fn h_c11_eval(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = 1 + (arg % 4) as usize;
    let compiling = arg / 4 == 1;
    let mut t = vec![];
    for _ in 0..n {
        let c = any7();
        assume((c > 32) & (c < 127));
        t.push(c);
    }
    if n > 1 {
        assume(group(&t) == 7 + 13 * choice(if n == 2 { 4 } else { 2 }) as u32);
    }
    let base = [10, 16, 2][choice(3)];
    set_base(vm, base);
    // a word?
    assume(vm.find(text(&t)).is_none());
    // a float? (see C12)
    assume(!((t[n - 1] == b'e') | (t[n - 1] == b'E')));
    if n > 2 {
        assume(!((t[n - 2] == b'e') | (t[n - 2] == b'E')));
    }
    if n > 3 {
        assume(!((t[n - 3] == b'e') | (t[n - 3] == b'E')));
    }
    let (z, f) = (cell(), float());
    if compiling {
        good(vm, "decimal : p", 90);
        set_base(vm, base);
    }
    sset(vm, &[z]);
    fset(vm, &[f]);
    eval(vm, text(&t));
    match integer(&t, base) {
        Some(v) => {
            ck(12, quiet(vm));
            if compiling {
                ck(13, sis(vm, &[z]));
                eval(vm, "; p");
                ck(14, quiet(vm));
            }
            ck(15, sis(vm, &[z, v]));
            ck(16, fis(vm, &[f]));
            reach(1);
        }
        None => {
            ck(17, err(vm) == code(UNDEFINED_WORD));
            ck(18, vm.s_stack().len() == 0 && vm.f_stack().len() == 0);
            if compiling {
                ck(19, vm.find("p") == None);
            }
        }
    }
}
