//! C12: float tokens.
use crate::util::*;

fn text(t: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(t) }
}
struct Parts {
    neg: bool,
    int: isize,
    frac: isize,
    frac_len: i32,
    exp: isize,
}
fn is_digit(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}
/// The number read, or none when too long to represent.
fn digits(t: &[u8], i: &mut usize) -> Option<isize> {
    let mut v: isize = 0;
    let mut over = false;
    while *i < t.len() && is_digit(t[*i]) {
        match v.checked_mul(10).and_then(|x| x.checked_add((t[*i] - b'0') as isize)) {
            Some(x) => v = x,
            None => {
                over = true;
                v = 0
            }
        }
        *i += 1;
    }
    if over {
        None
    } else {
        Some(v)
    }
}
enum Verdict {
    No,
    /// written like a float, but with too many digits
    TooLong,
    Is(Parts),
}
/// [sign]digits[.[digits]](e|E)[sign][digits]
fn float_token(t: &[u8]) -> Verdict {
    let mut p = Parts { neg: false, int: 0, frac: 0, frac_len: 0, exp: 0 };
    let mut i = 0;
    let mut long = false;
    if i < t.len() {
        if t[i] == b'-' {
            p.neg = true;
            i += 1;
        } else if t[i] == b'+' {
            i += 1;
        }
    }
    let s = i;
    match digits(t, &mut i) {
        Some(v) => p.int = v,
        None => long = true,
    }
    if i == s {
        return Verdict::No;
    }
    if i < t.len() && t[i] == b'.' {
        i += 1;
        let s = i;
        match digits(t, &mut i) {
            Some(v) => p.frac = v,
            None => long = true,
        }
        p.frac_len = (i - s) as i32;
    }
    if i >= t.len() || !(t[i] == b'e' || t[i] == b'E') {
        return Verdict::No;
    }
    i += 1;
    let mut eneg = false;
    if i < t.len() {
        if t[i] == b'-' {
            eneg = true;
            i += 1;
        } else if t[i] == b'+' {
            i += 1;
        }
    }
    match digits(t, &mut i) {
        Some(v) => p.exp = if eneg { -v } else { v },
        None => long = true,
    }
    if i != t.len() {
        return Verdict::No;
    }
    if long {
        return Verdict::TooLong;
    }
    Verdict::Is(p)
}
fn value(p: &Parts) -> f64 {
    let s = if p.neg { -1 } else { 1 };
    let f = if p.frac_len > 0 { p.frac as f64 / 10f64.powi(p.frac_len) } else { 0.0 };
    let mut v = (s as f64) * (p.int as f64 + f);
    let mut e = p.exp.max(-1000).min(1000) as i32;
    while e > 300 {
        v *= 1e300;
        e -= 300;
    }
    while e < -300 {
        v *= 1e-300;
        e += 300;
    }
    v * 10f64.powi(e)
}
/// Equal to double precision.
fn close(a: f64, b: f64) -> bool {
    let d = (a - b).abs();
    feq(a, b) || d <= b.abs() * 1e-14 || (d <= 1e-322 && b.abs() < 1e-300)
}
/// The value is that of the token. Where it is not the very same expression,
/// the characters take concrete values.
fn value_is(got: f64, t: &[u8], p: &Parts) -> bool {
    if known(got.to_bits() == value(p).to_bits()) {
        return true;
    }
    for &c in t {
        concretize(c as usize);
    }
    match float_token(t) {
        Verdict::Is(p) => {
            let g = f64::from_bits(concretize(got.to_bits() as usize) as u64);
            close(g, value(&p))
        }
        _ => false,
    }
}

fn convert(vm: &mut VM, t: &[u8]) {
    let (z, f) = (cell(), float());
    let compiling = choice(2) == 1;
    if compiling {
        good(vm, ": p", 90);
    }
    sset(vm, &[z]);
    fset(vm, &[f]);
    vm.set_error(None);
    let h = here(vm);
    vm.evaluate_float(text(t));
    match float_token(t) {
        Verdict::Is(p) => {
            ck(1, quiet(vm));
            if compiling {
                ck(2, sis(vm, &[z]) & fis(vm, &[f]));
                eval(vm, "; p");
                ck(3, quiet(vm));
            }
            ck(4, sis(vm, &[z]));
            let s = vm.f_stack().as_slice();
            ck(5, s.len() == 2 && feq(s[0], f));
            let got = s[1];
            ck(6, value_is(got, t, &p));
            reach(1);
        }
        Verdict::TooLong | Verdict::No => {
            ck(7, !quiet(vm));
            ck(8, sis(vm, &[z]) & fis(vm, &[f]));
            ck(9, here(vm) == h);
            reach(2);
        }
    }
}

/// Any token of arg 7-bit characters.
pub extern "C" fn h_c12_any(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut t = vec![];
    for _ in 0..arg {
        t.push(any7());
    }
    convert(vm, &t);
}
/// Longer tokens: d: any digit, x: any character, others as they are.
pub extern "C" fn h_c12_form(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let forms = [
        "dde", "d.dE", "-d.dde-d", "+dd.e+dd", "-dE", "d.ddddeX", "dddd.dddd", "-ddXdde", "d.e-ddd", "-0.0ddde+d",
        "ddde-dd", "d.dddEd", "dXde-d", "d.dedX", "dd.ddd", ".dde", "-.de", "e", "-e", "d.ee", "d.d.de", "ddee-d",
    ];
    let mut t = vec![];
    for c in forms[arg as usize].bytes() {
        match c {
            b'd' => {
                let d = any7();
                assume((d >= b'0') & (d <= b'9'));
                t.push(d)
            }
            b'X' => t.push(any7()),
            _ => t.push(c),
        }
    }
    convert(vm, &t);
}
/// Numbers at the limits of what can be represented.
pub extern "C" fn h_c12_long(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let forms = [
        "922337203685477580de", "-922337203685477580de", "1.922337203685477580de", "0.0922337203685477580dE1",
        "1e922337203685477580d", "1e-922337203685477580d", "0.000000000000000000000000ddE", "00000000000000000000000000de",
        "de30d", "de-30d", "1.de-32d", "de2147483d", "de214748364d", "1e429496729d", "0e40d", "-0e-40d", "0.0e309", "9de307",
        "1e-214748364d", "d.d99999999999999999999e",
    ];
    let mut t = vec![];
    for c in forms[arg as usize].bytes() {
        match c {
            b'd' => {
                // one path for each
                t.push(b'0' + choice(10) as u8)
            }
            _ => t.push(c),
        }
    }
    convert(vm, &t);
}

fn group(n: &[u8]) -> u32 {
    let mut h: u32 = 5381;
    for &c in n {
        let big = (c.wrapping_sub(b'A') < 26) as u8;
        h = h.wrapping_mul(33).wrapping_add((c | (big * 32)) as u32);
    }
    h % 64
}
/// Through the interpreter.
pub extern "C" fn h_c12_eval(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let forms = ["XeX", "1.Xe", "2XX", "1.dXd", "d.XXe"];
    let compiling = arg / 5 == 1;
    let mut t = vec![];
    for c in forms[(arg % 5) as usize].bytes() {
        match c {
            b'd' => {
                let d = any7();
                assume((d >= b'0') & (d <= b'9'));
                t.push(d)
            }
            b'X' => {
                let c = any7();
                assume((c > 32) & (c < 127));
                t.push(c)
            }
            _ => t.push(c),
        }
    }
    let r = crate::c11::integer(&t, 10);
    if r.is_some() {
        end();
    }
    if arg % 5 != 1 {
        assume(group(&t) % 16 == 5);
    }
    assume(vm.find(text(&t)).is_none());
    let (z, f) = (cell(), float());
    if compiling {
        good(vm, ": p", 90);
    }
    sset(vm, &[z]);
    fset(vm, &[f]);
    eval(vm, text(&t));
    match float_token(&t) {
        Verdict::Is(p) => {
            ck(20, quiet(vm));
            if compiling {
                ck(21, fis(vm, &[f]));
                eval(vm, "; p");
                ck(22, quiet(vm));
            }
            ck(23, sis(vm, &[z]));
            let s = vm.f_stack().as_slice();
            ck(24, s.len() == 2 && feq(s[0], f));
            let got = s[1];
            ck(25, value_is(got, &t, &p));
            reach(1);
        }
        _ => {
            ck(26, err(vm) == code(UNDEFINED_WORD));
            ck(27, vm.s_stack().len() == 0 && vm.f_stack().len() == 0);
        }
    }
}
