//! C13: number output.
use crate::util::*;

/// A digit of base ten.
fn digit() -> usize {
    (any8() % 10) as usize
}
/// Every number of `k` decimal digits, with a sign, and its digits.
fn decimal(k: usize, neg: bool) -> (isize, Vec<u8>) {
    let mut mag = 0usize;
    let mut p = 1usize;
    let mut rev = vec![];
    // 19 digits: the first ones of the limit, a smaller one, and the rest
    let lim: &[u8; 19] = if neg { b"9223372036854775808" } else { b"9223372036854775807" };
    let same = if k == 19 { choice(20) } else { 0 };
    for i in 0..k {
        let at = k - 1 - i;
        let d = if k == 19 && at < same {
            (lim[at] - b'0') as usize
        } else if k == 19 && at == same {
            let l = lim[at] - b'0';
            let low = (at == 0) as u8;
            if l == low {
                end();
            }
            (low + any8() % (l - low)) as usize
        } else if at == 0 && (k > 1 || neg) {
            1 + (any8() % 9) as usize
        } else {
            digit()
        };
        rev.push(b'0' + d as u8);
        mag = mag.wrapping_add(d.wrapping_mul(p));
        p = p.wrapping_mul(10);
    }
    let mut t = vec![];
    if neg {
        t.push(b'-');
    }
    for c in rev.iter().rev() {
        t.push(*c);
    }
    (if neg { 0usize.wrapping_sub(mag) as isize } else { mag as isize }, t)
}
/// Every cell whose two's complement has `len` digits of `bits` bits.
fn binary(bits: u32, len: u32) -> (isize, Vec<u8>) {
    let n = any64();
    if bits * len < 64 {
        assume(n >> (bits * len) == 0);
    }
    if len > 1 {
        assume(n >> (bits * (len - 1)) != 0);
    }
    let mut t = vec![];
    for i in (0..len).rev() {
        let d = ((n >> (bits * i)) & ((1 << bits) - 1)) as u8;
        t.push(if bits == 4 { if_digit(d) } else { b'0' + d });
    }
    (n as isize, t)
}
/// '0'..'9', 'A'..'F' without a branch
fn if_digit(d: u8) -> u8 {
    const HEX: &[u8; 16] = b"0123456789ABCDEF";
    HEX[(d & 15) as usize]
}
fn number(base: isize, i: usize) -> (isize, Vec<u8>) {
    match base {
        10 => decimal(i % 19 + 1, i >= 19),
        2 => binary(1, i as u32 + 1),
        8 => binary(3, i as u32 + 1),
        _ => binary(4, i as u32 + 1),
    }
}
fn count(base: isize) -> usize {
    match base {
        10 => 38,
        2 => 64,
        8 => 22,
        _ => 16,
    }
}
const BASES: [isize; 4] = [10, 2, 8, 16];

/// Field widths worth a path for a number of `len` characters.
fn width(len: usize) -> isize {
    match choice(9) {
        0 => 0,
        1 => 1,
        2 => len as isize - 1,
        3 => len as isize,
        4 => len as isize + 1,
        5 => len as isize + 7,
        6 => 90,
        7 => {
            // any negative width
            let w = cell();
            assume(w < 0);
            w
        }
        _ => isize::MIN,
    }
}
fn padded(t: &[u8], w: isize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = t.len() as isize;
    while i < w {
        v.push(b' ');
        i += 1;
    }
    v.extend_from_slice(t);
    v
}
/// Runs the word, after something else was printed, and compares.
fn shows(vm: &mut VM, name: &str, stack: &[isize], left: &[isize], base: isize, want: &[u8]) {
    let (x, y) = (any7(), any7());
    clear_out(vm);
    set_base(vm, base);
    sset(vm, &[x as isize]);
    call(vm, "emit");
    if flag() {
        let z = cell();
        let mut v = vec![z];
        v.extend_from_slice(stack);
        sset(vm, &v);
        call(vm, name);
        ck(1, quiet(vm));
        let mut l = vec![z];
        l.extend_from_slice(left);
        ck(2, sis(vm, &l));
    } else {
        let mut s = String::from(": p ");
        s.push_str(name);
        s.push_str(" ;");
        set_base(vm, 10);
        good(vm, &s, 90);
        set_base(vm, base);
        sset(vm, stack);
        call(vm, "p");
        ck(1, quiet(vm));
        ck(2, sis(vm, left));
    }
    sset(vm, &[y as isize]);
    call(vm, "emit");
    ck(3, quiet(vm));
    let mut w = vec![x];
    w.extend_from_slice(want);
    w.push(y);
    ck(4, beq(&out(vm), &w));
    let a = vm.data_space().system_variables().base_addr();
    ck(5, peek(a) == base);
    reach(1);
}

/// .r in base BASES[arg % 4], for the numbers of one length each
pub extern "C" fn h_c13_dot_r(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let base = BASES[arg as usize % 4];
    let parts = arg as usize / 4;
    let i = choice(count(base));
    if i % 4 != parts {
        return;
    }
    let (n, t) = number(base, i);
    // every kind of width for some lengths, two of them for the others
    let w = if i % 19 == 0 || i % 19 == 3 || i % 19 == 18 {
        width(t.len())
    } else if flag() {
        t.len() as isize + i as isize % 3
    } else {
        let w = cell();
        assume(w < t.len() as isize);
        w
    };
    shows(vm, ".r", &[n, w], &[], base, &padded(&t, w));
}
/// .
pub extern "C" fn h_c13_dot(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let base = BASES[arg as usize];
    let (n, mut t) = number(base, choice(count(base)));
    t.push(b' ');
    shows(vm, ".", &[n], &[], base, &t);
}
/// ?
pub extern "C" fn h_c13_question(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let base = BASES[arg as usize];
    let (n, mut t) = number(base, choice(count(base)));
    t.push(b' ');
    good(vm, "variable v v", 91);
    let a = sget(vm, 0);
    poke(a as usize, n);
    shows(vm, "?", &[a], &[], base, &t);
    ck(6, peek(a as usize) == n);
}
/// h. and h.r, in any base
pub extern "C" fn h_c13_hex(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let base = cell();
    let (n, mut t) = number(16, choice(16));
    if arg == 0 {
        t.push(b' ');
        shows(vm, "h.", &[n], &[], base, &t);
    } else {
        let w = width(t.len());
        // h.r is .r followed by a space
        let _ = &mut t;
        let mut p = padded(&t, w);
        if arg == 2 {
            p.push(b' ');
        }
        shows(vm, "h.r", &[n, w], &[], base, &p);
    }
}
/// .s prints all items in decimal, whatever the base, and leaves them.
pub extern "C" fn h_c13_dot_s(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let base = cell();
    let i = choice(38);
    let (n, t) = number(10, i);
    let mut items = vec![];
    let mut want = vec![];
    let fixed: [(isize, &str); 6] = [
        (0, "0 "), (isize::MIN, "-9223372036854775808 "), (isize::MAX, "9223372036854775807 "),
        (-1, "-1 "), (1000000, "1000000 "), (-100, "-100 "),
    ];
    for j in 0..arg as usize {
        if j == arg as usize / 2 {
            items.push(n);
            want.extend_from_slice(&t);
            want.push(b' ');
        } else {
            let (v, s) = fixed[(i + j) % 6];
            items.push(v);
            want.extend_from_slice(s.as_bytes());
        }
    }
    clear_out(vm);
    set_base(vm, base);
    sset(vm, &items);
    call(vm, ".s");
    ck(1, quiet(vm));
    ck(2, sis(vm, &items));
    ck(4, beq(&out(vm), &want));
    let a = vm.data_space().system_variables().base_addr();
    ck(5, peek(a) == base);
    reach(1);
}
/// Any other base is refused, and nothing is printed. The handler leaves the
/// word that failed.
pub extern "C" fn h_c13_base(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, "' bye handler!", 91);
    let base = cell();
    assume((base != 2) & (base != 8) & (base != 10) & (base != 16));
    clear_out(vm);
    let x = any7();
    sset(vm, &[x as isize]);
    call(vm, "emit");
    set_base(vm, base);
    let (n, w) = (cell(), cell());
    match arg {
        0 => {
            sset(vm, &[n, w]);
            call(vm, ".r");
        }
        _ => {
            sset(vm, &[n]);
            call(vm, ".");
        }
    }
    ck(6, err(vm) == code(UNSUPPORTED_OPERATION));
    ck(7, beq(&out(vm), &[x]));
    let a = vm.data_space().system_variables().base_addr();
    ck(8, peek(a) == base);
    reach(1);
}
/// decimal and hex, and what . prints after them
pub extern "C" fn h_c13_switch(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let base = cell();
    set_base(vm, base);
    call(vm, if arg == 0 { "decimal" } else { "hex" });
    ck(1, quiet(vm));
    let a = vm.data_space().system_variables().base_addr();
    ck(5, peek(a) == if arg == 0 { 10 } else { 16 });
    reach(1);
}
