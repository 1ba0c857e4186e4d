//! C05: memory words.
use crate::util::*;

/// Free memory above the dictionary, all bytes arbitrary.
fn wild(vm: &mut VM) -> (usize, usize, usize) {
    let (s, l, h) = (start(vm), limit(vm), here(vm));
    havoc(h as *mut u8, l - h);
    (s, l, h)
}
/// An arbitrary position of the data space.
fn probe(s: usize, l: usize) -> usize {
    let b = any64() as usize;
    assume((b >= s) & (b < l));
    b
}
/// 1: the area is inside, 0: it is not, 2: it touches the null cell.
fn class(a: usize, n: usize, s: usize, l: usize) -> usize {
    if a < s || a > l - n {
        0
    } else if a < s + 8 {
        2
    } else {
        1
    }
}
fn area(b: usize, a: usize, n: usize) -> bool {
    b.wrapping_sub(a) < n
}

const P: [&str; 6] = ["@", "!", "c@", "c!", "f@", "f!"];

/// The primitives, at every 64-bit address.
pub extern "C" fn h_c05_prim(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = P[arg as usize];
    let size = if name.as_bytes()[0] == b'c' { 1 } else { 8 };
    let fl = name.as_bytes()[0] == b'f';
    let store = arg % 2 == 1;
    let w = xt(vm, name);
    let (s, l, _) = wild(vm);
    let a0 = any64() as usize;
    // f@ and f! act on the float-aligned address
    let a = if fl { a0.wrapping_add(7) & !7 } else { a0 };
    let b = probe(s, l);
    let was = peek8(b);
    let z = cell();
    let x = cell();
    let f = f64::from_bits(any64());
    let c = class(a, size, s, l);
    let mut old = [0u8; 8];
    if c != 0 {
        for i in 0..size {
            old[i] = peek8(a + i);
        }
    }
    match arg {
        0 | 2 | 4 => {
            sset(vm, &[z, a0 as isize]);
            fset(vm, &[2.5]);
        }
        1 | 3 => {
            sset(vm, &[z, x, a0 as isize]);
            fset(vm, &[2.5]);
        }
        _ => {
            sset(vm, &[z, a0 as isize]);
            fset(vm, &[2.5, f]);
        }
    }
    call_xt(vm, w);
    let e = err(vm);
    let now = peek8(b);
    if c == 0 {
        ck(1, e == code(INVALID_MEMORY_ADDRESS));
        ck(2, now == was);
        reach(2);
        return;
    }
    if c == 1 {
        ck(3, e == 0);
        reach(3);
    }
    if e != 0 {
        ck(4, e == code(INVALID_MEMORY_ADDRESS));
        ck(5, now == was);
        return;
    }
    let mut word = 0u64;
    for i in 0..size {
        word |= (old[i] as u64) << (8 * i);
    }
    if !store {
        ck(6, now == was);
        if fl {
            ck(7, sis(vm, &[z]) & (vm.f_stack().len() == 2));
            let v = vm.f_stack().as_slice()[1].to_bits();
            ck(8, v == word);
        } else {
            ck(9, sis(vm, &[z, word as isize]) & fis(vm, &[2.5]));
        }
    } else {
        ck(10, sis(vm, &[z]) & fis(vm, &[2.5]));
        let v = if fl { f.to_bits() } else { x as u64 };
        let mut ok = true;
        for i in 0..size {
            ok &= peek8(a + i) == (v >> (8 * i)) as u8;
        }
        ck(11, ok);
        ck(12, area(b, a, size) | (now == was));
    }
    reach(1);
}

/// move, valid areas of up to 6 bytes (arg = length).
pub extern "C" fn h_c05_move(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let w = xt(vm, "move");
    let u = arg as usize;
    let (s, l, _) = wild(vm);
    let a1 = any64() as usize;
    let a2 = any64() as usize;
    assume((a1 >= s + 8) & (a1 <= l - u) & (a2 >= s + 8) & (a2 <= l - u));
    let b = probe(s, l);
    let was = peek8(b);
    let mut old = vec![];
    for i in 0..u {
        old.push(peek8(a1 + i));
    }
    let z = cell();
    sset(vm, &[z, a1 as isize, a2 as isize, u as isize]);
    call_xt(vm, w);
    ck(20, quiet(vm));
    ck(21, sis(vm, &[z]));
    let mut ok = true;
    for i in 0..u {
        ok &= peek8(a2 + i) == old[i];
    }
    ck(22, ok);
    ck(23, area(b, a2, u) | (peek8(b) == was));
    reach(1);
}

/// move when an area is not inside: any addresses, any length.
pub extern "C" fn h_c05_move_bad(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let w = xt(vm, "move");
    let (s, l, _) = wild(vm);
    let a1 = any64() as usize;
    let a2 = any64() as usize;
    let u = any64() as usize;
    let b = probe(s, l);
    let was = peek8(b);
    if arg == 0 {
        // a positive length
        assume((u > 0) & ((u as isize) > 0));
        let bad1 = (a1 < s) | (a1 > l) | (u > l.wrapping_sub(a1));
        let bad2 = (a2 < s) | (a2 > l) | (u > l.wrapping_sub(a2));
        assume(bad1 | bad2);
    } else {
        assume(u as isize <= 0);
    }
    let z = cell();
    sset(vm, &[z, a1 as isize, a2 as isize, u as isize]);
    call_xt(vm, w);
    if arg == 0 {
        ck(24, err(vm) == code(INVALID_MEMORY_ADDRESS));
    } else {
        ck(25, u != 0 || (quiet(vm) && sis(vm, &[z])));
    }
    ck(26, peek8(b) == was);
    reach(1);
}

/// fill, areas inside, lengths 0..6 and negative
pub extern "C" fn h_c05_fill(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let w = xt(vm, "fill");
    let (s, l, h) = wild(vm);
    let u = arg as usize;
    let a = any64() as usize;
    assume((a >= h) & (a <= l - u));
    let ch = cell();
    let b = probe(s, l);
    let was = peek8(b);
    let z = cell();
    let n = if arg == 0 { -(range(0, 2) as isize) } else { u as isize };
    sset(vm, &[z, a as isize, n, ch]);
    call_xt(vm, w);
    ck(30, quiet(vm));
    ck(31, sis(vm, &[z]));
    let mut ok = true;
    for i in 0..u {
        ok &= peek8(a + i) == ch as u8;
    }
    ck(32, ok);
    ck(33, area(b, a, u) | (peek8(b) == was));
    reach(1);
}

/// fill, part of the area outside (small lengths): an exception, and nothing
/// beside the area is changed.
pub extern "C" fn h_c05_fill_bad(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let w = xt(vm, "fill");
    let (s, l, h) = wild(vm);
    let u = arg as usize;
    let a = any64() as usize;
    assume(((a < s) | (a > l - u)) & (a != 0x12345678));
    let ch = cell();
    let b = probe(s, l);
    let was = peek8(b);
    sset(vm, &[a as isize, u as isize, ch]);
    call_xt(vm, w);
    ck(34, err(vm) == code(INVALID_MEMORY_ADDRESS));
    // an area that ends in the data space begins before it: then the null cell
    // and the base may be hit
    ck(35, area(b, a, u) | (peek8(b) == was));
    let _ = h;
    reach(1);
}

/// Two-cell and read-modify-write words, at every address but those of the
/// dictionary (whose code is running).
pub extern "C" fn h_c05_comp(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = ["2@", "2!", "+!", "on", "off", "count", "?"][arg as usize];
    let size = match arg {
        0 | 1 => 16,
        5 => 1,
        _ => 8,
    };
    let w = xt(vm, name);
    let (s, l, h) = wild(vm);
    let a = any64() as usize;
    assume((a >= h) | (a < s));
    // an area that only begins outside cannot wrap into the dictionary
    assume((a < s - 16) | (a >= h));
    let b = probe(s, l);
    let was = peek8(b);
    let (z, x1, x2) = (cell(), cell(), cell());
    let valid = (a >= h) & (a <= l - size);
    let (mut o1, mut o2) = (0isize, 0isize);
    if valid {
        match arg {
            5 => o1 = peek8(a) as isize,
            0 | 1 => {
                o1 = peek(a);
                o2 = peek(a + 8);
            }
            _ => o1 = peek(a),
        }
    }
    match arg {
        0 | 3 | 4 | 5 => sset(vm, &[z, a as isize]),
        1 => sset(vm, &[z, x1, x2, a as isize]),
        2 => sset(vm, &[z, x1, a as isize]),
        _ => {
            end();
        }
    }
    call_xt(vm, w);
    let now = peek8(b);
    if !valid {
        ck(40, err(vm) == code(INVALID_MEMORY_ADDRESS));
        ck(41, area(b, a, size) | (now == was));
        reach(2);
        return;
    }
    ck(42, quiet(vm));
    match arg {
        0 => ck(43, sis(vm, &[z, o2, o1])),
        5 => ck(44, sis(vm, &[z, a as isize + 1, o1])),
        _ => ck(45, sis(vm, &[z])),
    }
    match arg {
        1 => ck(46, (peek(a) == x2) & (peek(a + 8) == x1)),
        2 => ck(47, peek(a) == o1.wrapping_add(x1)),
        3 => ck(48, peek(a) == -1),
        4 => ck(49, peek(a) == 0),
        _ => ck(50, now == was),
    }
    ck(51, area(b, a, size) | (now == was));
    reach(1);
}

/// , c, 2, f, allot align: at every alignment of here.
pub extern "C" fn h_c05_comma(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = [",", "c,", "2,", "f,", "compile,"][arg as usize];
    let w = xt(vm, name);
    let (s, l, h0) = wild(vm);
    let off = match choice(2) {
        0 => range(0, 8),
        _ => l - h0 - 16 - range(0, 8),
    };
    let _ = vm.data_space().set_here(h0 + off);
    let h = here(vm);
    ck(60, h == h0 + off);
    let b = probe(s, l);
    let was = peek8(b);
    let (z, x1, x2) = (cell(), cell(), cell());
    let f = float();
    match arg {
        2 => sset(vm, &[z, x1, x2]),
        3 => sset(vm, &[z]),
        _ => sset(vm, &[z, x1]),
    }
    fset(vm, &[1.0, f]);
    call_xt(vm, w);
    ck(61, quiet(vm));
    ck(62, sis(vm, &[z]));
    let (at, n) = match arg {
        1 => (h, 1),
        2 => (h, 16),
        3 => ((h + 7) & !7, 8),
        _ => (h, 8),
    };
    match arg {
        1 => ck(63, peek8(at) == x1 as u8),
        2 => ck(64, (peek(at) == x2) & (peek(at + 8) == x1)),
        3 => ck(65, peek(at) as u64 == f.to_bits()),
        _ => ck(66, peek(at) == x1),
    }
    if arg == 3 {
        // f, stores to the float-aligned address and allots one float
        ck(67, fis(vm, &[1.0]));
        ck(68, here(vm) == h + 8);
    } else {
        ck(69, here(vm) == h + n);
    }
    ck(70, area(b, at, n) | (peek8(b) == was));
    reach(1);
}

/// The same words when there is no room.
pub extern "C" fn h_c05_full(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = [",", "c,", "2,", "f,", "compile,"][arg as usize];
    let w = xt(vm, name);
    let (s, l, _) = wild(vm);
    let n = [8, 1, 16, 8, 8][arg as usize];
    let left = range(0, n - 1);
    let _ = vm.data_space().set_here(l - left);
    let b = probe(s, l);
    let was = peek8(b);
    sset(vm, &[5, cell(), cell()]);
    fset(vm, &[float()]);
    call_xt(vm, w);
    ck(71, !quiet(vm));
    ck(72, (peek8(b) == was) | (b >= l - left));
    ck(73, here(vm) <= l);
    reach(1);
}
