//! C26: string and address helpers, allocation.
use crate::util::*;

const N: [&str; 13] = [
    "/string", "bounds", "chars", "cells", "cell+", "char+", "floats", "float+", "aligned", "faligned", "pad", "here",
    ">char",
];

/// Pure address arithmetic, for all operands.
pub extern "C" fn h_c26_arith(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = N[arg as usize];
    let how = choice(2) == 1;
    if how {
        good(vm, &[": t ", name, " ;"].concat(), 90);
    }
    let (z, x, y, n) = (cell(), cell(), cell(), cell());
    let f = float();
    fset(vm, &[f]);
    let h = here(vm) as isize;
    let k = if arg == 0 { 3 } else if arg == 1 { 2 } else if arg == 10 || arg == 11 { 0 } else { 1 };
    let ops = [x, y, n];
    let mut v = vec![z];
    for i in 0..k {
        v.push(ops[i]);
    }
    sset(vm, &v);
    eval(vm, if how { "t" } else { name });
    ck(1, quiet(vm));
    ck(2, fis(vm, &[f]));
    let al = |a: isize| (a.wrapping_add(7)) & !7;
    match arg {
        0 => ck(3, sis(vm, &[z, x.wrapping_add(n), y.wrapping_sub(n)])),
        1 => ck(4, sis(vm, &[z, x.wrapping_add(y), x])),
        2 => ck(5, sis(vm, &[z, x])),
        3 | 6 => ck(6, sis(vm, &[z, x.wrapping_mul(8)])),
        4 | 7 => ck(7, sis(vm, &[z, x.wrapping_add(8)])),
        5 => ck(8, sis(vm, &[z, x.wrapping_add(1)])),
        8 | 9 => {
            ck(9, sis(vm, &[z, al(x)]));
        }
        10 => {
            ck(10, vm.s_stack().len() == 2 && sget(vm, 0) == z);
            let p = sget(vm, 1);
            // an aligned place above here
            ck(11, p & 7 == 0 && p >= h + 84 && p <= h + 1024);
        }
        11 => ck(12, sis(vm, &[z, h])),
        _ => {
            if !how {
                let c = x & 0x7f;
                ck(13, sis(vm, &[z, if c >= 32 && c < 127 { c } else { 95 }]));
            }
        }
    }
    ck(14, here(vm) as isize == h);
    reach(1);
}

/// allot align falign, at all alignments of here and for all amounts.
pub extern "C" fn h_c26_allot(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (s, l) = (start(vm), limit(vm));
    let off = range(0, 8);
    let h = if flag() { (here(vm) & !7) + off } else { l - off };
    let r = vm.data_space().set_here(h);
    ck(20, r.is_ok() && here(vm) == h);
    let (z, n) = (cell(), cell());
    match arg {
        0 => {
            let w = xt(vm, "allot");
            sset(vm, &[z, n]);
            call_xt(vm, w);
            ck(21, sis(vm, &[z]) || !quiet(vm));
            let to = (h as i128) + (n as i128);
            let now = here(vm);
            if to >= s as i128 && to <= l as i128 {
                ck(22, quiet(vm));
                ck(23, now as i128 == to);
                reach(2);
            } else {
                ck(24, now == h);
                reach(3);
            }
        }
        1 | 2 => {
            let w = xt(vm, if arg == 1 { "align" } else { "falign" });
            sset(vm, &[z]);
            call_xt(vm, w);
            ck(25, quiet(vm));
            ck(26, sis(vm, &[z]));
            ck(27, here(vm) == (h + 7) & !7);
        }
        _ => {
            // set_here refuses what is outside
            let p = any64() as usize;
            let r = vm.data_space().set_here(p);
            let inside = p >= s && p <= l;
            ck(28, r.is_ok() == inside);
            ck(29, here(vm) == if inside { p } else { h });
        }
    }
    ck(30, here(vm) >= s && here(vm) <= l);
    reach(1);
}

/// >body >name for every execution token and every other number
pub extern "C" fn h_c26_xt(vm: *mut VM, _: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, "create foo 11 , 22 ,  create bar 33 ,", 40);
    let foo = xt(vm, "foo");
    let bar = xt(vm, "bar");
    good(vm, "foo bar ' foo >body ' bar >body", 41);
    let (a, b) = (sget(vm, 0), sget(vm, 1));
    ck(42, sis(vm, &[a, b, a, b]));
    ck(43, peek(a as usize) == 11 && peek(a as usize + 8) == 22 && peek(b as usize) == 33);
    let n = vm.wordlist().len();
    let w = xt(vm, ">body");
    let x = cell();
    assume((x as usize) >= n);
    sset(vm, &[x]);
    call_xt(vm, w);
    ck(44, err(vm) == code(INVALID_NUMERIC_ARGUMENT));
    recover(vm);
    let w = xt(vm, ">name");
    sset(vm, &[x]);
    call_xt(vm, w);
    ck(45, err(vm) == code(INVALID_NUMERIC_ARGUMENT));
    recover(vm);
    // the name field holds the name
    sset(vm, &[foo as isize, bar as isize]);
    good(vm, ">name swap >name", 46);
    for (i, nm) in [(1, b"foo"), (0, b"bar")] {
        let p = sget(vm, i) as usize;
        let len = peek(p);
        ck(47, len == 3);
        for k in 0..3 {
            ck(48, peek8(p + 8 + k) == nm[k]);
        }
    }
    reach(1);
}

/// +field and append
pub extern "C" fn h_c26_field(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let z = cell();
    if arg == 0 {
        let (n1, n2, n3, a) = (cell(), cell(), cell(), cell());
        sset(vm, &[z, n1, n2]);
        good(vm, "+field f1", 50);
        ck(51, sis(vm, &[z, n1.wrapping_add(n2)]));
        vm.s_stack().push(n3);
        good(vm, "+field f2", 52);
        ck(53, sis(vm, &[z, n1.wrapping_add(n2).wrapping_add(n3)]));
        sset(vm, &[z, a]);
        good(vm, "f1", 54);
        ck(55, sis(vm, &[z, a.wrapping_add(n1)]));
        sset(vm, &[z, a]);
        good(vm, ": u f2 ; u", 56);
        ck(57, sis(vm, &[z, a.wrapping_add(n1).wrapping_add(n2)]));
    } else {
        // a counted string of n characters, u more appended
        let h = here(vm) + 64;
        let (n, u) = (range(0, 4), range(0, 4));
        let l = limit(vm);
        havoc(h as *mut u8, l - h);
        poke8(h, n as u8);
        let mut old = vec![];
        for i in 0..n {
            old.push(peek8(h + 1 + i));
        }
        let src = h + 2000;
        let mut add = vec![];
        for i in 0..u {
            add.push(peek8(src + i));
        }
        let b = any64() as usize;
        assume(b >= start(vm) && b < l);
        let was = peek8(b);
        sset(vm, &[z, src as isize, u as isize, h as isize]);
        let w = xt(vm, "append");
        call_xt(vm, w);
        ck(60, quiet(vm));
        ck(61, sis(vm, &[z]));
        ck(62, peek8(h) as usize == n + u);
        let mut ok = true;
        for i in 0..n {
            ok &= peek8(h + 1 + i) == old[i];
        }
        for i in 0..u {
            ok &= peek8(h + 1 + n + i) == add[i];
        }
        ck(63, ok);
        ck(64, b == h || b.wrapping_sub(h + 1 + n) < u || peek8(b) == was);
    }
    reach(1);
}
