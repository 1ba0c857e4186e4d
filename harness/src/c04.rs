//! C04: over- and underflow of the four stacks.
use crate::util::*;

const SCANARY: isize = 0x12345678;

fn expect(vm: &mut VM, which: usize, final_depth: isize, touched_over: bool, touched_under: bool, strayed: bool) {
    let over = [STACK_OVERFLOW, RETURN_STACK_OVERFLOW, CONTROL_STRUCTURE_MISMATCH, FLOATING_POINT_STACK_OVERFLOW];
    let under = [STACK_UNDERFLOW, RETURN_STACK_UNDERFLOW, CONTROL_STRUCTURE_MISMATCH, FLOATING_POINT_STACK_UNDERFLOW];
    let e = err(vm);
    let (o, u) = (code(over[which]), code(under[which]));
    let is_over = final_depth > 64 || touched_over;
    let is_under = final_depth < 0 || touched_under;
    if is_over && is_under {
        ck(1, e == o || e == u);
        reach(4);
    } else if is_over {
        ck(2, e == o);
        reach(2);
    } else if is_under {
        ck(3, e == u);
        reach(3);
    } else if !strayed {
        ck(4, e == 0);
        reach(5);
    } else {
        // only fill patterns beyond an end
        ck(4, e == 0 || e == o || e == u);
        reach(1);
    }
}

/// From depth d: take p items, add q items, then a token is evaluated.
pub extern "C" fn h_c04_generic(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let which = arg as usize % 4;
    let fine = arg < 4;
    // the depth, the number taken, the number added
    let d = if fine { range(0, 3) } else { [60, 61, 63, 64, 1, 30][choice(6)] };
    let p = if fine { range(0, 6) } else { [0, 1, 2, 64, 5, 40][choice(6)] };
    let q = if fine { range(0, 6) } else { [0, 1, 2, 4, 64, 65, 7][choice(7)] };
    let mut depth: isize = 0;
    let mut over = false;
    let mut under = false;
    let mut stray = false;
    match which {
        0 | 1 => {
            for i in 0..(d + p + q) {
                let st = if which == 0 { vm.s_stack() } else { vm.r_stack() };
                if i >= d && i < d + p {
                    st.pop();
                    depth -= 1;
                } else {
                    let v = cell();
                    st.push(v);
                    depth += 1;
                    over |= (depth > 64) & (v != SCANARY);
                    under |= (depth == 0) & (v != SCANARY);
                }
                stray |= depth < 0 || depth > 64;
            }
        }
        2 => {
            for i in 0..(d + p + q) {
                if i >= d && i < d + p {
                    vm.c_stack().pop();
                    depth -= 1;
                } else {
                    vm.c_stack().push(Control::If(any64() as usize));
                    depth += 1;
                    over |= depth > 64;
                    under |= depth == 0;
                }
                stray |= depth < 0 || depth > 64;
            }
        }
        _ => {
            for i in 0..(d + p + q) {
                if i >= d && i < d + p {
                    vm.f_stack().pop();
                    depth -= 1;
                } else {
                    let v = float();
                    let c = v.to_bits() == (1.234567890f64).to_bits();
                    vm.f_stack().push(v);
                    depth += 1;
                    over |= (depth > 64) & !c;
                    under |= (depth == 0) & !c;
                }
                stray |= depth < 0 || depth > 64;
            }
        }
    }
    assume(depth >= -64 && depth <= 128);
    eval(vm, "noop");
    expect(vm, which, depth, over, under, stray);
}

/// Words as tokens, at depths where they do not fit: ( in out ).
const W: [(&str, isize, isize); 30] = [
    ("dup", 1, 2),
    ("drop", 1, 0),
    ("swap", 2, 2),
    ("over", 2, 3),
    ("nip", 2, 1),
    ("2dup", 2, 4),
    ("2drop", 2, 0),
    ("2over", 4, 6),
    ("rot", 3, 3),
    ("+", 2, 1),
    ("-", 2, 1),
    ("*", 2, 1),
    ("and", 2, 1),
    ("=", 2, 1),
    ("<", 2, 1),
    ("0=", 1, 1),
    ("negate", 1, 1),
    ("within", 3, 1),
    ("5", 0, 1),
    ("true", 0, 1),
    ("depth", 0, 1),
    ("here", 0, 1),
    ("1-", 1, 1),
    ("invert", 1, 1),
    ("tuck", 2, 3),
    ("emit", 1, 0),
    ("1+", 1, 1),
    ("lshift", 2, 1),
    ("base", 0, 1),
    ("-rot", 3, 3),
];

pub extern "C" fn h_c04_word(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (name, i, o) = W[arg as usize];
    let d = match choice(2) {
        0 => range(0, 5),
        _ => range(60, 64),
    };
    let mut v = vec![];
    for _ in 0..d {
        let c = cell();
        assume(c != SCANARY);
        v.push(c);
    }
    sset(vm, &v);
    eval(vm, name);
    let net = d as isize - i + o;
    let e = err(vm);
    if net < 0 {
        ck(5, e == code(STACK_UNDERFLOW));
        reach(2);
    } else if net > 64 {
        ck(6, e == code(STACK_OVERFLOW));
        reach(3);
    } else if d as isize >= i {
        ck(7, e == 0);
        ck(8, vm.s_stack().len() as isize == net);
    }
    if e != 0 {
        ck(9, vm.s_stack().len() == 0);
        // and it is over after a reset
        recover(vm);
        good(vm, "1 2 3", 10);
        ck(11, sis(vm, &[1, 2, 3]));
    }
    reach(1);
}

/// Float words likewise.
const FW: [(&str, isize, isize); 12] = [
    ("fdup", 1, 2),
    ("fdrop", 1, 0),
    ("fswap", 2, 2),
    ("fover", 2, 3),
    ("f+", 2, 1),
    ("f*", 2, 1),
    ("fnegate", 1, 1),
    ("pi", 0, 1),
    ("1.5e0", 0, 1),
    ("f<", 2, 0),
    ("f>s", 1, 0),
    ("fmax", 2, 1),
];

pub extern "C" fn h_c04_fword(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (name, i, o) = FW[arg as usize];
    let d = match choice(2) {
        0 => range(0, 3),
        _ => range(62, 64),
    };
    let mut v = vec![];
    for _ in 0..d {
        let c = float();
        assume(c.to_bits() != (1.234567890f64).to_bits());
        v.push(c);
    }
    fset(vm, &v);
    eval(vm, name);
    let net = d as isize - i + o;
    let e = err(vm);
    if net < 0 {
        ck(5, e == code(FLOATING_POINT_STACK_UNDERFLOW));
    } else if net > 64 {
        ck(6, e == code(FLOATING_POINT_STACK_OVERFLOW));
    } else if d as isize >= i {
        ck(7, e == 0);
        ck(8, vm.f_stack().len() as isize == net);
    }
    reach(1);
}

/// The return stack through compiled words: nesting and >r.
pub extern "C" fn h_c04_nest(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    match arg {
        0 => {
            // n levels of recursion are fine up to 63, and reported beyond
            good(vm, ": t dup if 1- recurse then ;", 12);
            let n = range(55, 70);
            sset(vm, &[7, n as isize]);
            eval(vm, "t");
            // n + 1 activations of t have been on the return stack at once
            if n + 1 <= 64 {
                ck(13, quiet(vm));
                ck(14, sis(vm, &[7, 0]));
            } else {
                ck(15, err(vm) == code(RETURN_STACK_OVERFLOW));
            }
        }
        1 => {
            // control-flow items left by a definition in progress
            let n = range(60, 66);
            let mut s = String::from(": t ");
            for _ in 0..n {
                s.push_str("begin ");
            }
            eval(vm, &s);
            if n <= 64 {
                ck(16, quiet(vm));
                ck(17, vm.c_stack().len() as usize == n);
            } else {
                ck(18, err(vm) == code(CONTROL_STRUCTURE_MISMATCH));
                ck(19, vm.c_stack().len() == 0);
            }
        }
        _ => {
            // pushes in a definition, checked when its token is done
            good(vm, ": t 0 ?do 9 loop ;", 20);
            let n = range(58, 68);
            sset(vm, &[n as isize, 0]);
            vm.s_stack().pop();
            eval(vm, "t");
            if n <= 64 {
                ck(21, quiet(vm));
                ck(22, vm.s_stack().len() as usize == n);
            } else {
                ck(23, err(vm) == code(STACK_OVERFLOW));
            }
        }
    }
    reach(1);
}
