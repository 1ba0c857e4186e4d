//! C02: integer arithmetic, logic, comparison.
use crate::util::*;

const BIN: [&str; 22] = [
    "+", "-", "*", "/", "mod", "/mod", "and", "or", "xor", "lshift", "rshift", "=", "<>", "<", ">", "<=", ">=", "max",
    "min", "/ ", "mod ", "/mod ",
];
const UN: [&str; 15] =
    ["1+", "1-", "2*", "2/", "negate", "abs", "invert", "0=", "0<>", "0<", "0>", "not", "true", "false", "abs "];

fn frame(vm: &mut VM) -> [isize; 3] {
    let below = [cell(), cell(), cell()];
    fset(vm, &[1.5, -2.5]);
    sset(vm, &below);
    below
}

fn done(vm: &mut VM, below: [isize; 3], res: &[isize]) {
    let mut v = below.to_vec();
    v.extend_from_slice(res);
    ck(1, quiet(vm));
    ck(2, vm.s_stack().len() as usize == v.len());
    ck(3, sis(vm, &v));
    ck(4, fis(vm, &[1.5, -2.5]));
    ck(5, vm.r_stack().len() == 0);
    ck(6, vm.c_stack().len() == 0);
    reach(1);
}

/// interpreted, or compiled into a definition first
fn run(vm: &mut VM, name: &str, compiled: bool) {
    if compiled {
        eval(vm, "t");
    } else {
        eval(vm, name);
    }
}
fn prepare(vm: &mut VM, name: &str) -> bool {
    let compiled = choice(2) == 1;
    if compiled {
        let def = [": t ", name, " ;"].concat();
        good(vm, &def, 10);
    }
    compiled
}

pub extern "C" fn h_c02_bin(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = BIN[arg as usize];
    let compiled = prepare(vm, name);
    let below = frame(vm);
    let (n, t) = (cell(), cell());
    vm.s_stack().push(n);
    vm.s_stack().push(t);
    let div = arg == 3 || arg == 4 || arg == 5 || arg >= 19;
    if div && t == 0 {
        run(vm, name, compiled);
        ck(7, err(vm) == code(DIVISION_BY_ZERO));
        // an exception empties the stacks
        ck(8, vm.s_stack().len() == 0 && vm.f_stack().len() == 0);
        reach(2);
        return;
    }
    run(vm, name, compiled);
    let r = match arg {
        0 => n.wrapping_add(t),
        1 => n.wrapping_sub(t),
        2 => n.wrapping_mul(t),
        3 | 19 => n.wrapping_div(t),
        4 | 20 => n.wrapping_rem(t),
        6 => n & t,
        7 => n | t,
        8 => n ^ t,
        9 => ((n as u64) << (t as u64 & 63)) as isize,
        10 => ((n as u64) >> (t as u64 & 63)) as isize,
        11 => flag_of(n == t),
        12 => flag_of(n != t),
        13 => flag_of(n < t),
        14 => flag_of(n > t),
        15 => flag_of(n <= t),
        16 => flag_of(n >= t),
        17 => {
            if n > t {
                n
            } else {
                t
            }
        }
        18 => {
            if n < t {
                n
            } else {
                t
            }
        }
        5 | 21 => {
            done(vm, below, &[n.wrapping_rem(t), n.wrapping_div(t)]);
            return;
        }
        _ => return,
    };
    done(vm, below, &[r]);
}

pub extern "C" fn h_c02_un(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = UN[arg as usize];
    let compiled = prepare(vm, name);
    let below = frame(vm);
    let n = cell();
    if arg == 12 || arg == 13 {
        run(vm, name, compiled);
        done(vm, below, &[flag_of(arg == 12)]);
        return;
    }
    vm.s_stack().push(n);
    run(vm, name, compiled);
    let r = match arg {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        2 => n.wrapping_mul(2),
        // truncating division by two
        3 => {
            if n >= 0 {
                (n as u64 >> 1) as isize
            } else {
                -(((n.wrapping_neg()) as u64 >> 1) as isize)
            }
        }
        4 => (!n).wrapping_add(1),
        5 | 14 => {
            if n < 0 {
                n.wrapping_neg()
            } else {
                n
            }
        }
        6 => -1 ^ n,
        7 | 11 => flag_of(n == 0),
        8 => flag_of(n != 0),
        9 => flag_of(n < 0),
        10 => flag_of(n > 0),
        _ => return,
    };
    done(vm, below, &[r]);
}

pub extern "C" fn h_c02_within(vm: *mut VM, _arg: u64) {
    let vm = unsafe { &mut *vm };
    let compiled = prepare(vm, "within");
    let below = frame(vm);
    let (x, lo, hi) = (cell(), cell(), cell());
    for v in [x, lo, hi] {
        vm.s_stack().push(v);
    }
    run(vm, "within", compiled);
    done(vm, below, &[flag_of(lo <= x && x < hi)]);
}
