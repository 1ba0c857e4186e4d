//! C21: floating-point words.
use crate::util::*;

fn pre(vm: &mut VM, name: &str) -> bool {
    let how = choice(2) == 1;
    if how {
        good(vm, &[": t ", name, " ;"].concat(), 90);
    }
    how
}

const UN: [&str; 16] = [
    "fabs", "fnegate", "floor", "fround", "fceil", "fsqrt", "fsin", "fcos", "ftan", "fasin", "facos", "fatan", "f0<",
    "f0=", "f>s", "fsincos",
];

pub extern "C" fn h_c21_un(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = UN[arg as usize];
    let how = pre(vm, name);
    let (a, b, x) = (float(), float(), float());
    let z = cell();
    fset(vm, &[a, b, x]);
    sset(vm, &[z]);
    eval(vm, if how { "t" } else { name });
    ck(1, quiet(vm));
    let r = match arg {
        0 => f64::from_bits(x.to_bits() & !(1 << 63)),
        1 => f64::from_bits(x.to_bits() ^ (1 << 63)),
        2 => x.floor(),
        3 => x.round(),
        4 => x.ceil(),
        5 => x.sqrt(),
        6 => x.sin(),
        7 => x.cos(),
        8 => x.tan(),
        9 => x.asin(),
        10 => x.acos(),
        11 => x.atan(),
        _ => 0.0,
    };
    match arg {
        0..=11 => {
            ck(2, fis(vm, &[a, b, r]));
            ck(3, sis(vm, &[z]));
        }
        12 => {
            ck(4, fis(vm, &[a, b]));
            ck(5, sis(vm, &[z, flag_of(x < 0.0)]));
        }
        13 => {
            ck(4, fis(vm, &[a, b]));
            ck(6, sis(vm, &[z, flag_of((x.to_bits() << 1) == 0)]));
        }
        14 => {
            ck(4, fis(vm, &[a, b]));
            // towards zero, saturating, NaN gives 0
            ck(7, vm.s_stack().len() == 2 && sget(vm, 0) == z);
            let v = sget(vm, 1);
            if x != x {
                ck(8, v == 0);
            } else if x >= 9223372036854775808.0 {
                ck(9, v == isize::MAX);
            } else if x < -9223372036854775808.0 {
                ck(10, v == isize::MIN);
            } else {
                ck(11, v == unsafe { x.to_int_unchecked::<isize>() });
            }
        }
        _ => {
            ck(12, fis(vm, &[a, b, x.sin(), x.cos()]));
            ck(13, sis(vm, &[z]));
        }
    }
    ck(14, vm.r_stack().len() == 0 && vm.c_stack().len() == 0);
    reach(1);
}

const BIN: [&str; 10] = ["f+", "f-", "f*", "f/", "f**", "fatan2", "fmin", "fmax", "f<", "f>"];

pub extern "C" fn h_c21_bin(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = BIN[arg as usize];
    let how = pre(vm, name);
    let (a, b, x, y) = (float(), float(), float(), float());
    let z = cell();
    fset(vm, &[a, b, x, y]);
    sset(vm, &[z]);
    eval(vm, if how { "t" } else { name });
    ck(21, quiet(vm));
    if arg >= 8 {
        ck(22, fis(vm, &[a, b]));
        let r = if arg == 8 { x < y } else { x > y };
        ck(23, sis(vm, &[z, flag_of(r)]));
        reach(1);
        return;
    }
    ck(24, sis(vm, &[z]));
    ck(25, vm.f_stack().len() == 3);
    ck(26, fis_low(vm, &[a, b]));
    let r = vm.f_stack().as_slice()[2];
    match arg {
        0 => ck(30, feq(r, x + y)),
        1 => ck(31, feq(r, x - y)),
        2 => ck(32, feq(r, x * y)),
        3 => ck(33, feq(r, x / y)),
        4 => ck(34, feq(r, x.powf(y))),
        5 => ck(35, feq(r, x.atan2(y))),
        _ => {
            // IEEE minNum/maxNum: a NaN operand yields the other operand,
            // zeros of either sign are equal
            if x != x {
                ck(36, feq(r, y));
            } else if y != y {
                ck(37, feq(r, x));
            } else if x == y {
                ck(38, r == x && (feq(r, x) || feq(r, y)));
            } else if (x < y) == (arg == 6) {
                ck(39, feq(r, x));
            } else {
                ck(40, feq(r, y));
            }
        }
    }
    reach(1);
}
fn fis_low(vm: &mut VM, v: &[f64]) -> bool {
    let s = vm.f_stack().as_slice();
    let mut ok = true;
    for i in 0..v.len() {
        ok &= feq(s[i], v[i]);
    }
    ok
}

pub extern "C" fn h_c21_misc(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = ["s>f", "f~", "pi", "fpick"][arg as usize];
    let how = pre(vm, name);
    let (a, x, y, t) = (float(), float(), float(), float());
    let (z, n) = (cell(), cell());
    let tok = if how { "t" } else { name };
    match arg {
        0 => {
            fset(vm, &[a]);
            sset(vm, &[z, n]);
            eval(vm, tok);
            ck(50, sis(vm, &[z]));
            ck(51, fis(vm, &[a, n as f64]));
        }
        1 => {
            fset(vm, &[a, x, y, t]);
            sset(vm, &[z]);
            eval(vm, tok);
            ck(52, fis(vm, &[a]));
            ck(53, vm.s_stack().len() == 2 && sget(vm, 0) == z);
            let r = sget(vm, 1);
            let e = if t > 0.0 {
                (x - y).abs() < t
            } else if t == 0.0 {
                x == y
            } else {
                (x - y).abs() < t.abs() * (x.abs() + y.abs())
            };
            ck(54, r == flag_of(e));
        }
        2 => {
            fset(vm, &[a]);
            sset(vm, &[z]);
            eval(vm, tok);
            ck(55, sis(vm, &[z]));
            ck(56, fis(vm, &[a, std::f64::consts::PI]));
        }
        _ => {
            let v = [a, x, y, t];
            fset(vm, &v);
            let k = range(0, 3);
            sset(vm, &[z, k as isize]);
            eval(vm, tok);
            ck(57, sis(vm, &[z]));
            ck(58, fis(vm, &[a, x, y, t, v[3 - k]]));
        }
    }
    ck(59, quiet(vm));
    reach(1);
}

/// f@ f! f, fconstant fvariable fliteral move bit patterns.
pub extern "C" fn h_c21_bits(vm: *mut VM, _: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, "fvariable v", 60);
    let x = float();
    let bits = x.to_bits();
    fset(vm, &[x]);
    good(vm, "v f!  v f@", 61);
    ck(62, vm.f_stack().len() == 1 && vm.f_stack().as_slice()[0].to_bits() == bits);
    good(vm, "fdup fconstant c c", 63);
    ck(64, vm.f_stack().len() == 2 && vm.f_stack().as_slice()[1].to_bits() == bits);
    good(vm, "fdrop : l [ fdup ] fliteral ; l", 65);
    ck(66, vm.f_stack().len() == 2 && vm.f_stack().as_slice()[1].to_bits() == bits);
    good(vm, "here falign here f@ fdrop drop f, here 1 floats - f@", 67);
    reach(1);
}
