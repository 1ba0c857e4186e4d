//! C25: unit words.
use crate::util::*;
use std::f64::consts::PI;

const U: [&str; 16] = [
    "meter", "mm", "um", "deg", "rad", "hr", "minute", "sec", "msec", "usec", "mm/min", "mm/sec", "um/msec", "rpm",
    "hz", "1/sec",
];

/// Equal, or apart by a few rounding errors.
fn near(r: f64, e: f64) -> bool {
    feq(r, e) || (r - e).abs() <= e.abs() * 1e-14 + 1e-300
}

pub extern "C" fn h_c25(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = U[arg as usize];
    let mode = choice(3);
    let how = mode == 1;
    if how {
        good(vm, &[": t ", name, " ;"].concat(), 90);
    }
    // the third path is a plain test, which finds gross errors at once
    let (a, b, t) = (float(), float(), if mode == 2 { 3.0 } else { float() });
    let z = cell();
    fset(vm, &[a, b, t]);
    sset(vm, &[z]);
    eval(vm, if how { "t" } else { name });
    ck(1, quiet(vm));
    ck(2, sis(vm, &[z]));
    ck(3, vm.f_stack().len() == 3);
    let s = vm.f_stack().as_slice();
    let (a1, b1, r) = (s[0], s[1], s[2]);
    ck(4, feq(a1, a) & feq(b1, b));
    let e = match arg {
        0 | 4 | 7 | 14 | 15 => t,
        1 | 8 | 11 | 12 => t * 0.001,
        2 | 9 => t * 0.000001,
        3 => t * PI / 180.0,
        5 => t * 3600.0,
        6 => t * 60.0,
        10 => t * 0.001 / 60.0,
        _ => t * (PI / 30.0),
    };
    match arg {
        12 => {
            let e2 = t * 0.000001 / 0.001;
            ck(5, feq(r, e2) || near(r, e));
        }
        13 => {
            let e2 = t * (2.0 * PI / 60.0);
            ck(6, feq(r, e2) || near(r, e));
        }
        _ => ck(7, near(r, e)),
    }
    reach(1);
}
