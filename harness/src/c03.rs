//! C03: stack-manipulation words, at every depth.
use crate::util::*;

/// name, items needed, result as positions counted from the top (0 = top) of
/// the operands, top last.
const S: [(&str, usize, &[usize]); 12] = [
    ("dup", 1, &[0, 0]),
    ("drop", 1, &[]),
    ("swap", 2, &[0, 1]),
    ("over", 2, &[1, 0, 1]),
    ("nip", 2, &[0]),
    ("tuck", 2, &[0, 1, 0]),
    ("rot", 3, &[1, 0, 2]),
    ("-rot", 3, &[0, 2, 1]),
    ("2dup", 2, &[1, 0, 1, 0]),
    ("2drop", 2, &[]),
    ("2swap", 4, &[1, 0, 3, 2]),
    ("2over", 4, &[3, 2, 1, 0, 3, 2]),
];

fn cells(n: usize) -> Vec<isize> {
    let mut v = Vec::with_capacity(80);
    for _ in 0..n {
        v.push(cell());
    }
    v
}
fn floats(n: usize) -> Vec<f64> {
    let mut v = Vec::with_capacity(80);
    for _ in 0..n {
        v.push(float());
    }
    v
}

/// Interpreted (0) or inside a definition (1).
fn go(vm: &mut VM, name: &str, how: usize) {
    if how == 0 {
        eval(vm, name);
    } else {
        eval(vm, "t");
    }
}
fn pre(vm: &mut VM, name: &str) -> usize {
    let how = choice(2);
    if how == 1 {
        let def = [": t ", name, " ;"].concat();
        good(vm, &def, 10);
    }
    how
}

pub extern "C" fn h_c03_s(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (name, need, res) = S[arg as usize];
    let how = pre(vm, name);
    let d = range(need, if res.len() > need { 64 - (res.len() - need) } else { 64 });
    let v = cells(d);
    let fl = floats(2);
    sset(vm, &v);
    fset(vm, &fl);
    go(vm, name, how);
    let mut e = v[..d - need].to_vec();
    for p in res {
        e.push(v[d - 1 - p]);
    }
    ck(1, quiet(vm));
    ck(2, sis(vm, &e));
    ck(3, fis(vm, &fl));
    ck(4, vm.r_stack().len() == 0 && vm.c_stack().len() == 0);
    reach(1);
}

pub extern "C" fn h_c03_misc(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let name = ["?dup", "pick", "depth"][arg as usize];
    let how = pre(vm, name);
    let d = match arg {
        0 => range(1, 63),
        1 => range(2, 64),
        _ => range(0, 63),
    };
    let mut v = cells(d);
    let mut n = 0;
    if arg == 1 {
        n = cell();
        assume(n >= 0 && n < d as isize - 1);
        v[d - 1] = n;
    }
    sset(vm, &v);
    go(vm, name, how);
    ck(1, quiet(vm));
    let mut e = v.clone();
    match arg {
        0 => {
            if v[d - 1] != 0 {
                e.push(v[d - 1]);
            }
        }
        1 => {
            // one path per picked position
            let k = concretize(n as usize);
            e[d - 1] = v[d - 2 - k];
        }
        _ => e.push(d as isize),
    }
    ck(2, sis(vm, &e));
    ck(3, vm.f_stack().len() == 0 && vm.r_stack().len() == 0);
    reach(1);
}

/// Words between the data and the return stack; executed one at a time with
/// both stacks at arbitrary depths.
pub extern "C" fn h_c03_r(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (name, sn, sp, rn, rp) = [
        (">r", 1, 0, 0, 1),
        ("r>", 0, 1, 1, 0),
        ("r@", 0, 1, 1, 1),
        ("2>r", 2, 0, 0, 2),
        ("2r>", 0, 2, 2, 0),
        ("2r@", 0, 2, 2, 2),
    ][arg as usize];
    let (sd, rd) = if choice(2) == 0 {
        (range(sn, 64 - sp), rn + 3)
    } else {
        (sn + 2, range(rn, 64 - rp))
    };
    let s = cells(sd);
    let r = cells(rd);
    sset(vm, &s);
    rset(vm, &r);
    let w = xt(vm, name);
    vm.execute_word(w);
    let mut es = s[..sd - sn].to_vec();
    let mut er = r.clone();
    match arg {
        0 => er.push(s[sd - 1]),
        1 => {
            es.push(r[rd - 1]);
            er.pop();
        }
        2 => es.push(r[rd - 1]),
        3 => {
            er.push(s[sd - 2]);
            er.push(s[sd - 1]);
        }
        4 => {
            es.push(r[rd - 2]);
            es.push(r[rd - 1]);
            er.pop();
            er.pop();
        }
        _ => {
            es.push(r[rd - 2]);
            es.push(r[rd - 1]);
        }
    }
    ck(1, quiet(vm));
    ck(2, sis(vm, &es));
    ck(3, ris(vm, &er));
    ck(4, vm.f_stack().len() == 0);
    reach(1);
}

/// The same words in definitions, in balanced combinations.
pub extern "C" fn h_c03_rdef(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (body, res): (&str, &[usize]) = [
        (">r >r r> r>", &[1, 0][..]),
        (">r r@ r>", &[1, 0, 0]),
        ("2>r 2r@ 2r>", &[1, 0, 1, 0]),
        ("2>r r> r>", &[0, 1]),
        (">r >r 2r@ r> r>", &[0, 1, 1, 0]),
        ("2>r 2r@ r@ 2r>", &[1, 0, 0, 1, 0]),
        (">r dup >r 2r> swap", &[1, 1, 0]),
    ][arg as usize];
    // the last one is written out below: ( a b -- )
    let def = [": t ", body, " ;"].concat();
    good(vm, &def, 10);
    let v = cells(5);
    sset(vm, &v);
    eval(vm, "t");
    let mut e = v[..3].to_vec();
    if arg == 6 {
        // a b  >r dup >r 2r> swap : ( a, then b a swapped -> a b )
        e.extend_from_slice(&[v[3], v[3], v[4]]);
    } else {
        for p in res {
            e.push(v[4 - p]);
        }
    }
    ck(1, quiet(vm));
    ck(2, sis(vm, &e));
    ck(3, vm.r_stack().len() == 0);
    reach(1);
}

pub extern "C" fn h_c03_f(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (name, need, res): (&str, usize, &[usize]) = [
        ("fdup", 1, &[0, 0][..]),
        ("fdrop", 1, &[]),
        ("fswap", 2, &[0, 1]),
        ("fover", 2, &[1, 0, 1]),
        ("fnip", 2, &[0]),
        ("frot", 3, &[1, 0, 2]),
        ("fpick", 1, &[]),
    ][arg as usize];
    let how = pre(vm, name);
    let grow = if arg == 6 { 1 } else { res.len().saturating_sub(need) };
    let d = range(need, 64 - grow);
    let v = floats(d);
    let mut s = cells(2);
    fset(vm, &v);
    let mut k = 0;
    if arg == 6 {
        let n = cell();
        assume(n >= 0 && n < d as isize);
        s.push(n);
        sset(vm, &s);
        s.pop();
        go(vm, name, how);
        k = concretize(n as usize);
    } else {
        sset(vm, &s);
        go(vm, name, how);
    }
    let mut e;
    if arg == 6 {
        e = v.clone();
        e.push(v[d - 1 - k]);
    } else {
        e = v[..d - need].to_vec();
        for p in res {
            e.push(v[d - 1 - p]);
        }
    }
    ck(1, quiet(vm));
    ck(2, fis(vm, &e));
    ck(3, sis(vm, &s));
    ck(4, vm.r_stack().len() == 0 && vm.c_stack().len() == 0);
    reach(1);
}
