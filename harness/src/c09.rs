//! C09: counted loops.
use crate::util::*;

const N: usize = 6;

fn setup(vm: &mut VM) {
    good(vm, "variable n create lo 64 cells allot", 90);
    // notes its argument, or gives up when there is no more room
    good(vm, ": t n @ 0= if abort bye then -1 n +! lo n @ cells + ! ;", 90);
}
fn body(vm: &mut VM, name: &str) -> usize {
    let w = xt(vm, name);
    vm.wordlist()[w].dfa()
}
fn room(vm: &mut VM, k: usize) {
    let n = body(vm, "n");
    poke(n, k as isize);
}
/// What was noted, in order.
fn notes(vm: &mut VM, k: usize) -> Vec<isize> {
    let n = body(vm, "n");
    let lo = body(vm, "lo");
    let left = peek(n) as usize;
    let mut v = vec![];
    for i in (left..k).rev() {
        v.push(peek(lo + 8 * i));
    }
    v
}
fn same(a: &[isize], b: &[isize]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
/// Adding `by` to the index crosses the boundary between limit-1 and limit.
fn crosses(index: isize, limit: isize, by: isize) -> bool {
    let d = index.wrapping_sub(limit);
    // d + by does not wrap where it matters
    let e = d.wrapping_add(by);
    ((d < 0) & (by >= 0) & (e >= 0)) | ((d >= 0) & (by < 0) & (e < 0))
}
/// The indices of a loop, at most `max`; false: it goes on after those.
fn indices(q: bool, start: isize, limit: isize, by: &dyn Fn(usize) -> isize, max: usize) -> (Vec<isize>, bool) {
    let mut v = vec![];
    if q && start == limit {
        return (v, true);
    }
    let mut i = start;
    for k in 0..max {
        v.push(i);
        if crosses(i, limit, by(k)) {
            return (v, true);
        }
        i = i.wrapping_add(by(k));
    }
    (v, false)
}
fn finish(vm: &mut VM, done: bool, s: &[isize], f: f64) {
    if done {
        ck(70, quiet(vm));
        ck(71, sis(vm, s));
        ck(72, fis(vm, &[f]));
        ck(73, vm.r_stack().len() == 0);
        reach(1);
    } else {
        ck(74, err(vm) == code(ABORT));
        reach(2);
    }
}

/// One loop; do ?do, loop +loop, increments constant or varying.
pub extern "C" fn h_c09_one(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    setup(vm);
    let q = arg % 2 == 1;
    let src = match arg / 2 {
        0 => [": p ", if q { "?do" } else { "do" }, " i t loop ;"].concat(),
        1 => [": p ", if q { "?do" } else { "do" }, " i t inc @ +loop ;"].concat(),
        _ => [": p ", if q { "?do" } else { "do" }, " i t ia @ @ 8 ia +! +loop ;"].concat(),
    };
    good(vm, "variable inc create iv 8 cells allot variable ia iv ia !", 90);
    good(vm, &src, 1);
    // (any start: written as a distance from the limit)
    let (limit, d, z, f) = (cell(), cell(), cell(), float());
    let begin = limit.wrapping_add(d);
    let iv = body(vm, "iv");
    let inc = body(vm, "inc");
    let mut by = vec![];
    for k in 0..N {
        let c = match arg / 2 {
            0 => 1,
            1 if k > 0 => by[0],
            _ => cell(),
        };
        by.push(c);
        poke(iv + 8 * k, c);
    }
    poke(inc, by[0]);
    room(vm, N);
    sset(vm, &[z, limit, begin]);
    fset(vm, &[f]);
    eval(vm, "p");
    let (e, done) = indices(q, begin, limit, &|k| by[k], N);
    let v = notes(vm, N);
    ck(2, v.len() == e.len());
    ck(3, same(&v, &e));
    finish(vm, done, &[z], f);
}

/// Loops inside loops, i and j.
pub extern "C" fn h_c09_nest(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    setup(vm);
    let src = [
        ": p do 2dup do j t i t loop loop ;",
        ": p do 2dup ?do i t j t inc @ +loop i t loop ;",
        ": p ?do 2dup do i j + t loop i t inc @ +loop ;",
    ][arg as usize];
    good(vm, "variable inc", 90);
    good(vm, src, 1);
    let (l1, d1, l2, d2, z, f, by) = (cell(), cell(), cell(), cell(), cell(), float(), cell());
    let (b1, b2) = (l1.wrapping_add(d1), l2.wrapping_add(d2));
    let inc = body(vm, "inc");
    poke(inc, by);
    const M: usize = 12;
    room(vm, M);
    sset(vm, &[z, l2, b2, l1, b1]);
    fset(vm, &[f]);
    eval(vm, "p");
    let mut e = vec![];
    let mut done = true;
    let one = |_: usize| 1;
    let many = |_: usize| by;
    let (outer, odone) = indices(arg == 2, b1, l1, if arg == 2 { &many } else { &one }, M);
    'all: for &j in &outer {
        let (inner, idone) = indices(arg == 1, b2, l2, if arg == 1 { &many } else { &one }, M);
        for &i in &inner {
            let w: Vec<isize> = match arg {
                0 => vec![j, i],
                1 => vec![i, j],
                _ => vec![i.wrapping_add(j)],
            };
            for x in w {
                if e.len() == M {
                    done = false;
                    break 'all;
                }
                e.push(x);
            }
        }
        if !idone {
            done = false;
            break;
        }
        if arg > 0 {
            if e.len() == M {
                done = false;
                break;
            }
            e.push(j);
        }
    }
    if !odone {
        done = false;
    }
    let v = notes(vm, M);
    ck(12, v.len() == e.len());
    ck(13, same(&v, &e));
    finish(vm, done, &[z, l2, b2], f);
}

/// leave, unloop exit, exit from the inner of two loops.
pub extern "C" fn h_c09_leave(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    setup(vm);
    // x: the index to leave at
    let src = [
        ": p do i t i x @ = if leave then i t loop 77 t ;",
        ": p do i t i x @ = if unloop exit then i t loop 77 t ;",
        ": p do i t i x @ = if i t leave 55 t else i t then inc @ +loop 77 t ;",
        ": q do i t i x @ = if leave then loop ; : p do 3 i q i t loop 77 t ;",
        ": p ?do 2 0 do j t j x @ = if leave then loop i t loop 77 t ;",
        ": p do 2 0 do j t j x @ = if unloop unloop exit then loop loop 77 t ;",
        ": p do begin i t i x @ = if leave then i x @ > until i t loop 77 t ;",
    ][arg as usize];
    good(vm, "variable inc variable x", 90);
    good(vm, src, 1);
    let (l, d, z, f, by, x) = (cell(), cell(), cell(), float(), cell(), cell());
    let b = l.wrapping_add(d);
    let (ia, xa) = (body(vm, "inc"), body(vm, "x"));
    poke(ia, by);
    poke(xa, x);
    const M: usize = 13;
    room(vm, M);
    sset(vm, &[z, l, b]);
    fset(vm, &[f]);
    eval(vm, "p");
    let mut e: Vec<isize> = vec![];
    let mut i = b;
    let step = if arg == 2 { by } else { 1 };
    let mut finished = true;
    let mut tail = true;
    // `put` fails when the room is used up
    let mut full = false;
    macro_rules! put {
        ($v:expr) => {
            if e.len() == M {
                full = true;
                break;
            } else {
                e.push($v);
            }
        };
    }
    if !(arg == 4 && l == b) {
        loop {
            match arg {
                0 => {
                    put!(i);
                    if i == x {
                        break;
                    }
                    put!(i);
                }
                1 => {
                    put!(i);
                    if i == x {
                        tail = false;
                        break;
                    }
                    put!(i);
                }
                2 => {
                    put!(i);
                    put!(i);
                    if i == x {
                        break;
                    }
                }
                3 => {
                    // 3 i q
                    let mut k = i;
                    loop {
                        put!(k);
                        if k == x || crosses(k, 3, 1) {
                            break;
                        }
                        k = k.wrapping_add(1);
                    }
                    if full {
                        break;
                    }
                    put!(i);
                }
                4 => {
                    put!(i);
                    if i != x {
                        put!(i);
                    }
                    put!(i);
                }
                5 => {
                    put!(i);
                    if i == x {
                        tail = false;
                        break;
                    }
                    put!(i);
                }
                _ => {
                    put!(i);
                    if i == x {
                        break;
                    }
                    if i > x {
                        put!(i);
                    } else {
                        // forever
                        while e.len() < M {
                            e.push(i);
                        }
                        full = true;
                        break;
                    }
                }
            }
            if crosses(i, l, step) {
                break;
            }
            i = i.wrapping_add(step);
        }
        if full {
            finished = false;
        }
    }
    if finished && tail {
        if e.len() == M {
            finished = false;
        } else {
            e.push(77);
        }
    }
    let v = notes(vm, M);
    ck(22, v.len() == e.len());
    ck(23, same(&v, &e));
    finish(vm, finished, &[z], f);
}
