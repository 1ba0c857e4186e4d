//! C23: goto, call, label.
use crate::util::*;

const NOTES: usize = 6;
const FLAGS: usize = 4;

fn body(vm: &mut VM, name: &str) -> usize {
    let w = xt(vm, name);
    vm.wordlist()[w].dfa()
}
fn setup(vm: &mut VM) {
    good(vm, "create fl 4 cells allot variable fp fl fp !", 90);
    good(vm, ": f fp @ fl 32 + = if abort bye then fp @ @ fp @ cell+ fp ! ;", 90);
    good(vm, "create lo 6 cells allot variable lp lo lp !", 90);
    good(vm, ": t lp @ lo 48 + = if abort bye then lp @ ! lp @ cell+ lp ! ;", 90);
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Label(usize),
    Goto(usize),
    Call(usize),
    /// `f if [ n ] goto then`
    GotoIf(usize),
    Exit,
    Note(isize),
}
use Op::*;

fn emit(vm: &mut VM, op: Op, num: &[isize]) {
    match op {
        Label(l) => {
            vm.s_stack().push(num[l]);
            eval(vm, "label");
        }
        Goto(l) => {
            vm.s_stack().push(num[l]);
            eval(vm, "goto");
        }
        Call(l) => {
            vm.s_stack().push(num[l]);
            eval(vm, "call");
        }
        GotoIf(l) => {
            eval(vm, "f if");
            vm.s_stack().push(num[l]);
            eval(vm, "goto then");
        }
        Exit => eval(vm, "exit"),
        Note(k) => {
            let s = [b'0' + k as u8, b' ', b't'];
            eval(vm, unsafe { std::str::from_utf8_unchecked(&s) });
        }
    }
}

/// Compiles `p` as word p and compares what it does with what it says.
fn check(vm: &mut VM, p: &[Op], num: &[isize]) {
    eval(vm, ": p");
    let mut place: [Option<usize>; 2] = [None, None];
    let mut wanted = [false, false];
    for (i, &op) in p.iter().enumerate() {
        emit(vm, op, num);
        match op {
            Label(l) => {
                if place[l].is_some() {
                    // defined twice
                    ck(1, err(vm) == code(INVALID_NUMERIC_ARGUMENT));
                    ck(2, vm.find("p") == None);
                    again(vm);
                    return;
                }
                place[l] = Some(i);
            }
            Goto(l) | Call(l) | GotoIf(l) => wanted[l] = true,
            _ => {}
        }
        ck(3, quiet(vm));
    }
    eval(vm, ";");
    for l in 0..2 {
        if wanted[l] && place[l].is_none() {
            ck(4, err(vm) != 0);
            ck(5, vm.find("p") == None);
            again(vm);
            return;
        }
    }
    ck(6, quiet(vm));
    let (fl, lo, fp, lp) = (body(vm, "fl"), body(vm, "lo"), body(vm, "fp"), body(vm, "lp"));
    let mut flags = vec![];
    for i in 0..FLAGS {
        let c = cell();
        flags.push(c);
        poke(fl + 8 * i, c);
    }
    let (a, x) = (cell(), float());
    sset(vm, &[a]);
    fset(vm, &[x]);
    eval(vm, "p");
    // what it says
    let mut notes = vec![];
    let mut ret = vec![];
    let mut used = 0;
    let mut at = 0;
    let mut spent = false;
    loop {
        if at == p.len() {
            match ret.pop() {
                Some(r) => {
                    at = r;
                    continue;
                }
                None => break,
            }
        }
        let op = p[at];
        at += 1;
        match op {
            Label(_) => {}
            Goto(l) => at = place[l].unwrap(),
            Call(l) => {
                ret.push(at);
                if ret.len() > 60 {
                    // the return stack overflows: see C04
                    end();
                }
                at = place[l].unwrap();
            }
            GotoIf(l) => {
                if used == FLAGS {
                    spent = true;
                    break;
                }
                used += 1;
                if flags[used - 1] != 0 {
                    at = place[l].unwrap();
                }
            }
            Exit => match ret.pop() {
                Some(r) => at = r,
                None => break,
            },
            Note(k) => {
                if notes.len() == NOTES {
                    spent = true;
                    break;
                }
                notes.push(k);
            }
        }
    }
    let n = (peek(lp) as usize - lo) / 8;
    ck(7, n == notes.len());
    let mut same = true;
    for i in 0..n {
        same &= peek(lo + 8 * i) == notes[i];
    }
    ck(8, same);
    ck(9, (peek(fp) as usize - fl) / 8 == used);
    if spent {
        ck(10, err(vm) == code(ABORT));
        recover(vm);
    } else {
        ck(11, quiet(vm));
        ck(12, sis(vm, &[a]) & fis(vm, &[x]));
        ck(13, vm.r_stack().len() == 0);
    }
    again(vm);
    reach(1);
}

/// After 0labels the numbers are free again.
fn again(vm: &mut VM) {
    recover(vm);
    good(vm, "0labels", 14);
    eval(vm, ": q [ 1 ] goto 5 [ 1 ] label 6 [ 64 ] label ; q");
    ck(15, quiet(vm) && sis(vm, &[6]));
}

const NUMS: [[isize; 2]; 6] = [[1, 2], [63, 64], [64, 1], [999, 65], [5, 517], [960, 128]];

/// `n` items, any.  Every label is followed by a note, so that no loop is
/// silent.
fn explore(vm: &mut VM, arg: u64, n: usize) {
    setup(vm);
    let num = NUMS[arg as usize % 6];
    let mut p = vec![];
    let mut k = 0;
    for i in 0..n {
        let c = if i == 0 { arg as usize / 6 } else { choice(9) };
        match c {
            0 | 1 => {
                p.push(Label(c));
                k += 1;
                p.push(Note(k));
            }
            2 | 3 => p.push(Goto(c - 2)),
            4 | 5 => p.push(Call(c - 4)),
            6 | 7 => p.push(GotoIf(c - 6)),
            _ => p.push(Exit),
        }
    }
    k += 1;
    p.push(Note(k));
    check(vm, &p, &num);
}
pub extern "C" fn h_c23_three(vm: *mut VM, arg: u64) {
    explore(unsafe { &mut *vm }, arg, 3)
}
pub extern "C" fn h_c23_four(vm: *mut VM, arg: u64) {
    explore(unsafe { &mut *vm }, arg, 4)
}
pub extern "C" fn h_c23_five(vm: *mut VM, arg: u64) {
    explore(unsafe { &mut *vm }, arg, 5)
}

/// Fixed programs with many references, arbitrary label numbers.
pub extern "C" fn h_c23_fix(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    setup(vm);
    let n = NUMS[choice(6)];
    let p: [&[Op]; 6] = [
        &[GotoIf(0), Note(1), GotoIf(0), Note(2), GotoIf(0), Note(3), Label(0), Note(4)],
        &[Call(0), Note(1), Call(0), Note(2), Call(1), Exit, Label(0), Note(3), Exit, Label(1), Note(4), Call(0)],
        &[Goto(1), Label(0), Note(1), GotoIf(1), Exit, Label(1), Note(2), Call(0), Note(3)],
        &[Label(0), Note(1), GotoIf(0), GotoIf(1), Note(2), GotoIf(0), Label(1), Note(3)],
        &[GotoIf(0), GotoIf(1), GotoIf(0), GotoIf(1), Label(1), Note(1), Label(0), Note(2)],
        &[Call(0), Call(1), Note(1), Exit, Label(0), Note(2), Label(1), Note(3)],
    ];
    check(vm, p[arg as usize], &n);
}

/// One arbitrary label number.
pub extern "C" fn h_c23_num(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = cell();
    let cap = vm.labels().capacity() as isize;
    if arg < 3 {
        // not a label number
        assume((n <= 0) | (n >= cap));
        eval(vm, ": p 1");
        let z = cell();
        sset(vm, &[z, n]);
        eval(vm, ["label", "goto", "call"][arg as usize]);
        ck(20, err(vm) == code(INVALID_NUMERIC_ARGUMENT));
        ck(21, vm.find("p") == None);
        again(vm);
        reach(1);
        return;
    }
    // any label number
    assume((n > 0) & (n < cap));
    let n = if arg >= 5 { concretize(n as usize) as isize } else { n };
    let back = arg % 2 == 0;
    eval(vm, ": p 1");
    sset(vm, &[n]);
    if back {
        eval(vm, "label 1 - dup 0< if [ 10 ] exit then 2 *");
        sset(vm, &[n]);
        eval(vm, "goto ;");
    } else {
        eval(vm, "goto 2");
        sset(vm, &[n]);
        eval(vm, "label 3 ;");
    }
    ck(22, quiet(vm));
    recover(vm);
    eval(vm, "p");
    ck(23, quiet(vm));
    let e: &[isize] = if back { &[-1] } else { &[1, 3] };
    ck(24, sis(vm, e));
    // taken now
    eval(vm, "drop drop : q");
    recover(vm);
    eval(vm, ": q");
    sset(vm, &[n]);
    eval(vm, "label");
    ck(25, err(vm) == code(INVALID_NUMERIC_ARGUMENT));
    // and free again
    recover(vm);
    eval(vm, "0labels : q 1");
    sset(vm, &[n]);
    eval(vm, "goto 2");
    sset(vm, &[n]);
    eval(vm, "label ; q");
    ck(26, quiet(vm) && sis(vm, &[1]));
    reach(2);
}
