//! C10: ill-formed control structures.
use crate::util::*;

const W: [&str; 17] = [
    "if", "else", "then", "begin", "while", "repeat", "until", "again", "case", "of", "endof", "endcase", "do", "?do",
    "loop", "+loop", "leave",
];

#[derive(Clone, Copy, PartialEq)]
enum C {
    If,
    Else,
    Begin,
    While,
    Case,
    Of,
    Do,
}
use C::*;

struct Grammar {
    open: Vec<C>,
    ok: bool,
}
impl Grammar {
    fn top(&self) -> Option<C> {
        self.open.last().copied()
    }
    fn swap(&mut self, from: &[C], to: Option<C>) {
        match self.top() {
            Some(t) if from.contains(&t) => {
                self.open.pop();
                if let Some(n) = to {
                    self.open.push(n)
                }
            }
            _ => self.ok = false,
        }
    }
    fn word(&mut self, k: usize) {
        if !self.ok {
            return;
        }
        match k {
            0 => self.open.push(If),
            1 => self.swap(&[If], Some(Else)),
            2 => self.swap(&[If, Else], None),
            3 => self.open.push(Begin),
            4 => self.swap(&[Begin], Some(While)),
            5 => self.swap(&[While], None),
            6 | 7 => self.swap(&[Begin], None),
            8 => self.open.push(Case),
            9 => {
                if self.top() == Some(Case) {
                    self.open.push(Of)
                } else {
                    self.ok = false
                }
            }
            10 => self.swap(&[Of], None),
            11 => self.swap(&[Case], None),
            12 | 13 => self.open.push(Do),
            14 | 15 => self.swap(&[Do], None),
            _ => {
                if !self.open.contains(&Do) {
                    self.ok = false
                }
            }
        }
    }
    fn accepts(&self) -> bool {
        self.ok && self.open.is_empty()
    }
}

/// After a rejection.
fn rejected(vm: &mut VM, older: Option<usize>, k: isize, old: isize) {
    ck(1, err(vm) != 0);
    ck(2, vm.find("w") == older);
    recover(vm);
    ck(3, vm.find("w") == older);
    ck(4, quiet(vm) && vm.s_stack().len() == 0 && vm.r_stack().len() == 0 && vm.c_stack().len() == 0);
    // interprets
    eval(vm, "pre");
    ck(5, quiet(vm) && sis(vm, &[k]));
    if older.is_some() {
        eval(vm, "drop w");
        ck(6, quiet(vm) && sis(vm, &[old]));
    }
    // compiles
    let x = cell();
    eval(vm, ": v if 11 else 22 then ;");
    ck(7, quiet(vm));
    sset(vm, &[x]);
    eval(vm, "v");
    ck(8, quiet(vm));
    ck(9, sis(vm, &[if x != 0 { 11 } else { 22 }]));
    eval(vm, "drop : w 2 0 do i loop ; w");
    ck(10, quiet(vm) && sis(vm, &[0, 1]));
    reach(2);
}

fn explore(vm: &mut VM, first: usize, n: usize) {
    let (k, old) = (cell(), cell());
    sset(vm, &[k, old]);
    eval(vm, "constant w constant pre");
    let older = vm.find("w");
    explore2(vm, first, n, older, k, old);
}
fn explore2(vm: &mut VM, first: usize, n: usize, older: Option<usize>, k: isize, old: isize) {
    eval(vm, ": w");
    ck(11, quiet(vm) && vm.find("w") == older);
    let mut g = Grammar { open: vec![], ok: true };
    for step in 0..n {
        let w = if step == 0 { first } else { choice(W.len() + 1) };
        if w == W.len() {
            break;
        }
        eval(vm, W[w]);
        g.word(w);
        if !quiet(vm) {
            ck(12, !g.ok);
            rejected(vm, older, k, old);
            return;
        }
    }
    eval(vm, ";");
    if g.accepts() {
        ck(13, quiet(vm));
        let i = vm.find("w");
        ck(14, i.is_some() && i != older);
        ck(15, vm.c_stack().len() == 0 && vm.s_stack().len() == 0);
        reach(1);
    } else {
        ck(16, !quiet(vm));
        rejected(vm, older, k, old);
    }
}

/// Four control-flow words, the first given.
pub extern "C" fn h_c10_four(vm: *mut VM, arg: u64) {
    explore(unsafe { &mut *vm }, arg as usize, 4);
}
pub extern "C" fn h_c10_five(vm: *mut VM, arg: u64) {
    explore(unsafe { &mut *vm }, arg as usize, 5);
}
/// Longer well-formed texts with one word exchanged, left out or doubled.
pub extern "C" fn h_c10_edit(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let texts: [&[usize]; 8] = [
        &[0, 3, 4, 5, 1, 8, 9, 10, 11, 2],
        &[8, 9, 10, 9, 10, 9, 0, 2, 10, 11],
        &[12, 0, 16, 2, 13, 16, 15, 14],
        &[3, 0, 1, 2, 4, 12, 14, 5],
        &[3, 3, 3, 6, 7, 6, 0, 2],
        &[8, 9, 8, 9, 10, 11, 10, 8, 11, 11],
        &[12, 8, 9, 16, 10, 16, 11, 14],
        &[0, 0, 1, 2, 1, 0, 2, 2],
    ];
    let t = texts[arg as usize];
    let (k, old) = (cell(), cell());
    sset(vm, &[k, old]);
    eval(vm, "constant w constant pre");
    let older = vm.find("w");
    eval(vm, ": w");
    let at = choice(t.len());
    let how = choice(W.len() + 2);
    let mut g = Grammar { open: vec![], ok: true };
    let mut list = vec![];
    for i in 0..t.len() {
        if i != at {
            list.push(t[i]);
        } else if how < W.len() {
            list.push(how);
        } else if how == W.len() {
            // left out
        } else {
            list.push(t[i]);
            list.push(t[i]);
        }
    }
    for &w in &list {
        eval(vm, W[w]);
        g.word(w);
        if !quiet(vm) {
            ck(12, !g.ok);
            rejected(vm, older, k, old);
            return;
        }
    }
    eval(vm, ";");
    if g.accepts() {
        ck(13, quiet(vm));
        let i = vm.find("w");
        ck(14, i.is_some() && i != older);
        ck(15, vm.c_stack().len() == 0 && vm.s_stack().len() == 0);
        reach(1);
    } else {
        ck(16, !quiet(vm));
        rejected(vm, older, k, old);
    }
}
