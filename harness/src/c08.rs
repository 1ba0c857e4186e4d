//! C08: conditionals, indefinite loops, case.
use crate::util::*;

/// A program of the structured subset.
enum Node {
    /// `k t` notes k
    Note(isize),
    /// `f if A then`
    If(Vec<Node>),
    IfElse(Vec<Node>, Vec<Node>),
    /// `begin A f until`
    Until(Vec<Node>),
    /// `begin A f while B repeat`
    While(Vec<Node>, Vec<Node>),
    /// `begin A again`; A leaves by Exit only
    Again(Vec<Node>),
    /// `f if exit then`, with what lies on the stack dropped first
    ExitIf(usize),
    /// `f case f of A endof f of B endof C endcase`
    Case(Vec<Node>, Vec<Node>, Vec<Node>),
    /// `f case` several `f of A endof` `C endcase`
    Many(Vec<Vec<Node>>, Vec<Node>),
    /// `dup t`: notes what lies on the stack
    Top,
}
use Node::*;

const FLAGS: usize = 8;
const NOTES: usize = 24;

fn source(p: &[Node], out: &mut String) {
    for n in p {
        match n {
            Note(k) => {
                out.push((b'0' + *k as u8 / 10) as char);
                out.push((b'0' + *k as u8 % 10) as char);
                out.push_str(" t ");
            }
            If(a) => {
                out.push_str("f if ");
                source(a, out);
                out.push_str("then ");
            }
            IfElse(a, b) => {
                out.push_str("f if ");
                source(a, out);
                out.push_str("else ");
                source(b, out);
                out.push_str("then ");
            }
            Until(a) => {
                out.push_str("begin ");
                source(a, out);
                out.push_str("f until ");
            }
            While(a, b) => {
                out.push_str("begin ");
                source(a, out);
                out.push_str("f while ");
                source(b, out);
                out.push_str("repeat ");
            }
            Again(a) => {
                out.push_str("begin ");
                source(a, out);
                out.push_str("again ");
            }
            ExitIf(d) => {
                out.push_str("f if ");
                for _ in 0..*d {
                    out.push_str("drop ");
                }
                out.push_str("exit then ");
            }
            Case(a, b, c) => {
                out.push_str("f case f of ");
                source(a, out);
                out.push_str("endof f of ");
                source(b, out);
                out.push_str("endof ");
                source(c, out);
                out.push_str("endcase ");
            }
            Many(l, c) => {
                out.push_str("f case ");
                for a in l {
                    out.push_str("f of ");
                    source(a, out);
                    out.push_str("endof ");
                }
                source(c, out);
                out.push_str("endcase ");
            }
            Top => out.push_str("dup t "),
        }
    }
}

struct Oracle {
    flags: Vec<isize>,
    next: usize,
    notes: Vec<isize>,
    top: Vec<isize>,
}
enum Stop {
    Exit,
    /// out of flags or room for notes
    Spent,
}
impl Oracle {
    fn f(&mut self) -> Result<isize, Stop> {
        if self.next == self.flags.len() {
            return Err(Stop::Spent);
        }
        self.next += 1;
        Ok(self.flags[self.next - 1])
    }
    fn note(&mut self, k: isize) -> Result<(), Stop> {
        if self.notes.len() == NOTES {
            return Err(Stop::Spent);
        }
        self.notes.push(k);
        Ok(())
    }
    fn run(&mut self, p: &[Node]) -> Result<(), Stop> {
        for n in p {
            match n {
                Note(k) => self.note(*k)?,
                If(a) => {
                    if self.f()? != 0 {
                        self.run(a)?
                    }
                }
                IfElse(a, b) => {
                    if self.f()? != 0 {
                        self.run(a)?
                    } else {
                        self.run(b)?
                    }
                }
                Until(a) => loop {
                    self.run(a)?;
                    if self.f()? != 0 {
                        break;
                    }
                },
                While(a, b) => loop {
                    self.run(a)?;
                    if self.f()? == 0 {
                        break;
                    }
                    self.run(b)?;
                },
                Again(a) => loop {
                    self.run(a)?;
                },
                ExitIf(_) => {
                    if self.f()? != 0 {
                        return Err(Stop::Exit);
                    }
                }
                Case(a, b, c) => {
                    let x = self.f()?;
                    if self.f()? == x {
                        self.run(a)?
                    } else if self.f()? == x {
                        self.run(b)?
                    } else {
                        self.top.push(x);
                        self.run(c)?;
                        self.top.pop();
                    }
                }
                Many(l, c) => {
                    let x = self.f()?;
                    let mut found = false;
                    for a in l {
                        if self.f()? == x {
                            self.run(a)?;
                            found = true;
                            break;
                        }
                    }
                    if !found {
                        self.top.push(x);
                        self.run(c)?;
                        self.top.pop();
                    }
                }
                Top => {
                    let x = self.top[self.top.len() - 1];
                    self.note(x)?
                }
            }
        }
        Ok(())
    }
}

struct Gen {
    k: isize,
}
impl Gen {
    fn note(&mut self) -> Node {
        self.k += 1;
        Note(self.k)
    }
    /// A block containing `inner` if any, among notes.
    fn block(&mut self, inner: Option<Node>, last: bool) -> Vec<Node> {
        match inner {
            None => vec![self.note()],
            Some(n) => {
                if last {
                    vec![self.note(), n]
                } else {
                    let m = self.note();
                    vec![n, m]
                }
            }
        }
    }
    /// A shape with `depth` more levels inside, `drops` items on the stack.
    fn shape(&mut self, which: usize, depth: usize, drops: usize) -> Node {
        let holes = [1, 2, 1, 2, 1, 0, 3][which];
        let hole = if holes > 1 && depth > 0 { choice(holes) } else { 0 };
        let mut inner = None;
        if depth > 0 && holes > 0 {
            let w = choice(7);
            let d = drops + (which == 6 && hole == 2) as usize;
            inner = Some(self.shape(w, depth - 1, d));
        }
        match which {
            0 => If(self.block(inner, true)),
            1 => {
                if hole == 0 {
                    let a = self.block(inner, true);
                    IfElse(a, self.block(None, true))
                } else {
                    let a = self.block(None, true);
                    IfElse(a, self.block(inner, false))
                }
            }
            2 => Until(self.block(inner, false)),
            3 => {
                if hole == 0 {
                    let a = self.block(inner, true);
                    While(a, self.block(None, true))
                } else {
                    let a = self.block(None, true);
                    While(a, self.block(inner, false))
                }
            }
            4 => {
                let mut a = self.block(inner, true);
                a.push(ExitIf(drops));
                a.push(self.note());
                Again(a)
            }
            5 => ExitIf(drops),
            _ => {
                let mut v: [Option<Node>; 3] = [None, None, None];
                v[hole] = inner;
                let [x, y, z] = v;
                let a = self.block(x, true);
                let b = self.block(y, false);
                let mut c = self.block(z, true);
                c.insert(0, Top);
                Case(a, b, c)
            }
        }
    }
}

fn setup(vm: &mut VM) {
    good(vm, "create fl 8 cells allot variable fp fl fp !", 90);
    good(vm, ": f fp @ fl 64 + = if abort bye then fp @ @ fp @ cell+ fp ! ;", 90);
    good(vm, "create lo 24 cells allot variable lp lo lp !", 90);
    good(vm, ": t lp @ lo 192 + = if abort bye then lp @ ! lp @ cell+ lp ! ;", 90);
}
fn body(vm: &mut VM, name: &str) -> usize {
    let w = xt(vm, name);
    vm.wordlist()[w].dfa()
}
fn run(vm: &mut VM, p: Vec<Node>) {
    setup(vm);
    let fl = body(vm, "fl");
    let lo = body(vm, "lo");
    let lp = body(vm, "lp");
    let fp = body(vm, "fp");
    let mut flags = vec![];
    for i in 0..FLAGS {
        let c = cell();
        flags.push(c);
        poke(fl + 8 * i, c);
    }
    let mut s = String::with_capacity(512);
    s.push_str(": p ");
    source(&p, &mut s);
    s.push(';');
    good(vm, &s, 1);
    let (a, b, c) = (cell(), cell(), float());
    sset(vm, &[a, b]);
    fset(vm, &[c]);
    eval(vm, "p");
    let mut o = Oracle { flags, next: 0, notes: vec![], top: vec![] };
    let r = o.run(&p);
    // the same notes in the same order
    let n = (peek(lp) as usize - lo) / 8;
    ck(2, n == o.notes.len());
    let mut same = true;
    for i in 0..n {
        same &= peek(lo + 8 * i) == o.notes[i];
    }
    ck(3, same);
    // the same number of flags consumed
    ck(4, (peek(fp) as usize - fl) / 8 == o.next);
    match r {
        Err(Stop::Spent) => {
            ck(5, err(vm) == code(ABORT));
            reach(2);
        }
        _ => {
            ck(6, quiet(vm));
            ck(7, sis(vm, &[a, b]) & fis(vm, &[c]));
            ck(8, vm.r_stack().len() == 0);
            ck(9, vm.c_stack().len() == 0);
            reach(1);
        }
    }
}

/// One structure.
pub extern "C" fn h_c08_one(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut g = Gen { k: 0 };
    let s = g.shape(arg as usize, 0, 0);
    let p = vec![g.note(), s, g.note()];
    run(vm, p);
}
/// One inside another.
pub extern "C" fn h_c08_two(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut g = Gen { k: 0 };
    let s = g.shape(arg as usize, 1, 0);
    let p = vec![g.note(), s, g.note()];
    run(vm, p);
}
/// Three levels.
pub extern "C" fn h_c08_three(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut g = Gen { k: 0 };
    let s = g.shape(arg as usize, 2, 0);
    let p = vec![s, g.note()];
    run(vm, p);
}
/// One after another.
pub extern "C" fn h_c08_seq(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut g = Gen { k: 0 };
    let s = g.shape(arg as usize, 0, 0);
    let w = choice(7);
    let r = g.shape(w, 0, 0);
    let p = vec![s, r, g.note()];
    run(vm, p);
}
/// Four levels.
pub extern "C" fn h_c08_four(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut g = Gen { k: 0 };
    let s = g.shape(arg as usize, 3, 0);
    let p = vec![s, g.note()];
    run(vm, p);
}
/// A case of 0 to 7 branches, alone, in an if, or with an inner case.
pub extern "C" fn h_c08_many(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut g = Gen { k: 0 };
    let inner = choice(2) == 1;
    let at = if inner && arg > 0 { choice(arg as usize) } else { 0 };
    let mut l = vec![];
    for i in 0..arg as usize {
        let mut a = vec![g.note()];
        if inner && i == at {
            let (x, y, z, d) = (g.note(), g.note(), g.note(), g.note());
            a.push(Many(vec![vec![x], vec![y], vec![z]], vec![d]));
            a.push(g.note());
        }
        l.push(a);
    }
    let d = g.note();
    let m = Many(l, vec![Top, d]);
    let p = if choice(2) == 0 { vec![g.note(), m, g.note()] } else { vec![If(vec![m, g.note()]), g.note()] };
    run(vm, p);
}
/// An if-else ladder and successive exits.
pub extern "C" fn h_c08_ladder(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut g = Gen { k: 0 };
    let n = g.note();
    let mut l = vec![n];
    for i in 0..5 {
        let a = g.note();
        l = match (arg + i) % 4 {
            0 => vec![IfElse(vec![a], l)],
            1 => vec![IfElse(l, vec![a])],
            2 => vec![If(vec![ExitIf(0), a]), If(l)],
            _ => vec![If(l), ExitIf(0), a],
        };
    }
    l.push(g.note());
    run(vm, l);
}
