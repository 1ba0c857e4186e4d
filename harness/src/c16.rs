//! C16: defining words.
use crate::util::*;

/// A defining word of each kind, and what the word it makes has to deliver.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Constant,
    TwoConstant,
    Fconstant,
    Variable,
    TwoVariable,
    Fvariable,
    Create,
    Does,
    DoesLate,
    Field,
    Defer,
    Colon,
}
use Kind::*;
const KINDS: [Kind; 12] = [
    Constant, TwoConstant, Fconstant, Variable, TwoVariable, Fvariable, Create, Does, DoesLate, Field, Defer, Colon,
];

/// One defined word and what is known of it.
struct Made {
    kind: Kind,
    name: String,
    x: isize,
    y: isize,
    f: f64,
    /// where its data is and how long
    addr: usize,
    size: usize,
}

/// What every word made here may need.
fn prelude(vm: &mut VM) {
    good(
        vm,
        ": mk create , does> @ 1+ ; : mk2 create does> swap cells + @ ; : other 33 ; ' bye handler!",
        70,
    );
}

fn make(vm: &mut VM, kind: Kind, name: &str) -> Made {
    let (z, x, y) = (cell(), cell(), cell());
    let (g, f) = (float(), float());
    let mut m = Made { kind, name: name.to_string(), x, y, f, addr: 0, size: 0 };
    fset(vm, &[g]);
    match kind {
        Constant => {
            sset(vm, &[z, x]);
            good(vm, &["constant ", name].concat(), 71);
        }
        TwoConstant => {
            sset(vm, &[z, x, y]);
            good(vm, &["2constant ", name].concat(), 71);
        }
        Fconstant => {
            sset(vm, &[z]);
            fset(vm, &[g, f]);
            good(vm, &["fconstant ", name].concat(), 71);
        }
        Variable | TwoVariable | Fvariable => {
            sset(vm, &[z]);
            let w = match kind {
                Variable => "variable ",
                TwoVariable => "2variable ",
                _ => "fvariable ",
            };
            good(vm, &[w, name].concat(), 71);
            ck(72, sis(vm, &[z]));
            good(vm, name, 73);
            ck(74, vm.s_stack().len() == 2 && sget(vm, 0) == z);
            m.addr = sget(vm, 1) as usize;
            m.size = if kind == TwoVariable { 16 } else { 8 };
            // they start out as zero
            ck(75, peek(m.addr) == 0);
            ck(76, kind != TwoVariable || peek(m.addr + 8) == 0);
            write(vm, &mut m);
            sset(vm, &[z]);
        }
        Create => {
            sset(vm, &[z]);
            good(vm, &["create ", name].concat(), 71);
            good(vm, name, 77);
            ck(78, vm.s_stack().len() == 2 && sget(vm, 1) as usize == here(vm));
            m.addr = here(vm);
            m.size = 16;
            sset(vm, &[z, x, y]);
            good(vm, "swap , ,", 79);
        }
        Does => {
            sset(vm, &[z, x]);
            good(vm, &["mk ", name].concat(), 71);
        }
        DoesLate => {
            sset(vm, &[z]);
            good(vm, &["mk2 ", name].concat(), 71);
            sset(vm, &[z, y, x]);
            good(vm, ", ,", 79);
        }
        Field => {
            sset(vm, &[z, x, y]);
            good(vm, &["+field ", name].concat(), 71);
            ck(80, vm.s_stack().len() == 2 && sget(vm, 1) == x.wrapping_add(y));
            vm.s_stack().pop();
        }
        Defer => {
            sset(vm, &[z]);
            good(vm, &["defer ", name].concat(), 71);
            // does nothing yet
            good(vm, name, 81);
            ck(82, sis(vm, &[z]));
            good(vm, &["' other ' ", name, " defer!"].concat(), 83);
        }
        Colon => {
            sset(vm, &[z]);
            good(vm, &[": ", name, " other 1+ ;"].concat(), 71);
        }
    }
    ck(84, sis(vm, &[z]) & fis(vm, &[g]));
    m
}
fn write(vm: &mut VM, m: &mut Made) {
    if !(m.kind == Variable || m.kind == TwoVariable || m.kind == Fvariable) {
        return;
    }
    m.x = cell();
    m.y = cell();
    m.f = float();
    let (a, x, y, f) = (m.addr as isize, m.x, m.y, m.f);
    match m.kind {
        Variable => {
            sset(vm, &[x, a]);
            good(vm, "!", 85);
        }
        TwoVariable => {
            sset(vm, &[x, y, a]);
            good(vm, "2!", 85);
        }
        Fvariable => {
            sset(vm, &[a]);
            vm.f_stack().push(f);
            good(vm, "f!", 85);
        }
        _ => {}
    }
}
/// The word delivers what it was given, by name, in a definition, by token.
fn check(vm: &mut VM, m: &Made, how: usize, id: u32) {
    let n = &m.name;
    let (z, g) = (cell(), float());
    sset(vm, &[z]);
    fset(vm, &[g]);
    let mut want = vec![z];
    if m.kind == Field || m.kind == DoesLate {
        let k = if m.kind == Field { cell() } else { choice(2) as isize };
        vm.s_stack().push(k);
        match m.kind {
            Field => want.push(k.wrapping_add(m.x)),
            _ => want.push(if k == 0 { m.x } else { m.y }),
        }
        // +field and `swap cells + @`
    }
    let text = match how {
        0 => n.clone(),
        1 => [": t ", n, " ; t"].concat(),
        2 => ["' ", n, " execute"].concat(),
        _ => [": t ['] ", n, " execute ; : u t ; u"].concat(),
    };
    // y ends on top
    good(vm, &text, id);
    match m.kind {
        Constant => want.push(m.x),
        TwoConstant => want.extend_from_slice(&[m.x, m.y]),
        Fconstant => {}
        Variable | TwoVariable | Fvariable | Create => want.push(m.addr as isize),
        Does => want.push(m.x.wrapping_add(1)),
        DoesLate | Field => {}
        Defer => want.push(33),
        Colon => want.push(34),
    }
    ck(id + 1, sis(vm, &want));
    if m.kind == Fconstant {
        ck(id + 2, fis(vm, &[g, m.f]));
    } else {
        ck(id + 2, fis(vm, &[g]));
    }
    let a = m.addr;
    match m.kind {
        Variable => ck(id + 3, peek(a) == m.x),
        TwoVariable => ck(id + 3, (peek(a) == m.y) & (peek(a + 8) == m.x)),
        Fvariable => ck(id + 3, feq(f64::from_bits(peek(a) as u64), m.f)),
        Create => ck(id + 3, (peek(a) == m.x) & (peek(a + 8) == m.y)),
        _ => {}
    }
    if a != 0 {
        ck(id + 4, (a % 8 == 0) & (a >= start(vm)) & (a + m.size <= here(vm)));
    }
}
fn odd(vm: &mut VM) {
    // out of step by any number of bytes
    let k = choice(4);
    for _ in 0..[0, 1, 4, 7][k] {
        good(vm, "255 c,", 69);
    }
}

/// Three words of any kind, one after the other: kinds arg / 12 and arg % 12,
/// then any.
pub extern "C" fn h_c16_three(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    prelude(vm);
    odd(vm);
    let mut a = make(vm, KINDS[arg as usize / 12], "w-a");
    odd(vm);
    let b = make(vm, KINDS[arg as usize % 12], "W-b2");
    let c = make(vm, KINDS[choice(12)], "third-word");
    if a.addr != 0 && b.addr != 0 {
        ck(1, a.addr + a.size <= b.addr);
    }
    if b.addr != 0 && c.addr != 0 {
        ck(2, b.addr + b.size <= c.addr);
    }
    write(vm, &mut a);
    // names of its parts defined anew, and what it stands on forgotten
    good(vm, ": other 44 ; : @ 45 ; : 1+ ; : + 46 ; 47 constant cells", 3);
    let how = choice(2);
    check(vm, &a, 2 * how, 10);
    check(vm, &b, 1 + 2 * how, 20);
    check(vm, &c, how, 30);
    check(vm, &a, how, 40);
    reach(1);
}

/// The same name twice: each stays with its own.
pub extern "C" fn h_c16_same(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    prelude(vm);
    let a = make(vm, KINDS[arg as usize], "name");
    good(vm, ": old name ;", 1);
    let n = choice(12);
    let b = make(vm, KINDS[n], "name");
    good(vm, "77 constant spare", 2);
    let mut o = a;
    o.name = "old".to_string();
    check(vm, &b, choice(4), 10);
    check(vm, &o, choice(4), 20);
    reach(1);
}

/// defer, defer! and defer@.
pub extern "C" fn h_c16_defer(vm: *mut VM, _: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, ": one 1 + ; : two 2 * ; 7 constant seven", 80);
    good(vm, "defer d defer e : t d ;", 81);
    let (z, x) = (cell(), cell());
    let names = ["noop", "one", "two", "seven", "e", "negate", "drop"];
    let (p, q) = (choice(7), choice(7));
    let xp = xt(vm, names[p]) as isize;
    let xq = xt(vm, names[q]) as isize;
    let xd = xt(vm, "d") as isize;
    let xe = xt(vm, "e") as isize;
    let set = |vm: &mut VM, v: isize, w: isize| {
        sset(vm, &[z, v, w]);
        good(vm, "defer!", 1);
        ck(2, sis(vm, &[z]));
        sset(vm, &[z, w]);
        good(vm, "defer@", 3);
        ck(4, sis(vm, &[z, v]));
    };
    // e does what p does, unless that is e
    if p != 4 {
        set(vm, xp, xe);
    }
    set(vm, xq, xd);
    let eff = |k: usize| -> Vec<isize> {
        match k {
            0 => vec![z, x],
            1 => vec![z, x.wrapping_add(1)],
            2 => vec![z, x.wrapping_mul(2)],
            3 => vec![z, x, 7],
            5 => vec![z, x.wrapping_neg()],
            _ => vec![z],
        }
    };
    let pp = if p == 4 { 0 } else { p };
    let want = if q == 4 { eff(pp) } else { eff(q) };
    for w in ["d", "t"] {
        sset(vm, &[z, x]);
        good(vm, w, 5);
        ck(6, sis(vm, &want));
    }
    sset(vm, &[z, x]);
    good(vm, "e", 7);
    ck(8, sis(vm, &eff(pp)));
    // and another change reaches compiled code
    set(vm, xp, xd);
    sset(vm, &[z, x]);
    if p != 4 {
        good(vm, "t", 9);
        ck(10, sis(vm, &eff(p)));
    }
    reach(1);
}

/// create ... does> in all its variations.
pub extern "C" fn h_c16_does(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let (z, x, y, k) = (cell(), cell(), cell(), cell());
    match arg {
        0 => {
            // data laid down after the fact
            good(vm, ": array create does> swap cells + ;", 80);
            good(vm, "array a", 81);
            let h = here(vm) as isize;
            sset(vm, &[y, x]);
            good(vm, ", ,", 82);
            good(vm, "5 , array b 6 ,", 83);
            sset(vm, &[z, k]);
            good(vm, "a", 1);
            ck(2, sis(vm, &[z, h.wrapping_add(k.wrapping_mul(8))]));
            sset(vm, &[z]);
            good(vm, "0 a @ 1 a @ 2 a @ 0 b @", 3);
            ck(4, sis(vm, &[z, x, y, 5, 6]));
        }
        1 => {
            // conditionals, loops and exits behind does>
            good(vm, ": sel create , , does> swap if @ exit then cell+ @ ;", 80);
            sset(vm, &[z, x, y]);
            good(vm, "sel s", 81);
            ck(1, sis(vm, &[z]));
            good(vm, ": t s ;", 82);
            for w in ["s", "t"] {
                sset(vm, &[z, k]);
                good(vm, w, 2);
                ck(3, sis(vm, &[z, if k != 0 { y } else { x }]));
            }
        }
        2 => {
            // code before and behind, another defining word in between
            good(vm, ": d1 create dup , 1+ , does> dup @ swap cell+ @ ; : d2 create , does> @ negate ;", 80);
            sset(vm, &[z, x]);
            good(vm, "d1 a", 81);
            sset(vm, &[z, y]);
            good(vm, "d2 b", 82);
            sset(vm, &[z, k]);
            good(vm, "d1 c", 83);
            good(vm, "a b c", 1);
            ck(2, sis(vm, &[z, x, x.wrapping_add(1), y.wrapping_neg(), k, k.wrapping_add(1)]));
        }
        3 => {
            // a defining word made of defining words
            good(vm, ": d2 create , does> @ ; : d3 d2 ; : d4 constant ; : d5 variable ; : d6 create here ! ;", 80);
            sset(vm, &[z, x]);
            good(vm, "d3 a", 81);
            sset(vm, &[z, y]);
            good(vm, "d4 b", 82);
            good(vm, "d5 c", 83);
            sset(vm, &[z]);
            good(vm, "a b c @", 1);
            ck(2, sis(vm, &[z, x, y, 0]));
        }
        4 => {
            // >body, and the address does> delivers
            good(vm, ": d create , does> ;", 80);
            sset(vm, &[z, x]);
            good(vm, "d a create b", 81);
            sset(vm, &[z]);
            good(vm, "' a >body ' b >body", 1);
            let (pa, pb) = (sget(vm, 1), sget(vm, 2));
            good(vm, "drop drop a b", 2);
            ck(3, sis(vm, &[z, pa, pb]));
            ck(4, peek(pa as usize) == x);
        }
        5 => {
            // does> twice in a row changes the last one only
            good(vm, ": d create , does> @ ; : e create , does> @ invert ;", 80);
            sset(vm, &[z, y, x]);
            good(vm, "d a e b", 81);
            good(vm, "b a", 1);
            ck(2, sis(vm, &[z, y.wrapping_neg().wrapping_sub(1), x]));
        }
        6 => {
            // floats behind does>
            let f = float();
            let g = float();
            good(vm, ": fc create falign f, does> faligned f@ ; 1 c,", 80);
            fset(vm, &[g, f]);
            sset(vm, &[z]);
            good(vm, "fc a", 81);
            ck(1, fis(vm, &[g]));
            good(vm, "a", 2);
            ck(3, fis(vm, &[g, f]) & sis(vm, &[z]));
        }
        7 => {
            // many of one kind
            good(vm, ": d create , does> @ ;", 80);
            let mut v = vec![z];
            let names = ["q1", "q2", "q3", "q4", "q5", "q6", "q7", "q8", "q9"];
            for n in names {
                let x = cell();
                v.push(x);
                sset(vm, &[z, x]);
                good(vm, &["d ", n].concat(), 81);
            }
            sset(vm, &[z]);
            good(vm, "q1 q2 q3 q4 q5 q6 q7 q8 q9", 1);
            ck(2, sis(vm, &v));
        }
        8 => {
            // structures
            sset(vm, &[z]);
            good(vm, "0 1 cells +field f1 2 cells +field f2 1 chars +field f3 constant size", 80);
            ck(1, sis(vm, &[z]));
            sset(vm, &[z, x]);
            good(vm, "f1", 2);
            ck(3, sis(vm, &[z, x]));
            good(vm, "f2", 4);
            ck(5, sis(vm, &[z, x.wrapping_add(8)]));
            sset(vm, &[z, x]);
            good(vm, "f3 size", 6);
            ck(7, sis(vm, &[z, x.wrapping_add(24), 25]));
        }
        _ => {
            // forgotten and made again
            good(vm, ": d create , does> @ ; 5 d a marker m", 80);
            sset(vm, &[z, x]);
            good(vm, "d b m", 81);
            sset(vm, &[z, y]);
            good(vm, "create b ,", 82);
            good(vm, "a b @", 1);
            ck(2, sis(vm, &[z, 5, y]));
        }
    }
    reach(1);
}

/// Without a name they define nothing.
pub extern "C" fn h_c16_noname(vm: *mut VM, _: u64) {
    let vm = unsafe { &mut *vm };
    let w = [
        "constant", "2constant", "fconstant", "variable", "2variable", "fvariable", "create", "+field", "defer", ":",
        "marker",
    ][choice(11)];
    good(vm, "' bye handler! 3 constant three", 80);
    let n = vm.wordlist().len();
    let (x, y) = (cell(), cell());
    sset(vm, &[x, y]);
    fset(vm, &[float()]);
    eval(vm, [w, &[w, "  "].concat()][choice(2)]);
    ck(1, err(vm) == code(UNEXPECTED_END_OF_FILE));
    ck(2, vm.wordlist().len() == n);
    recover(vm);
    sset(vm, &[x]);
    good(vm, "three : t 4 ; t", 3);
    ck(4, sis(vm, &[x, 3, 4]));
    reach(1);
}
