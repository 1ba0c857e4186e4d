//! C24: clock words and execution times.
use crate::util::*;

/// mtime and utime on any clock.
pub extern "C" fn h_c24_clock(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let c = clock(vm);
    let (a, b) = (cell(), cell());
    sset(vm, &[a, b]);
    let now = any64();
    unsafe { *c = now };
    let d = if arg & 1 == 0 { 1_000_000 } else { 1_000 };
    let name = if arg & 1 == 0 { "mtime" } else { "utime" };
    if arg & 2 == 0 {
        call(vm, name);
    } else {
        eval(vm, name);
    }
    ck(1, sis(vm, &[a, b, (now / d) as isize]));
    ck(2, quiet(vm));
    // whole units: never ahead, never a whole unit behind
    let t = sget(vm, 2) as u64;
    ck(3, (now - t.wrapping_mul(d) < d) & (t <= now));
    reach(1);
}

static mut CLOCK: *mut u64 = std::ptr::null_mut();
static mut STEP: u64 = 0;
static mut DONE: usize = 0;
/// Takes some time.
fn work(_: &mut VM) {
    unsafe {
        *CLOCK += STEP;
        DONE += 1;
    }
}

/// What is recorded of one word.
#[derive(Clone, Copy)]
struct Rec {
    n: usize,
    min: usize,
    max: usize,
}
impl Rec {
    fn new() -> Rec {
        Rec { n: 0, min: 0, max: 0 }
    }
    fn add(&mut self, d: usize) {
        self.min = if self.n == 0 { d } else { self.min.min(d) };
        self.max = if self.n == 0 { d } else { self.max.max(d) };
        self.n += 1;
    }
}

/// What .xtime shows: the word defined last comes first.
fn shown(names: &[&str], r: &[Rec]) -> String {
    let mut s = String::new();
    for i in (0..r.len()).rev() {
        if r[i].n > 0 {
            if !s.is_empty() {
                s.push('|');
            }
            s.push_str(&format!("{}|{},{}", names[i], r[i].min, r[i].max));
        }
    }
    s
}

const NAMES: [&str; 4] = ["dup", "sp", "ccc", "work"];

fn prepare(vm: &mut VM) {
    unsafe {
        CLOCK = clock(vm);
        STEP = 0;
        DONE = 0;
    }
    good(vm, ": sp dup drop ; 5 constant ccc", 90);
    vm.add_primitive("work", work);
    good(vm, "marker mm create other", 91);
}

/// A duration: small, or around a power of ten.
fn duration(k: usize) -> usize {
    let d = (any8() & 15) as usize;
    [0usize, 95, 999_990, 1 << 40][k] + d
}

/// Records one measurement of word `i`, by `(xtime)` itself or by xtime.
fn measure(vm: &mut VM, i: usize, k: usize, at: usize) -> usize {
    let d = duration(k);
    // the sub-microsecond part does not count
    let now = (1u64 << 52) * 1000;
    let below = [0, 999][at & 1];
    unsafe { *CLOCK = now + below };
    let w = xt(vm, NAMES[i]) as isize;
    let t0 = (now / 1000) as isize - d as isize;
    sset(vm, &[41, t0, w]);
    call(vm, "(xtime)");
    ck(1, sis(vm, &[41]) & quiet(vm));
    d
}

/// Histories of `arg`'s: measurements, clearing and showing.
fn history(vm: &mut VM, len: usize, first: usize) {
    prepare(vm);
    let mut r = [Rec::new(); 4];
    for at in 0..len {
        let op = if at == 0 { first } else { choice(6) };
        match op {
            0 | 1 | 2 | 3 => {
                let (i, k) = [(1, 0), (1, 1), (3, 0), (0, 3)][op];
                let d = measure(vm, i, k, at);
                r[i].add(d);
            }
            4 => {
                call(vm, "0xtime");
                r = [Rec::new(); 4];
                ck(2, quiet(vm));
            }
            _ => {
                clear_out(vm);
                call(vm, ".xtime");
                let s = shown(&NAMES, &r);
                let o = out(vm);
                ck(3, beq(&o, s.as_bytes()));
            }
        }
    }
    clear_out(vm);
    call(vm, ".xtime");
    let s = shown(&NAMES, &r);
    let o = out(vm);
    ck(4, beq(&o, s.as_bytes()));
    reach(1);
}
pub extern "C" fn h_c24_three(vm: *mut VM, arg: u64) {
    history(unsafe { &mut *vm }, 3, arg as usize)
}
pub extern "C" fn h_c24_four(vm: *mut VM, arg: u64) {
    history(unsafe { &mut *vm }, 4, arg as usize)
}

/// xtime executes the word once and records how long that takes.
pub extern "C" fn h_c24_xtime(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    prepare(vm);
    let mut r = [Rec::new(); 4];
    let w = xt(vm, "work") as isize;
    for n in 0..=arg as usize {
        let now = [0, 1, 999, 1_000, 123_456_789_500][choice(5)];
        let k = [0, 1, 2][choice(3)];
        let d = duration(k);
        let below = [0, 1, 999][choice(3)];
        let step = d as u64 * 1000 + below;
        unsafe {
            *CLOCK = now;
            STEP = step;
        }
        let x = cell();
        sset(vm, &[x]);
        call(vm, "utime");
        vm.s_stack().push(w);
        call(vm, "xtime");
        ck(1, sis(vm, &[x]) & quiet(vm));
        ck(2, unsafe { DONE } == n + 1);
        ck(3, unsafe { *CLOCK } == now + step);
        let d = d + ((now % 1000 + below) / 1000) as usize;
        r[3].add(d);
    }
    clear_out(vm);
    call(vm, ".xtime");
    let s = shown(&NAMES, &r);
    let o = out(vm);
    ck(4, beq(&o, s.as_bytes()));
    reach(1);
}
/// Words that are there already, one by one; the others stay unmeasured.
pub extern "C" fn h_c24_word(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    prepare(vm);
    let w = 1 + 40 * arg as usize + choice(40);
    if w >= vm.wordlist().len() {
        end()
    }
    let nfa = vm.wordlist()[w].nfa();
    let name = unsafe { vm.data_space().get_str(nfa).to_string() };
    let (d, e) = (duration(0), duration(1));
    unsafe { *CLOCK = 5_000_000_000 };
    for x in [d, e] {
        sset(vm, &[5_000_000 - x as isize, w as isize]);
        call(vm, "(xtime)");
    }
    clear_out(vm);
    call(vm, ".xtime");
    let s = format!("{}|{},{}", name, d.min(e), d.max(e));
    let o = out(vm);
    ck(1, beq(&o, s.as_bytes()) & quiet(vm));
    call(vm, "0xtime");
    clear_out(vm);
    call(vm, ".xtime");
    ck(2, out(vm).is_empty() & quiet(vm));
    reach(1);
}
pub extern "C" fn h_c24_five(vm: *mut VM, arg: u64) {
    history(unsafe { &mut *vm }, 5, arg as usize)
}
