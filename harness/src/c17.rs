//! C17: tasks.
use crate::util::*;

fn with<R>(vm: &mut VM, t: usize, f: impl Fn(&mut VM) -> R) -> R {
    let was = vm.current_task();
    vm.set_current_task(t);
    let r = f(vm);
    vm.set_current_task(was);
    r
}
/// The next task awake after `i`, `i` itself last.
fn next(awake: &[bool], i: usize) -> usize {
    for k in 1..=NUM_TASKS {
        let j = (i + k) % NUM_TASKS;
        if awake[j] {
            return j;
        }
    }
    i
}

/// pause on any set of tasks awake, from any task.
pub extern "C" fn h_c17_pause(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let cur = arg as usize % NUM_TASKS;
    let mut awake = [false; NUM_TASKS];
    let mut any = false;
    for i in 0..NUM_TASKS {
        awake[i] = flag();
        any |= awake[i];
    }
    assume(any);
    // every task has something of its own
    let mut own = vec![];
    for i in 0..NUM_TASKS {
        let x = [cell(), cell(), cell()];
        let f = float();
        with(vm, i, |vm| {
            sset(vm, &[x[0], x[1]]);
            rset(vm, &[x[2]]);
            fset(vm, &[f]);
        });
        vm.set_awake(i, awake[i]);
        own.push((x, f));
    }
    vm.set_current_task(cur);
    let p = xt(vm, "pause");
    let n = if arg < 5 { 1 } else { 6 };
    let mut at = cur;
    for _ in 0..n {
        vm.execute_word(p);
        at = next(&awake, at);
        ck(1, vm.current_task() == at);
        ck(2, quiet(vm));
    }
    for i in 0..NUM_TASKS {
        ck(3, vm.awake(i) == awake[i]);
        let (x, f) = own[i];
        ck(4, with(vm, i, |vm| sis(vm, &[x[0], x[1]]) & ris(vm, &[x[2]]) & fis(vm, &[f])));
    }
    reach(1);
}

/// suspend, resume, activate and me with any number, from any task.
pub extern "C" fn h_c17_number(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let word = ["suspend", "resume", "activate"][arg as usize % 3];
    let cur = choice(NUM_TASKS);
    let mut awake = [false; NUM_TASKS];
    for i in 0..NUM_TASKS {
        awake[i] = flag();
    }
    let mut own = vec![];
    for i in 0..NUM_TASKS {
        let x = [cell(), cell()];
        let f = float();
        with(vm, i, |vm| {
            sset(vm, &[x[0]]);
            rset(vm, &[x[1], 0]);
            fset(vm, &[f]);
        });
        vm.set_awake(i, awake[i]);
        own.push((x, f));
    }
    vm.set_current_task(cur);
    let n = if arg == 2 { 1 + choice(NUM_TASKS) as isize } else { cell() };
    let valid = (n >= 1) & (n <= NUM_TASKS as isize);
    if arg >= 3 {
        // whatever it is, it is not a task
        assume(!valid);
    } else {
        assume(valid);
        assume(n != cur as isize + 1 || word != "activate");
    }
    vm.s_stack().push(n);
    let w = xt(vm, word);
    let ip = 0x1238;
    vm.state().instruction_pointer = ip;
    vm.execute_word(w);
    ck(1, vm.current_task() == cur);
    ck(2, quiet(vm) == valid);
    for i in 0..NUM_TASKS {
        let hit = n == i as isize + 1;
        let (x, f) = own[i];
        let want = match word {
            "suspend" => awake[i] & !hit,
            _ => awake[i] | hit,
        };
        ck(3, vm.awake(i) == want);
        if i == cur {
            if valid {
                ck(4, with(vm, i, |vm| sis(vm, &[x[0]]) & fis(vm, &[f])));
                ck(5, if word == "activate" {
                    // as if returning
                    ris(vm, &[x[1]]) & (vm.state().instruction_pointer == 0)
                } else {
                    ris(vm, &[x[1], 0]) & (vm.state().instruction_pointer == ip)
                });
            } else {
                ck(6, err(vm) == code(INVALID_NUMERIC_ARGUMENT));
            }
        } else if hit && word == "activate" {
            ck(7, with(vm, i, |vm| ris(vm, &[]) & (vm.state().instruction_pointer == ip) & sis(vm, &[x[0]])));
        } else {
            ck(8, with(vm, i, |vm| sis(vm, &[x[0]]) & ris(vm, &[x[1], 0]) & fis(vm, &[f]) & (vm.state().instruction_pointer == 0)));
        }
    }
    if valid {
        vm.s_stack().reset();
        call(vm, "me");
        ck(9, sis(vm, &[cur as isize + 1]));
    }
    reach(1);
}

/// Notes of who ran, in order.
static mut LOG: Vec<(usize, isize)> = vec![];
fn note(vm: &mut VM) {
    let t = vm.current_task();
    let x = vm.s_stack().pop();
    unsafe { LOG.push((t, x)) }
}

const TASKS: &str = "
: sub ( n -- n' ) dup note 1+ >r pause r> ;
: body 0stacks seed begin sub 2 0 do dup note i + pause loop dup note 1.5e pause fdrop 3 xor again ;
: t2 2 activate body ;
: t3 3 activate body ;
: t4 4 activate body ;
: t5 5 activate body ;
: s2 2 suspend ; : s3 3 suspend ; : s4 4 suspend ; : s5 5 suspend ;
: r2 2 resume ; : r3 3 resume ; : r4 4 resume ; : r5 5 resume ;
: op -1 note ;
: p pause op ;
";

/// A task as its program says.
#[derive(Clone, Copy)]
struct Model {
    awake: bool,
    pc: usize,
    n: isize,
}
impl Model {
    /// Runs to its next pause; what it notes.
    fn turn(&mut self) -> isize {
        let seen;
        match self.pc {
            0 => {
                seen = self.n;
                self.n = self.n.wrapping_add(1);
                self.pc = 1;
            }
            1 => {
                seen = self.n;
                self.pc = 2;
            }
            2 => {
                seen = self.n;
                self.n = self.n.wrapping_add(1);
                self.pc = 3;
            }
            3 => {
                seen = self.n;
                self.pc = 4;
            }
            _ => {
                self.n ^= 3;
                seen = self.n;
                self.n = self.n.wrapping_add(1);
                self.pc = 1;
            }
        }
        seen
    }
}

static mut SEEDS: [isize; NUM_TASKS] = [0; NUM_TASKS];
fn seed(vm: &mut VM) {
    let t = vm.current_task();
    vm.s_stack().push(unsafe { SEEDS[t] });
}

fn begin(vm: &mut VM) {
    vm.add_primitive("note", note);
    vm.add_primitive("seed", seed);
    for l in TASKS.lines() {
        good(vm, l, 90);
    }
    unsafe { LOG = vec![] }
    recover(vm);
}

/// The operator's turns: tasks started, suspended, resumed, and pauses.
fn schedule(vm: &mut VM, ops: &[usize]) {
    begin(vm);
    let mut m = [Model { awake: false, pc: 0, n: 0 }; NUM_TASKS];
    let mut want: Vec<(usize, isize)> = vec![];
    for i in 1..NUM_TASKS {
        let x = cell();
        unsafe { SEEDS[i] = x }
    }
    let mine = [cell(), cell()];
    let mut started = [false; NUM_TASKS];
    let mut text = String::from(": main");
    for op in ops {
        let (k, t) = (op / 4, 1 + op % 4);
        match k {
            0 => {
                text.push_str(&format!(" t{}", t + 1));
                m[t].awake = true;
                m[t].pc = 0;
                m[t].n = unsafe { SEEDS[t] };
                started[t] = true;
            }
            1 => {
                text.push_str(&format!(" s{}", t + 1));
                m[t].awake = false;
            }
            2 => {
                if !started[t] {
                    end()
                }
                text.push_str(&format!(" r{}", t + 1));
                m[t].awake = true;
            }
            _ => {
                text.push_str(" p");
                for i in 1..NUM_TASKS {
                    if m[i].awake {
                        let v = m[i].turn();
                        want.push((i, v));
                    }
                }
                want.push((0, -1));
            }
        }
    }
    text.push_str(" ;");
    good(vm, &text, 91);
    sset(vm, &mine);
    call(vm, "main");
    ck(1, quiet(vm) & (vm.current_task() == 0));
    ck(2, sis(vm, &mine));
    let log = unsafe { &LOG };
    ck(3, log.len() == want.len());
    for i in 0..want.len() {
        ck(4, log[i].0 == want[i].0);
        ck(5, log[i].1 == want[i].1);
    }
    for i in 1..NUM_TASKS {
        ck(6, vm.awake(i) == m[i].awake);
        if m[i].pc > 0 {
            let x = m[i];
            let kept = x.pc != 1;
            ck(7, with(vm, i, |vm| if kept { sis(vm, &[x.n]) } else { sis(vm, &[]) }));
            ck(8, with(vm, i, |vm| vm.f_stack().len() == (x.pc == 4) as u8));
        }
    }
    reach(1);
}

/// Sequences of seven operations that start with task `arg`.
pub extern "C" fn h_c17_turns(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let p = 12;
    let a = arg as usize % 4;
    let b = choice(4);
    let x = choice(13);
    let y = choice(13);
    schedule(vm, &[a, b, p, x, p, y, p, p]);
}
/// All four at once, for long.
pub extern "C" fn h_c17_all(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let p = 12;
    let o = [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 1, 3, 0]][arg as usize];
    let x = choice(13);
    schedule(vm, &[o[0], o[1], p, o[2], o[3], p, p, p, p, x, p, p, p, p, p]);
}

const FACILITY: &str = "
variable f
: a1 5 note ;
: user ( k -- ) begin f get 1 note dup 0 ?do pause loop 2 note f release pause again ;
: t2 2 activate 0stacks 1 user ;
: t3 3 activate 0stacks 0 user ;
: t4 4 activate 0stacks 2 user ;
: t5 5 activate 0stacks 3 user ;
: p pause 3 note ;
: s2 2 suspend ; : s3 3 suspend ; : s4 4 suspend ; : s5 5 suspend ;
: r2 2 resume ; : r3 3 resume ; : r4 4 resume ; : r5 5 resume ;
: stolen f release ;
";

/// Users of a facility among suspensions: never two at a time.
pub extern "C" fn h_c17_facility(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    vm.add_primitive("note", note);
    for l in FACILITY.lines() {
        good(vm, l, 90);
    }
    unsafe { LOG = vec![] }
    recover(vm);
    call(vm, "f");
    let f = sget(vm, 0) as usize;
    let ops = ["p p p", "s2 p", "s3 p", "s4 p p", "s5 p", "r2 r3 r4 r5 p", "stolen p", "p"];
    let mut text = String::from(": main t2 t3 p t4 t5 ");
    text.push_str(ops[arg as usize % 8]);
    for _ in 0..3 {
        text.push(' ');
        text.push_str(ops[choice(8)]);
    }
    text.push_str(" r2 r3 r4 r5 p p p p p p p p ;");
    good(vm, &text, 91);
    sset(vm, &[]);
    call(vm, "main");
    ck(1, quiet(vm) & sis(vm, &[]));
    let mut holder = 0;
    let mut uses = [0; NUM_TASKS];
    for (t, e) in unsafe { LOG.iter() } {
        match *e {
            1 => {
                ck(2, holder == 0);
                holder = t + 1;
                uses[*t] += 1;
            }
            2 => {
                ck(3, holder == t + 1);
                holder = 0;
            }
            _ => {}
        }
    }
    ck(4, peek(f) == holder as isize);
    ck(5, uses[1] + uses[2] + uses[3] + uses[4] > 1);
    reach(1);
}

/// get and release on any value, by any task.
pub extern "C" fn h_c17_release(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, "variable f variable g", 90);
    good(vm, ": z 5 activate pause pause 0 f ! nod ;", 90);
    call(vm, "f");
    let f = sget(vm, 0) as usize;
    recover(vm);
    let v = cell();
    let u = cell();
    poke(f, v);
    poke(f + 8, 77);
    let cur = arg as usize % 4;
    if arg < 4 {
        for i in 0..NUM_TASKS {
            vm.set_awake(i, flag());
        }
        vm.set_current_task(cur);
        sset(vm, &[u, f as isize]);
        call(vm, "release");
        let mine = v == cur as isize + 1;
        ck(1, peek(f) == if mine { 0 } else { v });
        ck(2, sis(vm, &[u]) & quiet(vm) & (vm.current_task() == cur));
    } else {
        // the fifth task frees it after a while
        if cur > 0 {
            vm.set_awake(0, false);
            vm.set_awake(cur, true);
            vm.set_current_task(cur);
        }
        call(vm, "z");
        sset(vm, &[u, f as isize]);
        call(vm, "get");
        ck(3, peek(f) == cur as isize + 1);
        ck(4, sis(vm, &[u]) & quiet(vm) & (vm.current_task() == cur));
        // at once if it was free, else when it was freed
        ck(5, with(vm, 4, |vm| vm.state().instruction_pointer != 0));
    }
    ck(6, peek(f + 8) == 77);
    reach(1);
}

static mut CLOCK: *mut u64 = std::ptr::null_mut();
static mut TIMES: Vec<u64> = vec![];
static mut TICKS: usize = 0;
/// Sets the clock to the next reading.
fn tick(_: &mut VM) {
    unsafe {
        TICKS += 1;
        if TICKS < TIMES.len() {
            *CLOCK = TIMES[TICKS]
        }
    }
}

/// ms returns at the first turn when so many milliseconds have gone by.
pub extern "C" fn h_c17_ms(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    vm.add_primitive("note", note);
    vm.add_primitive("tick", tick);
    good(vm, "variable n", 90);
    good(vm, ": w 2 activate 0stacks 66 n @ ms note nod ;", 90);
    good(vm, ": main w pause tick pause tick pause tick pause tick pause tick pause ;", 90);
    recover(vm);
    call(vm, "n");
    let a = sget(vm, 0) as usize;
    recover(vm);
    let c = clock(vm);
    let n = cell();
    poke(a, n);
    // milliseconds, and a part of one
    let mut ms: Vec<u64> = vec![];
    let mut times = vec![];
    let mut t: u64 = if arg == 0 { 0 } else { 1 << 40 };
    for i in 0..6 {
        let d = if i == 0 { 0 } else { any8() as u64 };
        t += d;
        ms.push(t);
        times.push(t * 1_000_000 + [0, 999_999, 1, 500_000, 999_999, 0][i]);
    }
    unsafe {
        LOG = vec![];
        CLOCK = c;
        *c = times[0];
        TIMES = times;
        TICKS = 0;
    }
    call(vm, "main");
    ck(1, quiet(vm) & sis(vm, &[]) & (vm.current_task() == 0));
    // the waits that are over at turn i
    let mut at = 6;
    for i in (0..6).rev() {
        if (ms[i] - ms[0]) as isize >= n {
            at = i;
        }
    }
    let done = unsafe { LOG.len() };
    ck(2, done == (at < 6) as usize);
    if done > 0 {
        ck(3, unsafe { LOG[0].0 == 1 && LOG[0].1 == 66 });
    }
    reach(1);
}

const STOPS: &str = "
: b2 2 activate 0stacks seed begin dup note 1+ stop again ;
: b3 3 activate 0stacks seed begin dup note 1+ pause dup note 1+ stop again ;
: b4 4 activate 0stacks seed begin dup note 1+ pause again ;
: h2 2 halt ; : h3 3 halt ; : h4 4 halt ;
: s2 2 suspend ; : s3 3 suspend ; : s4 4 suspend ;
: r2 2 resume ; : r3 3 resume ; : r4 4 resume ;
: p pause -1 note ;
";

/// stop sleeps until resumed, halt for good.
pub extern "C" fn h_c17_stop(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    vm.add_primitive("note", note);
    vm.add_primitive("seed", seed);
    for l in STOPS.lines() {
        good(vm, l, 90);
    }
    recover(vm);
    for i in 1..4 {
        unsafe { SEEDS[i] = cell() }
    }
    unsafe { LOG = vec![] }
    // what each task does next: asleep, its place, or idle
    let mut awake = [false; 4];
    let mut place = [9; 4];
    let mut n = [0isize; 4];
    let mut want = vec![];
    let mut text = String::from(": main b2 b3 b4");
    let mut ops = vec![0, 1, 2];
    ops.push(12);
    ops.push(arg as usize);
    ops.push(12);
    ops.push(choice(13));
    ops.push(12);
    ops.push(choice(13));
    ops.push(12);
    ops.push(12);
    for (k, op) in ops.iter().enumerate() {
        let t = 1 + op % 3;
        if k >= 3 {
            text.push_str(&match op / 3 {
                0 => format!(" b{}", t + 1),
                1 => format!(" s{}", t + 1),
                2 => format!(" r{}", t + 1),
                3 => format!(" h{}", t + 1),
                _ => " p".to_string(),
            });
        }
        match op / 3 {
            0 => {
                awake[t] = true;
                place[t] = 0;
                n[t] = unsafe { SEEDS[t] };
            }
            1 => awake[t] = false,
            2 => awake[t] = true,
            3 => {
                awake[t] = true;
                place[t] = 9;
            }
            _ => {
                for t in 1..4 {
                    if awake[t] && place[t] != 9 {
                        want.push((t, n[t]));
                        n[t] = n[t].wrapping_add(1);
                        match t {
                            1 => awake[1] = false,
                            2 => {
                                place[2] ^= 1;
                                if place[2] == 0 {
                                    awake[2] = false
                                }
                            }
                            _ => {}
                        }
                    }
                }
                want.push((0, -1));
            }
        }
    }
    text.push_str(" ;");
    good(vm, &text, 91);
    call(vm, "main");
    ck(1, quiet(vm) & sis(vm, &[]) & (vm.current_task() == 0));
    let log = unsafe { &LOG };
    ck(2, log.len() == want.len());
    for i in 0..want.len() {
        ck(3, log[i].0 == want[i].0);
        ck(4, log[i].1 == want[i].1);
    }
    for t in 1..4 {
        ck(5, vm.awake(t) == awake[t]);
    }
    reach(1);
}
