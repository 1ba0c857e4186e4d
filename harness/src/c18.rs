//! C18: raising, reporting and recovering from errors.
use crate::util::*;
use rtforth::exception;

static mut HITS: u32 = 0;
static mut SEEN: isize = 0;
static mut DEPTHS: (u8, u8, u8) = (0, 0, 0);

/// An error handler that takes notes.
fn note(vm: &mut VM) {
    unsafe {
        HITS += 1;
        SEEN = err(vm);
        DEPTHS = (vm.s_stack().len(), vm.f_stack().len(), vm.c_stack().len());
    }
    vm.bye();
}
static mut VALUE: [isize; 4] = [0; 4];
static mut FVALUE: f64 = 0.0;
static mut KEPT: (u32, isize) = (0, 0);
/// Words with an arbitrary value.
fn any0(vm: &mut VM) {
    vm.s_stack().push(unsafe { VALUE[0] })
}
fn any1(vm: &mut VM) {
    vm.s_stack().push(unsafe { VALUE[1] })
}
fn anyf(vm: &mut VM) {
    vm.f_stack().push(unsafe { FVALUE })
}
fn keep(vm: &mut VM) {
    let x = vm.s_stack().pop();
    unsafe {
        KEPT.0 += 1;
        KEPT.1 = x;
    }
}
fn prepare(vm: &mut VM) {
    vm.add_primitive("note", note);
    vm.add_primitive("any0", any0);
    vm.add_primitive("any1", any1);
    vm.add_primitive("anyf", anyf);
    vm.add_primitive("keep", keep);
    unsafe {
        HITS = 0;
        SEEN = 0;
        KEPT = (0, 0);
        VALUE = [cell(), cell(), cell(), cell()];
        FVALUE = float();
        // no values that look like the fill pattern beyond a stack's end
        assume((VALUE[0] != 0) & (VALUE[0] != 0x12345678));
        assume(FVALUE + 1.234567890 != 1.234567890);
    }
}

/// Ways to an error: the text, its exception, the token it is found at, and
/// whether a definition is left behind unfinished.
const BAD: [(&str, Exception, &str); 40] = [
    ("any0 0 / ", DIVISION_BY_ZERO, "/"),
    ("any0 0 mod ", DIVISION_BY_ZERO, "mod"),
    ("any0 0 /mod ", DIVISION_BY_ZERO, "/mod"),
    (": t 0 / ; any1 any0 t ", DIVISION_BY_ZERO, "t"),
    (": t 0 / ; : u 5 t 1 keep ; any1 any0 u ", DIVISION_BY_ZERO, "u"),
    ("drop ", STACK_UNDERFLOW, "drop"),
    ("any0 + ", STACK_UNDERFLOW, "+"),
    (": t swap ; any0 t ", STACK_UNDERFLOW, "t"),
    ("fdrop ", FLOATING_POINT_STACK_UNDERFLOW, "fdrop"),
    ("anyf f+ ", FLOATING_POINT_STACK_UNDERFLOW, "f+"),
    ("any0 anyf nosuchword ", UNDEFINED_WORD, "nosuchword"),
    ("any0 12x ", UNDEFINED_WORD, "12x"),
    (": t any0 nosuch ", UNDEFINED_WORD, "nosuch"),
    (": t if nosuch ", UNDEFINED_WORD, "nosuch"),
    ("any0 if ", INTERPRETING_A_COMPILE_ONLY_WORD, "if"),
    ("anyf exit ", INTERPRETING_A_COMPILE_ONLY_WORD, "exit"),
    (": t if ; ", CONTROL_STRUCTURE_MISMATCH, ";"),
    (": t then ", CONTROL_STRUCTURE_MISMATCH, "then"),
    (": t begin until then ", CONTROL_STRUCTURE_MISMATCH, "then"),
    (": t case endof ", CONTROL_STRUCTURE_MISMATCH, "endof"),
    ("any0 abort ", ABORT, "abort"),
    (": t any0 abort ; t ", ABORT, "t"),
    ("' nosuch ", UNDEFINED_WORD, "nosuch"),
    (": t ['] nosuch ", UNDEFINED_WORD, "nosuch"),
    (": t postpone nosuch ", UNDEFINED_WORD, "nosuch"),
    ("-1 @ ", INVALID_MEMORY_ADDRESS, "@"),
    ("any0 -1 ! ", INVALID_MEMORY_ADDRESS, "!"),
    ("0 c@ ", INVALID_MEMORY_ADDRESS, "c@"),
    ("any0 0 c! ", INVALID_MEMORY_ADDRESS, "c!"),
    ("0 f@ ", INVALID_MEMORY_ADDRESS, "f@"),
    ("anyf 0 f! ", INVALID_MEMORY_ADDRESS, "f!"),
    ("here 8 - 0 8 move ", INVALID_MEMORY_ADDRESS, "move"),
    ("9999 execute ", UNSUPPORTED_OPERATION, "execute"),
    ("-1 execute ", UNSUPPORTED_OPERATION, "execute"),
    ("-1 >body ", INVALID_NUMERIC_ARGUMENT, ">body"),
    ("9999 >name ", INVALID_NUMERIC_ARGUMENT, ">name"),
    ("6 suspend ", INVALID_NUMERIC_ARGUMENT, "suspend"),
    ("0 resume ", INVALID_NUMERIC_ARGUMENT, "resume"),
    (": t 99 activate ; t ", INVALID_NUMERIC_ARGUMENT, "t"),
    (": t 5000 label ", INVALID_NUMERIC_ARGUMENT, "label"),
];

/// Through the interpreter of the library.
pub extern "C" fn h_c18_line(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    prepare(vm);
    let h = xt(vm, "note");
    vm.set_handler(h);
    let n = choice(10) + 10 * arg as usize;
    let (bad, e, token) = BAD[n];
    let before = choice(3);
    let line = [["", "any1 anyf drop fdrop ", ": q 1 ; 65 emit "][before], bad, "66 emit 7 keep : x nosuch2 ; "].concat();
    clear_out(vm);
    eval(vm, &line);
    unsafe {
        ck(1, (HITS == 1) & (SEEN == code(e)) & (err(vm) == code(e)));
        ck(2, (DEPTHS.0 == 0) & (DEPTHS.1 == 0) & (DEPTHS.2 == 0));
        ck(3, KEPT.0 == 0);
    }
    ck(4, (vm.s_stack().len() == 0) & (vm.f_stack().len() == 0) & (vm.c_stack().len() == 0));
    let o = out(vm);
    ck(5, if before == 2 { o == b"A" } else { o.is_empty() });
    // the token it happened at
    let t = vm.last_token().clone();
    ck(6, t.map(|t| t == token).unwrap_or(false));
    clear_out(vm);
    let h = vm.find(".error").unwrap();
    vm.execute_word(h);
    ck(7, out(vm) == exception::description(e).as_bytes());
    // afterwards all is well again
    vm.reset();
    ck(8, vm.last_error().is_none() & !vm.state().is_compiling);
    ck(9, (vm.r_stack().len() == 0) & (vm.state().source_index == 0));
    good(vm, "any0 : q2 1+ ; q2 keep error", 10);
    unsafe {
        ck(11, (KEPT.0 == 1) & (KEPT.1 == VALUE[0].wrapping_add(1)));
        ck(12, HITS == 1);
    }
    ck(13, sis(vm, &[0]));
    reach(1);
}

/// The words about errors.
pub extern "C" fn h_c18_words(vm: *mut VM, _: u64) {
    let vm = unsafe { &mut *vm };
    prepare(vm);
    let h = xt(vm, "note");
    vm.set_handler(h);
    let n = choice(ALL.len());
    let e = ALL[n];
    let (x, y, f) = (cell(), cell(), float());
    sset(vm, &[x, y]);
    fset(vm, &[f]);
    vm.abort_with(e);
    unsafe { ck(1, (HITS == 1) & (SEEN == code(e))) }
    ck(2, (vm.s_stack().len() == 0) & (vm.f_stack().len() == 0) & (vm.c_stack().len() == 0));
    ck(3, err(vm) == code(e));
    ck(4, code(e) == -(n as isize) - 1);
    for _ in 0..2 {
        sset(vm, &[x]);
        fset(vm, &[f]);
        clear_out(vm);
        call(vm, "error");
        ck(5, sis(vm, &[x, code(e)]) & fis(vm, &[f]) & (err(vm) == code(e)));
        sset(vm, &[x]);
        call(vm, ".error");
        ck(6, sis(vm, &[x]) & fis(vm, &[f]) & (err(vm) == code(e)));
        ck(7, beq(&out(vm), exception::description(e).as_bytes()));
    }
    // no two of them read alike, only the two ABORTs do
    let m = choice(ALL.len());
    let (a, b) = (exception::description(e), exception::description(ALL[m]));
    ck(8, !a.is_empty());
    ck(9, m == n || n + m == 1 || a != b);
    call(vm, "0error");
    ck(10, vm.last_error().is_none() & sis(vm, &[x]) & fis(vm, &[f]));
    clear_out(vm);
    call(vm, ".error");
    call(vm, "error");
    ck(11, out(vm).is_empty() & sis(vm, &[x, 0]));
    unsafe { ck(12, HITS == 1) }
    reach(1);
}
const ALL: [Exception; 58] = [
    ABORT,
    ABORT_QUOTE,
    STACK_OVERFLOW,
    STACK_UNDERFLOW,
    RETURN_STACK_OVERFLOW,
    RETURN_STACK_UNDERFLOW,
    DO_LOOP_NESTED_TOO_DEEPLY,
    DICTIONARY_OVERFLOW,
    INVALID_MEMORY_ADDRESS,
    DIVISION_BY_ZERO,
    RESULT_OUT_OF_RANGE,
    ARGUMENT_TYPE_MISMATCH,
    UNDEFINED_WORD,
    INTERPRETING_A_COMPILE_ONLY_WORD,
    INVALID_FORGET,
    ATTEMPT_TO_USE_ZERO_LENGTH_STRING,
    PICTURED_NUMERIC_OUTPUT_STRING_OVERFLOW,
    PARSED_STRING_OVERFLOW,
    DEFINITION_NAME_TOO_LONG,
    WRITE_TO_A_READ_ONLY_LOCATION,
    UNSUPPORTED_OPERATION,
    CONTROL_STRUCTURE_MISMATCH,
    ADDRESS_ALIGNMENT_EXCEPTION,
    INVALID_NUMERIC_ARGUMENT,
    RETURN_STACK_IMBALANCE,
    LOOP_PARAMETERS_UNAVAILABLE,
    INVALID_RECURSION,
    USER_INTERRUPT,
    COMPILER_NESTING,
    OBSOLESCENT_FEATURE,
    TO_BODY_USED_ON_NON_CREATED_DEFINITION,
    INVALID_NAME_ARGUMENT,
    BLOCK_READ_EXCEPTION,
    BLOCK_WRITE_EXCEPTION,
    INVALID_BLOCK_NUMBER,
    INVALID_FILE_POSITION,
    FILE_IO_EXCEPTION,
    NON_EXISTENT_FILE,
    UNEXPECTED_END_OF_FILE,
    INVALID_BASE_FOR_FLOATING_POINT_CONVERSION,
    LOSS_OF_PRECISION,
    FLOATING_POINT_DIVIDED_BY_ZERO,
    FLOATING_POINT_RESULT_OUT_OF_RANGE,
    FLOATING_POINT_STACK_OVERFLOW,
    FLOATING_POINT_STACK_UNDERFLOW,
    FLOATING_POINT_INVALID_ARGUMENT,
    COMPILATION_WORD_LIST_DELETED,
    INVALID_POSTPONE,
    SEARCH_ORDER_OVERFLOW,
    SEARCH_ORDER_UNDERFLOW,
    COMPILATION_WORD_LIST_CHANGED,
    CONTROL_FLOW_STACK_OVERFLOW,
    EXCEPTION_STACK_OVERFLOW,
    FLOATING_POINT_UNDERFLOW,
    FLOATING_POINT_UNIDENTIFIED_FAULT,
    QUIT,
    EXCEPTION_IN_SENDING_OR_RECEIVING_A_CHARACTER,
    BRACKET_IF_ELSE_OR_THEN_EXCEPTION,
];

/// reset, 0stacks, abort with anything on the stacks.
pub extern "C" fn h_c18_reset(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    prepare(vm);
    let h = xt(vm, "note");
    vm.set_handler(h);
    let compiling = flag();
    if compiling {
        good(vm, ": t begin if case", 80);
    }
    let n = [0, 1, 7, 64][choice(4)];
    let m = [0, 1, 63][choice(3)];
    let mut v = vec![];
    let mut w = vec![];
    for _ in 0..n {
        v.push(cell());
    }
    for _ in 0..m {
        w.push(float());
    }
    sset(vm, &v);
    fset(vm, &w);
    rset(vm, &[cell(), cell()]);
    let c = vm.c_stack().len();
    match arg {
        0 => {
            vm.set_error(Some(QUIT));
            call(vm, "reset");
            // the data is left alone
            ck(1, sis(vm, &v) & fis(vm, &w));
            ck(2, vm.last_error().is_none() & (vm.state().source_id == 0) & (vm.state().source_index == 0));
            ck(3, vm.r_stack().is_empty() & !vm.state().is_compiling);
            ck(4, vm.input_buffer().as_ref().map(|b| b.is_empty()).unwrap_or(false));
        }
        1 => {
            call(vm, "0stacks");
            ck(1, vm.s_stack().is_empty() & vm.f_stack().is_empty() & vm.c_stack().is_empty());
            ck(2, vm.last_error().is_none() & (vm.state().is_compiling == compiling));
        }
        _ => {
            call(vm, "abort");
            ck(1, vm.s_stack().is_empty() & vm.f_stack().is_empty() & vm.c_stack().is_empty());
            ck(2, err(vm) == code(ABORT));
            unsafe { ck(3, (HITS == 1) & (SEEN == -1)) }
        }
    }
    let _ = c;
    unsafe { ck(5, arg == 2 || HITS == 0) }
    // no trace of the stacks' contents is taken for an overflow
    vm.reset();
    vm.clear_stacks();
    good(vm, "any0 : t2 1+ ; t2", 6);
    unsafe { ck(7, sis(vm, &[VALUE[0].wrapping_add(1)])) }
    reach(1);
}

/// A second error, while the first is still recorded.
pub extern "C" fn h_c18_pending(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    prepare(vm);
    let h = xt(vm, "note");
    vm.set_handler(h);
    let first = ALL[choice(ALL.len())];
    let (x, y, f) = (cell(), cell(), float());
    sset(vm, &[x, y]);
    fset(vm, &[f]);
    if arg == 0 {
        vm.set_error(Some(first));
    } else {
        vm.abort_with(first);
        unsafe {
            ck(1, (HITS == 1) & (SEEN == code(first)));
            HITS = 0;
        }
        sset(vm, &[x, y]);
        fset(vm, &[f]);
    }
    let (word, top, e) = [
        ("abort", 0, ABORT),
        ("/", 0, DIVISION_BY_ZERO),
        ("@", -1, INVALID_MEMORY_ADDRESS),
        ("execute", 9999, UNSUPPORTED_OPERATION),
        ("suspend", 77, INVALID_NUMERIC_ARGUMENT),
        ("quit?", 0, QUIT),
    ][choice(6)];
    vm.s_stack().push(top);
    if e == QUIT {
        vm.abort_with(e);
    } else {
        call(vm, word);
    }
    unsafe { ck(2, (HITS == 1) & (SEEN == code(e))) }
    unsafe { ck(3, (DEPTHS.0 == 0) & (DEPTHS.1 == 0) & (DEPTHS.2 == 0)) }
    ck(4, err(vm) == code(e));
    ck(5, vm.s_stack().is_empty() & vm.f_stack().is_empty() & vm.c_stack().is_empty());
    recover(vm);
    good(vm, "any0 : t2 1+ ; t2", 6);
    unsafe { ck(7, sis(vm, &[VALUE[0].wrapping_add(1)])) }
    reach(1);
}

/// Any token at all as handler.
pub extern "C" fn h_c18_handler(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    prepare(vm);
    good(vm, ": t 0 / 9 keep ; : gone ;", 80);
    let x = cell();
    match arg {
        0 => {
            // no such word
            assume((x as usize) >= vm.wordlist().len());
            sset(vm, &[x]);
        }
        1 => {
            // a handler that fails itself
            let w = ["abort", "lshift", "if", "postpone", "bye", "]", "0stacks", "error", "reset", "0error"][choice(10)];
            let v = xt(vm, w);
            sset(vm, &[v as isize]);
        }
        _ => {
            // a word since forgotten
            good(vm, "marker m : h 1 keep bye ; ' h m", 81);
            ck(1, vm.s_stack().len() == 1);
        }
    }
    good(vm, "handler!", 2);
    ck(3, vm.s_stack().is_empty());
    eval(vm, "any0 nosuchword 8 keep");
    recover(vm);
    eval(vm, "any0 -1 @ 8 keep");
    recover(vm);
    unsafe { ck(4, KEPT.0 == 0 || arg == 1) }
    // and with a proper one again
    let h = xt(vm, "note");
    sset(vm, &[h as isize]);
    good(vm, "handler!", 5);
    unsafe { HITS = 0 }
    eval(vm, "any0 5 t 9 keep");
    unsafe { ck(6, (HITS == 1) & (SEEN == code(DIVISION_BY_ZERO)) & (arg == 1 || KEPT.0 == 0)) }
    recover(vm);
    good(vm, "any1", 7);
    unsafe { ck(8, sis(vm, &[VALUE[1]])) }
    reach(1);
}

// -- The interactive program: its own rtf.fth, with lines from a list --

static mut LINES: Vec<String> = Vec::new();
static mut NEXT: usize = 0;
static mut LOG: Vec<u8> = Vec::new();

pub fn receive(vm: &mut VM) {
    unsafe {
        if NEXT < LINES.len() {
            let l = LINES[NEXT].clone();
            NEXT += 1;
            vm.set_source(&l);
        } else {
            vm.bye();
        }
    }
}
/// What is flushed to the terminal.
pub fn flush(vm: &mut VM) {
    let o = out(vm);
    clear_out(vm);
    unsafe { LOG.extend_from_slice(&o) }
}
pub fn session(vm: &mut VM, lines: &[&str]) -> Vec<u8> {
    let fth = include_str!("/repo/rtf/rtf.fth");
    vm.load_str(fth);
    ck(90, vm.last_error().is_none());
    clear_out(vm);
    unsafe {
        LINES = lines.iter().map(|s| s.to_string()).collect();
        NEXT = 0;
        LOG = vec![];
    }
    recover(vm);
    let cold = xt(vm, "cold");
    vm.state().instruction_pointer = 0;
    vm.execute_word(cold);
    vm.run();
    unsafe { LOG.clone() }
}
fn starts(s: &[u8], at: usize, w: &[u8]) -> bool {
    at + w.len() <= s.len() && beq(&s[at..at + w.len()], w)
}
pub fn count(s: &[u8], w: &[u8]) -> usize {
    let mut n = 0;
    for i in 0..s.len() {
        if starts(s, i, w) {
            n += 1
        }
    }
    n
}

/// An error in a line of the interactive program.
pub extern "C" fn h_c18_session(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    // rtf.fth starts by forgetting what comes after core.fth
    let f = include_str!("/repo/rtf/rtf.fth");
    ck(91, f.len() > 100);
    good(vm, "-work", 92);
    prepare(vm);
    vm.add_primitive("receive", receive);
    vm.add_primitive("flush-output", flush);
    good(vm, "marker -work", 93);
    let n = choice(10) + 10 * arg as usize;
    let (bad, e, token) = BAD[n];
    let first = [bad, "8 keep 64 emit"].concat();
    let o = session(vm, &["any1 keep", &first, "any0 : q 1+ ; q keep 63 emit", "error keep"]);
    let d = exception::description(e).as_bytes();
    // first line
    ck(1, starts(&o, 0, b"  ok\r"));
    // the line in error: told once, with the token, nothing behind it done
    let mut want = b" ".to_vec();
    if e != ABORT {
        want.extend_from_slice(token.as_bytes());
        want.push(b' ');
        want.extend_from_slice(d);
        want.extend_from_slice(b", backtrace: ");
    }
    ck(2, starts(&o, 5, &want));
    ck(3, e == ABORT || count(&o, d) == 1);
    ck(4, count(&o, b"@") == if token == "@" || token == "c@" || token == "f@" { count(&o[..5 + want.len()], b"@") + count(&o[5 + want.len()..], b"@") } else { 0 });
    // then two fine lines
    let tail = b" ? ok\r  ok\r";
    ck(5, o.len() > tail.len() && starts(&o, o.len() - tail.len(), tail));
    ck(6, count(&o, b" ok\r") == 3);
    unsafe {
        ck(7, KEPT.0 == 3);
        ck(8, KEPT.1 == 0);
        ck(9, NEXT == 4);
    }
    ck(10, vm.s_stack().is_empty() & vm.f_stack().is_empty() & vm.last_error().is_none());
    reach(1);
}

/// An error in the middle of a definition of several lines.
pub extern "C" fn h_c18_multi(vm: *mut VM, _: u64) {
    let vm = unsafe { &mut *vm };
    good(vm, "-work", 92);
    prepare(vm);
    vm.add_primitive("receive", receive);
    vm.add_primitive("flush-output", flush);
    good(vm, "marker -work", 93);
    let n = choice(5);
    let bad = ["nosuch", "then", "[ 5 0 / ]", "[ drop ]", "repeat"][n];
    let what = ["Undefined word", "Control structure mismatch", "Division by zero", "Stack underflow", "Control structure mismatch"][n];
    let o = session(vm, &[": tt 1", "2 if begin", bad, "3 ; tt keep", ": tt any0 ;", "tt keep"]);
    ck(1, starts(&o, 0, b" \r \r "));
    ck(2, count(&o, what.as_bytes()) == 1);
    // `; tt keep`: nothing is being compiled any more
    ck(3, count(&o, b"; Interpreting a compile only word") == 1);
    let tail = b"  ok\r  ok\r";
    ck(4, starts(&o, o.len() - tail.len(), tail) & (count(&o, b" ok") == 2));
    unsafe {
        ck(5, (KEPT.0 == 1) & (KEPT.1 == VALUE[0]));
    }
    reach(1);
}
