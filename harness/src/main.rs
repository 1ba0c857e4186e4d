#![allow(static_mut_refs, dead_code, suspicious_runtime_symbol_definitions)]
mod sym;
#[macro_use]
mod util;
mod os;
use util::VM;

type H = extern "C" fn(*mut VM, u64);

macro_rules! harnesses {
    ($($m:ident: $($f:ident),* ;)*) => {
        $(mod $m;)*
        // exported names for the executor
        $($(
            #[allow(non_snake_case)]
            mod $f {
                #[no_mangle]
                pub extern "C" fn $f(vm: *mut super::VM, arg: u64) { super::$m::$f(vm, arg) }
            }
        )*)*
        static TABLE: &[(&str, H)] = &[$($((stringify!($f), $f::$f as H),)*)*];
    };
}

harnesses! {
    c02: h_c02_bin, h_c02_un, h_c02_within;
    c03: h_c03_s, h_c03_misc, h_c03_r, h_c03_rdef, h_c03_f;
    c04: h_c04_generic, h_c04_word, h_c04_fword, h_c04_nest;
    c21: h_c21_un, h_c21_bin, h_c21_misc, h_c21_bits;
    c25: h_c25;
    c26: h_c26_arith, h_c26_allot, h_c26_xt, h_c26_field;
    c06: h_c06_base, h_c06_case, h_c06_new, h_c06_scene, h_c06_tick;
    c10: h_c10_four, h_c10_five, h_c10_edit;
    c23: h_c23_three, h_c23_four, h_c23_five, h_c23_fix, h_c23_num;
    c07: h_c07_two, h_c07_three, h_c07_name, h_c07_buckets;
    c11: h_c11_any, h_c11_long, h_c11_char, h_c11_eval;
    c12: h_c12_any, h_c12_form, h_c12_long, h_c12_eval;
    c13: h_c13_dot_r, h_c13_dot, h_c13_question, h_c13_hex, h_c13_dot_s, h_c13_base, h_c13_switch;
    c14: h_c14_tokens, h_c14_ops, h_c14_char, h_c14_line, h_c14_long;
    c22: h_c22_s, h_c22_dot, h_c22_paren, h_c22_line, h_c22_emit, h_c22_type, h_c22_word, h_c22_long;
    c15: h_c15_pair, h_c15_chain, h_c15_forms, h_c15_lit, h_c15_only, h_c15_flags, h_c15_own;
    c16: h_c16_three, h_c16_same, h_c16_defer, h_c16_does, h_c16_noname;
    c18: h_c18_line, h_c18_words, h_c18_reset, h_c18_pending, h_c18_handler, h_c18_session, h_c18_multi;
    c01: h_c01_word, h_c01_full, h_c01_endless, h_c01_file, h_c01_naked;
    c24: h_c24_clock, h_c24_three, h_c24_four, h_c24_five, h_c24_xtime, h_c24_word;
    c17: h_c17_pause, h_c17_number, h_c17_turns, h_c17_all, h_c17_facility, h_c17_release, h_c17_ms, h_c17_stop;
    c19: h_c19_id, h_c19_move, h_c19_name, h_c19_three, h_c19_four, h_c19_work, h_c19_fault, h_c19_tasks;
    c20: h_c20_lines, h_c20_ends, h_c20_long, h_c20_fault, h_c20_four, h_c20_six, h_c20_number, h_c20_include, h_c20_pieces, h_c20_deep, h_c20_again, h_c20_report;
    c28: h_c28_words, h_c28_word, h_c28_addresses, h_c28_calls, h_c28_deep, h_c28_memory, h_c28_dump, h_c28_input, h_c28_limits;
    c08: h_c08_one, h_c08_two, h_c08_three, h_c08_four, h_c08_seq, h_c08_many, h_c08_ladder;
    c09: h_c09_one, h_c09_nest, h_c09_leave;
    c05: h_c05_prim, h_c05_move, h_c05_move_bad, h_c05_fill, h_c05_fill_bad, h_c05_comp, h_c05_comma, h_c05_full;
}

#[no_mangle]
pub extern "C" fn h_init() -> *mut VM {
    let mut vm = Box::new(VM::new());
    if let Some(b) = util::Core::output_buffer(&mut *vm).as_mut() {
        b.clear()
    }
    Box::into_raw(vm)
}

#[cfg(not(feature = "native"))]
fn main() {
    // never run: keeps every harness in the program
    let vm = h_init();
    for (_, f) in TABLE {
        f(vm, 0)
    }
}

#[cfg(feature = "native")]
fn main() {
    let path = std::env::args().nth(1).expect("replay file");
    let vm = h_init();
    let (name, arg) = sym::native::load(&path);
    for (n, f) in TABLE {
        if *n == name {
            f(vm, arg);
            sym::native::leave(0, "REPLAY-END");
        }
    }
    sym::native::leave(79, "REPLAY-UNKNOWN-HARNESS");
}
