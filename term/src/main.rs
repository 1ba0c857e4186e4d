//! Harness of the interactive program: its own sources, between a stand-in for
//! the terminal and one for the file system.
#![allow(static_mut_refs, dead_code, suspicious_runtime_symbol_definitions, unused_imports)]
#[path = "../../harness/src/sym.rs"]
mod sym;
#[path = "../../harness/src/os.rs"]
mod os;

mod rtf {
    #![allow(warnings)]
    include!("/repo/rtf/src/main.rs");
    pub use self::term::{Error as Stop, Term as Editor};
}

mod c27;

type VM = rtf::VM;
type H = extern "C" fn(*mut VM, u64);

macro_rules! harnesses {
    ($($f:ident),*) => {
        $(
            #[allow(non_snake_case)]
            mod $f {
                #[no_mangle]
                pub extern "C" fn $f(vm: *mut super::VM, arg: u64) { super::c27::$f(vm, arg) }
            }
        )*
        static TABLE: &[(&str, H)] = &[$((stringify!($f), $f::$f as H),)*];
    };
}

harnesses! { h_c27_keys, h_c27_strokes, h_c27_recall, h_c27_session, h_c27_file }

#[no_mangle]
pub extern "C" fn h_init() -> *mut VM {
    // a data space as small as the other harnesses'
    let mut vm = Box::new(VM::new(16));
    if let Some(b) = rtforth::core::Core::output_buffer(&mut *vm).as_mut() {
        b.clear()
    }
    Box::into_raw(vm)
}

#[cfg(not(feature = "native"))]
fn main() {
    // never run: keeps every harness in the program
    let vm = h_init();
    for (_, f) in TABLE {
        f(vm, 0)
    }
}

#[cfg(feature = "native")]
fn main() {
    let path = std::env::args().nth(1).expect("replay file");
    let vm = h_init();
    let (name, arg) = sym::native::load(&path);
    for (n, f) in TABLE {
        if *n == name {
            f(vm, arg);
            sym::native::leave(0, "REPLAY-END");
        }
    }
    sym::native::leave(79, "REPLAY-UNKNOWN-HARNESS");
}

/// The clock stands still.
#[cfg(not(feature = "native"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut libc::timespec) -> i32 {
    (*t).tv_sec = 1000;
    (*t).tv_nsec = 0;
    0
}
