//! Interface to the symbolic executor (`symex`), and its native stand-in that
//! replays one recorded counterexample.

#[cfg(not(feature = "native"))]
extern "C" {
    fn sym_u8() -> u8;
    fn sym_u7() -> u8;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_bool() -> bool;
    fn sym_havoc(p: *mut u8, n: u64);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u32);
    fn sym_choice(n: u64) -> u64;
    fn sym_concretize(x: u64) -> u64;
    fn sym_reach(id: u32);
    fn sym_known(c: bool) -> bool;
    fn sym_big_alloc(n: u64) -> *mut u8;
    fn sym_malloc(n: u64, a: u64) -> *mut u8;
    fn sym_end() -> !;
    fn sym_mark(n: u64);
    fn sym_stuck(id: u32);
    fn sym_print(p: *const u8, n: u64);
    fn sym_printv(x: u64);
    fn free(p: *mut u8);
}

#[cfg(feature = "native")]
use native::*;

/// Any byte.
pub fn any8() -> u8 {
    unsafe { sym_u8() }
}
/// Any 7-bit character.
pub fn any7() -> u8 {
    unsafe { sym_u7() }
}
pub fn any32() -> u32 {
    unsafe { sym_u32() }
}
pub fn any64() -> u64 {
    unsafe { sym_u64() }
}
/// Any cell.
pub fn cell() -> isize {
    unsafe { sym_u64() as isize }
}
/// Any double, bit pattern by bit pattern.
pub fn float() -> f64 {
    f64::from_bits(unsafe { sym_u64() })
}
pub fn flag() -> bool {
    unsafe { sym_bool() }
}
pub fn havoc(p: *mut u8, n: usize) {
    unsafe { sym_havoc(p, n as u64) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// The obligation `id`.
pub fn ck(id: u32, c: bool) {
    unsafe { sym_assert(c, id) }
}
/// One path for each of `0..n`.
pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n as u64) as usize }
}
/// A value of `lo..=hi`, one path each.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choice(hi - lo + 1)
}
pub fn concretize(x: usize) -> usize {
    unsafe { sym_concretize(x as u64) as usize }
}
/// Vacuity witness: some path gets here.
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
/// Whether `c` holds on the face of it, without asking the solver.
pub fn known(c: bool) -> bool {
    unsafe { sym_known(c) }
}
/// Ends this path.
pub fn end() -> ! {
    unsafe { sym_end() }
}
/// Bounds the instructions of a path.
pub fn mark(n: u64) {
    unsafe { sym_mark(n) }
}
/// The harness got somewhere it must not: obligation `id` is violated.
pub fn stuck(id: u32) -> ! {
    unsafe {
        sym_stuck(id);
        sym_end()
    }
}
#[allow(dead_code)]
pub fn print(s: &str) {
    unsafe { sym_print(s.as_ptr(), s.len() as u64) }
}
#[allow(dead_code)]
pub fn printv(x: u64) {
    unsafe { sym_printv(x) }
}

// Large page-aligned blocks (the data space) live at fixed addresses with
// unmapped surroundings, in both builds, so addresses in a counterexample mean
// the same in both.
struct Alloc;

unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 32768 && l.align() >= 4096 {
            return sym_big_alloc(l.size() as u64);
        }
        sym_malloc(l.size() as u64, l.align() as u64)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 32768 && l.align() >= 4096 {
            return sym_big_alloc(l.size() as u64);
        }
        let p = sym_malloc(l.size() as u64, l.align() as u64);
        std::ptr::write_bytes(p, 0, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if l.size() >= 32768 && l.align() >= 4096 {
            return;
        }
        free(p)
    }
}

#[global_allocator]
static A: Alloc = Alloc;

#[cfg(feature = "native")]
pub mod native {
    //! Values come from the replay file named on the command line.
    use std::sync::Mutex;

    pub struct Replay {
        pub vals: std::collections::VecDeque<Item>,
    }
    #[derive(Debug)]
    pub enum Item {
        Val(u32, u64),
        Buf(Vec<(usize, u8)>),
    }
    pub static REPLAY: Mutex<Option<Replay>> = Mutex::new(None);

    /// Leaves at once, without running anything else.
    pub fn leave(code: i32, msg: &str) -> ! {
        let m = format!("{}\n", msg);
        unsafe {
            libc::syscall(libc::SYS_write, 1, m.as_ptr(), m.len());
            libc::syscall(libc::SYS_exit_group, code);
        }
        loop {}
    }

    fn val(bits: u32) -> u64 {
        let mut g = REPLAY.lock().unwrap();
        let r = g.as_mut().unwrap();
        match r.vals.pop_front() {
            Some(Item::Val(b, v)) if b == bits => v,
            // an input after the recorded ones is unconstrained
            None => 0,
            Some(x) => leave(78, &format!("REPLAY-DIVERGED: {:?} for {} bits", x, bits)),
        }
    }
    pub unsafe fn sym_u8() -> u8 {
        val(8) as u8
    }
    pub unsafe fn sym_u7() -> u8 {
        val(7) as u8
    }
    pub unsafe fn sym_u32() -> u32 {
        val(32) as u32
    }
    pub unsafe fn sym_u64() -> u64 {
        val(64)
    }
    pub unsafe fn sym_bool() -> bool {
        val(1) != 0
    }
    pub unsafe fn sym_havoc(p: *mut u8, n: u64) {
        let mut g = REPLAY.lock().unwrap();
        for i in 0..n as usize {
            *p.add(i) = 0;
        }
        match g.as_mut().unwrap().vals.pop_front() {
            Some(Item::Buf(v)) => {
                for (o, b) in v {
                    if o < n as usize {
                        *p.add(o) = b;
                    }
                }
            }
            None => {}
            Some(x) => {
                drop(g);
                leave(78, &format!("REPLAY-DIVERGED: {:?} for a buffer", x))
            }
        }
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            leave(77, "REPLAY-ASSUME-FAILED")
        }
    }
    pub unsafe fn sym_assert(c: bool, id: u32) {
        if !c {
            leave(42, &format!("REPLAY-ASSERT {}", id))
        }
    }
    pub unsafe fn sym_choice(_n: u64) -> u64 {
        val(64)
    }
    pub unsafe fn sym_concretize(x: u64) -> u64 {
        x
    }
    pub unsafe fn sym_reach(_: u32) {}
    pub unsafe fn sym_known(c: bool) -> bool {
        c
    }
    pub unsafe fn sym_mark(_: u64) {}
    pub unsafe fn sym_stuck(id: u32) {
        leave(42, &format!("REPLAY-ASSERT {}", id))
    }
    pub unsafe fn sym_end() -> ! {
        leave(0, "REPLAY-END")
    }
    pub unsafe fn sym_print(_: *const u8, _: u64) {}
    pub unsafe fn sym_printv(_: u64) {}
    static mut BIG: u64 = 0;
    pub unsafe fn sym_big_alloc(n: u64) -> *mut u8 {
        let a = 0x1000_0000_0000u64 + BIG * 0x1000_0000;
        BIG += 1;
        let p = libc::mmap(
            a as *mut libc::c_void,
            n as usize,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        p as *mut u8
    }
    pub unsafe fn sym_malloc(n: u64, a: u64) -> *mut u8 {
        libc::memalign(a.max(16) as usize, n as usize) as *mut u8
    }
    pub unsafe fn free(p: *mut u8) {
        libc::free(p as *mut libc::c_void)
    }

    pub fn load(path: &str) -> (String, u64) {
        let text = std::fs::read_to_string(path).expect("replay file");
        let mut job = (String::new(), 0);
        let mut vals = std::collections::VecDeque::new();
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first() {
                Some(&"job") => job = (w[1].to_string(), w[2].parse().unwrap()),
                Some(&"v") => vals.push_back(Item::Val(
                    w[1].parse().unwrap(),
                    u64::from_str_radix(w[2], 16).unwrap(),
                )),
                Some(&"b") => vals.push_back(Item::Buf(
                    w[3..]
                        .iter()
                        .map(|x| {
                            let (o, b) = x.split_once(':').unwrap();
                            (
                                usize::from_str_radix(o, 16).unwrap(),
                                u8::from_str_radix(b, 16).unwrap(),
                            )
                        })
                        .collect(),
                )),
                _ => {}
            }
        }
        *REPLAY.lock().unwrap() = Some(Replay { vals });
        job
    }
}
