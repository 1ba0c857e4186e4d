//! The symbolic executor: one path at a time, depth first, forking on symbolic
//! decisions. A fork is made by cloning the state as it was before the current
//! instruction and adding the opposite decision to its path condition; the
//! clone executes the instruction again.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub fid: u32,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: u32,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
    pub smark: usize,
    pub spmark: u64,
}

#[derive(Clone, Debug)]
pub enum Input {
    Val(Ex, u32),
    Buf(u32, u64, u64), // array, length, address
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<Ex>,
    pub implied: Vec<Ex>,
    pub model: Rc<RefCell<Model>>,
    pub inputs: Vec<Input>,
    pub steps: u64,
    pub trace: Vec<u64>,
    pub bounds: HashMap<Ex, (u64, u64)>,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Infeasible,
    Violation { kind: String, key: String },
    Limit(String),
    Unknown(String),
    Error(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Body,
    Nop,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    SAddSat,
    SSubSat,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Bswap,
    BitRev,
    Ucmp,
    Scmp,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Expect,
    IsConst,
    FpToSiSat,
    FpToUiSat,
    Fabs,
    FCeil,
    FFloor,
    FRound,
    FTrunc,
    FRint,
    FSqrt,
    FMax,
    FMin,
    FCopysign,
    Fma,
    Uf(u32),
    Tls,
    Trap,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    PosixMemalign,
    Free,
    Sysconf,
    Zero,
    Errno,
    Syscall,
    SWrite,
    Getenv,
    // harness intrinsics
    SymVal(u32),
    SymHavoc,
    SymAssume,
    SymAssert,
    SymChoice,
    SymConc,
    SymReach,
    SymKnown,
    SymIsEngine,
    SymPrint,
    SymPrintV,
    SymBig,
    SymMalloc,
    SymEnd,
    SymMark,
    SymStuck,
    SymNote,
    Unknown,
}

pub struct Exec {
    pub m: Module,
    kinds: Vec<K>,
    pub solver: Solver,
    pub work: Vec<State>,
    pub violations: BTreeMap<String, String>, // key -> replay record
    pub paths: u64,
    pub infeasible: u64,
    pub obligations: u64,
    pub trivially: u64,
    pub reached: BTreeMap<u64, u64>,
    pub inconclusive: Vec<String>,
    pub insts: u64,
    pub forks: u64,
    pub covered: HashSet<u32>,
    pub max_steps: u64,
    pub max_depth: usize,
    pub deadline: Option<Instant>,
    pub errno_addr: u64,
    pub verbose: bool,
    pub notes: HashMap<u64, u64>,
    pub fork_sites: HashMap<(u32, u32, u32), u64>,
    pub err_report: Vec<String>,
    pub samples: Vec<String>,
    pub name: String,
}

fn classify(d: &FnDecl) -> K {
    let n = d.name.as_str();
    let p = d.pretty.as_str();
    if let Some(r) = n.strip_prefix("llvm.") {
        let base: Vec<&str> = r.split('.').collect();
        let b2 = base.get(1).cloned().unwrap_or("");
        return match base[0] {
            "lifetime" | "experimental" | "assume" | "dbg" | "prefetch" | "donothing" => K::Nop,
            "invariant" => K::Nop,
            "memcpy" | "memmove" => K::Memcpy,
            "memset" => K::Memset,
            "umax" => K::UMax,
            "umin" => K::UMin,
            "smax" => K::SMax,
            "smin" => K::SMin,
            "usub" if b2 == "sat" => K::USubSat,
            "uadd" if b2 == "sat" => K::UAddSat,
            "sadd" if b2 == "sat" => K::SAddSat,
            "ssub" if b2 == "sat" => K::SSubSat,
            "uadd" => K::UAddO,
            "usub" => K::USubO,
            "umul" => K::UMulO,
            "sadd" => K::SAddO,
            "ssub" => K::SSubO,
            "smul" => K::SMulO,
            "abs" => K::Abs,
            "ctlz" => K::Ctlz,
            "cttz" => K::Cttz,
            "ctpop" => K::Ctpop,
            "fshl" => K::Fshl,
            "fshr" => K::Fshr,
            "bswap" => K::Bswap,
            "bitreverse" => K::BitRev,
            "ucmp" => K::Ucmp,
            "scmp" => K::Scmp,
            "expect" => K::Expect,
            "is" => K::IsConst,
            "fptosi" => K::FpToSiSat,
            "fptoui" => K::FpToUiSat,
            "fabs" => K::Fabs,
            "ceil" => K::FCeil,
            "floor" => K::FFloor,
            "round" => K::FRound,
            "trunc" => K::FTrunc,
            "rint" | "nearbyint" | "roundeven" => K::FRint,
            "sqrt" => K::FSqrt,
            "maximumnum" | "maxnum" => K::FMax,
            "minimumnum" | "minnum" => K::FMin,
            "copysign" => K::FCopysign,
            "fma" => K::Fma,
            "sin" => K::Uf(0),
            "cos" => K::Uf(1),
            "tan" => K::Uf(2),
            "asin" => K::Uf(3),
            "acos" => K::Uf(4),
            "atan" => K::Uf(5),
            "atan2" => K::Uf(6),
            "pow" => K::Uf(7),
            "powi" => K::Uf(8),
            "exp" => K::Uf(9),
            "log" => K::Uf(10),
            "threadlocal" => K::Tls,
            "trap" | "ubsantrap" => K::Trap,
            "x86" => K::Nop,
            _ => K::Unknown,
        };
    }
    if n.starts_with("sym_") {
        return match n {
            "sym_u8" => K::SymVal(8),
            "sym_u16" => K::SymVal(16),
            "sym_u32" => K::SymVal(32),
            "sym_u64" => K::SymVal(64),
            "sym_u7" => K::SymVal(7),
            "sym_bool" => K::SymVal(1),
            "sym_havoc" => K::SymHavoc,
            "sym_assume" => K::SymAssume,
            "sym_assert" => K::SymAssert,
            "sym_choice" => K::SymChoice,
            "sym_concretize" => K::SymConc,
            "sym_reach" => K::SymReach,
            "sym_known" => K::SymKnown,
            "sym_is_engine" => K::SymIsEngine,
            "sym_print" => K::SymPrint,
            "sym_printv" => K::SymPrintV,
            "sym_big_alloc" => K::SymBig,
            "sym_malloc" => K::SymMalloc,
            "sym_end" => K::SymEnd,
            "sym_mark" => K::SymMark,
            "sym_stuck" => K::SymStuck,
            "sym_note" => K::SymNote,
            "sym_errno_location" => K::Errno,
            _ => K::Unknown,
        };
    }
    if p.starts_with("core::panicking::")
        || p.starts_with("core::option::unwrap_failed")
        || p.starts_with("core::option::expect_failed")
        || p.starts_with("core::result::unwrap_failed")
        || p.starts_with("core::cell::panic_")
        || p.starts_with("core::slice::index::slice_")
        || p.starts_with("core::slice::copy_from_slice_impl::len_mismatch")
        || p.starts_with("core::str::slice_error_fail")
        || p.starts_with("alloc::raw_vec::handle_error")
        || p.starts_with("alloc::raw_vec::capacity_overflow")
        || p.starts_with("alloc::alloc::handle_alloc_error")
        || p.starts_with("std::panicking::")
        || p.contains("rust_begin_unwind")
        || p.starts_with("std::process::abort")
        || p.starts_with("std::process::exit")
    {
        if !(p.contains("panic_count") || p.contains("panicking::panicking")) {
            return K::Panic;
        }
    }
    if d.body.is_some() {
        return K::Body;
    }
    match n {
        "bcmp" => K::Bcmp,
        "memcmp" => K::Memcmp,
        "memcpy" | "memmove" => K::Memcpy,
        "strlen" => K::Strlen,
        "malloc" => K::Malloc,
        "calloc" => K::Calloc,
        "realloc" => K::Realloc,
        "posix_memalign" => K::PosixMemalign,
        "free" => K::Free,
        "abort" | "exit" | "_exit" => K::Panic,
        "sysconf" => K::Sysconf,
        "__errno_location" => K::Errno,
        "syscall" => K::Syscall,
        "write" | "writev" => K::SWrite,
        "getenv" => K::Getenv,
        "poll" | "sigaction" | "signal" | "pthread_key_create" | "pthread_setspecific" | "sigaltstack"
        | "pthread_self" | "munmap" | "mprotect" | "pthread_key_delete" | "close" => K::Zero,
        "sin" => K::Uf(0),
        "cos" => K::Uf(1),
        "tan" => K::Uf(2),
        "asin" => K::Uf(3),
        "acos" => K::Uf(4),
        "atan" => K::Uf(5),
        "atan2" => K::Uf(6),
        "pow" => K::Uf(7),
        "exp" => K::Uf(9),
        "log" => K::Uf(10),
        _ => K::Unknown,
    }
}

fn ex_of(v: &V, w: u32) -> Ex {
    to_ex(v, w as u8)
}

type R<T> = Result<T, End>;

fn is_nan_ex(e: Ex) -> Ex {
    let m = bin(Op::And, e, konst(0x7fff_ffff_ffff_ffff, 64));
    ult(konst(0x7ff0_0000_0000_0000, 64), m)
}
fn is_zero_f(e: Ex) -> Ex {
    eq(extract(e, 0, 63), konst(0, 63))
}
fn fkey(e: Ex) -> Ex {
    // order-preserving map of non-NaN doubles to unsigned integers
    let s = extract(e, 63, 1);
    ite(s, bin(Op::Xor, e, konst(u64::MAX as u128, 64)), bin(Op::Xor, e, konst(1u128 << 63, 64)))
}
pub fn feq_ex(a: Ex, b: Ex) -> Ex {
    let ok = and1(not1(is_nan_ex(a)), not1(is_nan_ex(b)));
    and1(ok, or1(eq(a, b), and1(is_zero_f(a), is_zero_f(b))))
}
pub fn flt_ex(a: Ex, b: Ex) -> Ex {
    let ok = and1(not1(is_nan_ex(a)), not1(is_nan_ex(b)));
    let zz = and1(is_zero_f(a), is_zero_f(b));
    and1(ok, and1(not1(zz), ult(fkey(a), fkey(b))))
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        let kinds = m.fns.iter().map(classify).collect();
        Exec {
            m,
            kinds,
            solver: Solver::new(),
            work: vec![],
            violations: BTreeMap::new(),
            paths: 0,
            infeasible: 0,
            obligations: 0,
            trivially: 0,
            reached: BTreeMap::new(),
            inconclusive: vec![],
            insts: 0,
            forks: 0,
            covered: HashSet::new(),
            max_steps: 200_000_000,
            max_depth: 1500,
            deadline: None,
            errno_addr: 0,
            verbose: false,
            notes: HashMap::new(),
            fork_sites: HashMap::new(),
            err_report: vec![],
            samples: vec![],
            name: String::new(),
        }
    }

    pub fn initial_mem(&mut self) -> Mem {
        let mut consts = Table::default();
        let mut globs = Table::default();
        for g in &self.m.globals {
            if g.external {
                continue;
            }
            let b = self.m.global_bytes(g);
            if g.constant {
                consts.push(Obj::with_bytes(g.addr, Kind::Const, &b));
            } else {
                globs.push(Obj::with_bytes(g.addr, Kind::Global, &b));
            }
        }
        // errno
        let last = self.m.globals.iter().map(|g| g.addr + g.size).filter(|&a| a >= GLOB_BASE).max().unwrap_or(GLOB_BASE);
        self.errno_addr = (last + 63) / 16 * 16;
        globs.push(Obj::new(self.errno_addr, 16, Kind::Global));
        Mem {
            consts: Rc::new(consts),
            globs,
            stack: Table::default(),
            heap: Table::default(),
            big: Table::default(),
            sp: STACK_BASE + 0x1000,
            hp: HEAP_BASE + 0x1000,
        }
    }

    pub fn start_state(&mut self, fname: &str, args: Vec<V>, mem: Mem) -> State {
        let id = *self.m.fn_by_name.get(fname).unwrap_or_else(|| panic!("no function {}", fname));
        let f = self.m.func(id);
        let mut regs = vec![V::C(0); f.nregs];
        for (i, a) in args.into_iter().enumerate() {
            regs[i] = a;
        }
        let smark = mem.stack.len;
        let spmark = mem.sp;
        State {
            top: Frame { f, fid: id, regs, blk: 0, ip: 0, ret: None, normal: None, smark, spmark },
            frames: vec![],
            mem,
            pc: vec![],
            implied: vec![],
            model: Rc::new(RefCell::new(Model::default())),
            inputs: vec![],
            steps: 0,
            trace: vec![],
            bounds: HashMap::new(),
        }
    }

    // ------------------------------------------------------------ decisions

    fn clone_at(&mut self, st: &State) -> State {
        self.forks += 1;
        if self.verbose {
            *self.fork_sites.entry((st.top.fid, st.top.blk, st.top.ip)).or_default() += 1;
        }
        st.clone()
    }

    pub fn force(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(k) = is_const(c) {
            return Ok(k == 1);
        }
        let nc = not1(c);
        for &x in st.pc.iter().rev().chain(st.implied.iter().rev()) {
            if x == c {
                return Ok(true);
            }
            if x == nc {
                return Ok(false);
            }
        }
        let t = st.model.borrow_mut().eval(c) == 1;
        let (want, other) = if t { (c, nc) } else { (nc, c) };
        let r = self.solver.check_from(&st.pc, other, &st.model.borrow());
        match r {
            Res::Unsat => st.implied.push(want),
            Res::Sat(m) => {
                let mut o = self.clone_at(st);
                o.pc.push(other);
                o.model = Rc::new(RefCell::new(m));
                self.work.push(o);
                st.pc.push(want);
            }
            Res::Unknown => {
                self.inconclusive.push(format!("undecided branch at {}", self.where_is(st)));
                st.pc.push(want);
            }
        }
        Ok(t)
    }

    /// Give `e` one concrete value on this path; other values are forked off.
    pub fn concretize(&mut self, st: &mut State, e: Ex) -> R<u128> {
        if let Some(k) = is_const(e) {
            return Ok(k);
        }
        let v = st.model.borrow_mut().eval(e);
        let c = eq(e, konst(v, w(e)));
        if self.force(st, c)? {
            Ok(v)
        } else {
            Err(End::Error("concretize".into()))
        }
    }

    /// Whether `c` holds on every continuation of this path.
    fn must(&mut self, st: &State, c: Ex) -> Option<bool> {
        if let Some(k) = is_const(c) {
            return Some(k == 1);
        }
        if st.pc.contains(&c) || st.implied.contains(&c) {
            return Some(true);
        }
        if st.model.borrow_mut().eval(c) == 0 {
            return Some(false);
        }
        let r = self.solver.check_from(&st.pc, not1(c), &st.model.borrow());
        match r {
            Res::Unsat => Some(true),
            Res::Sat(_) => Some(false),
            Res::Unknown => None,
        }
    }

    /// Bounds of `e` on this path (solver assisted, cached).
    fn bounds(&mut self, st: &mut State, e: Ex, max: u64) -> (u64, u64) {
        let (mut l, mut h) = (lo(e) as u64, (hi(e).min(max as u128)) as u64);
        if l == h || h - l < 16 {
            return (l, h);
        }
        if let Some(&b) = st.bounds.get(&e) {
            return b;
        }
        let cur = st.model.borrow_mut().eval(e) as u64;
        // upper bound: smallest h with pc => e <= h
        let mut a = cur;
        let mut b = h;
        while a < b {
            let mid = a + (b - a) / 2;
            match self.must(st, not1(ult(konst(mid as u128, w(e)), e))) {
                Some(true) => b = mid,
                _ => a = mid + 1,
            }
        }
        h = b;
        let mut a = l;
        let mut b = cur;
        while a < b {
            let mid = a + (b - a + 1) / 2;
            match self.must(st, not1(ult(e, konst(mid as u128, w(e))))) {
                Some(true) => a = mid,
                _ => b = mid - 1,
            }
        }
        l = a;
        st.bounds.insert(e, (l, h));
        (l, h)
    }

    fn viol<T>(&self, kind: &str, key: String) -> R<T> {
        Err(End::Violation { kind: kind.to_string(), key })
    }

    // -------------------------------------------------------------- memory

    fn oob<T>(&self, st: &State, what: &str, a: u64, n: u64) -> R<T> {
        let _ = a;
        self.viol(
            "memory",
            format!("{} of {} bytes outside every live object, in {}", what, n, self.where_is(st)),
        )
    }

    /// Resolve an access of n bytes.
    fn resolve(&mut self, st: &mut State, addr: &V, n: u64, write: bool) -> R<(Loc, Ex, u64, u64)> {
        let what = if write { "write" } else { "read" };
        match addr {
            V::C(a) => {
                let a = *a as u64;
                match st.mem.find(a) {
                    Some(l) => {
                        let o = st.mem.get(l);
                        if a - o.base + n > o.size || o.kind == Kind::Freed || (write && o.kind == Kind::Const) {
                            return self.oob(st, what, a, n);
                        }
                        let off = a - o.base;
                        Ok((l, konst(off as u128, 64), off, off))
                    }
                    None => self.oob(st, what, a, n),
                }
            }
            V::S(e) => {
                let a = st.model.borrow_mut().eval(*e) as u64;
                let l = match st.mem.find(a) {
                    Some(l) => l,
                    None => return self.oob(st, what, a, n),
                };
                let (base, size, kind) = {
                    let o = st.mem.get(l);
                    (o.base, o.size, o.kind)
                };
                if a - base + n > size || kind == Kind::Freed || (write && kind == Kind::Const) {
                    return self.oob(st, what, a, n);
                }
                let off = sub(*e, konst(base as u128, 64));
                let inb = ult(off, konst((size - n + 1) as u128, 64));
                if !self.force(st, inb)? {
                    return Err(End::Error("resolve".into()));
                }
                let (lo_, hi_) = if size >= 2048 && (hi(off) > (size - n) as u128 || hi(off) - lo(off) > 64) {
                    self.bounds(st, off, size - n)
                } else {
                    ((lo(off) as u64).min(size - n), (hi(off).min((size - n) as u128)) as u64)
                };
                if lo_ == hi_ {
                    return Ok((l, konst(lo_ as u128, 64), lo_, hi_));
                }
                Ok((l, off, lo_, hi_))
            }
            V::A(_) => Err(End::Error("aggregate address".into())),
        }
    }

    pub fn read(&mut self, st: &mut State, addr: &V, n: usize) -> R<V> {
        if let V::C(a) = addr {
            let a = *a as u64;
            if let Some(l) = st.mem.find(a) {
                let o = st.mem.get(l);
                if a - o.base + n as u64 <= o.size && o.kind != Kind::Freed {
                    return Ok(o.read(a - o.base, n));
                }
            }
            return self.oob(st, "read", a, n as u64);
        }
        let (l, off, lo_, hi_) = self.resolve(st, addr, n as u64, false)?;
        if lo_ == hi_ {
            return Ok(st.mem.get(l).read(lo_, n));
        }
        let tz = trailing(off);
        let stride = 1u64 << tz.min(6);
        let first = (lo_ + stride - 1) / stride * stride;
        let count = if hi_ < first { 0 } else { (hi_ - first) / stride + 1 };
        let (is_logged, size) = {
            let o = st.mem.get(l);
            (o.logged || !o.log.is_empty(), o.size)
        };
        let _ = size;
        if count <= 1024 && !is_logged {
            let o = st.mem.get(l);
            // runs of equal values
            let mut runs: Vec<(u64, Ex)> = vec![];
            let mut p = first;
            while p <= hi_ {
                let v = o.read(p, n);
                let e = to_ex(&v, (n * 8) as u8);
                if runs.last().map(|r| r.1 != e).unwrap_or(true) {
                    runs.push((p, e));
                }
                p += stride;
            }
            return Ok(from_ex(tree(off, &runs)));
        }
        // a choice among a few places: one path each
        if few(off, 100).is_some() {
            let k = self.concretize(st, off)? as u64;
            if k + n as u64 <= st.mem.get(l).size {
                return Ok(st.mem.get(l).read(k, n));
            }
        }
        // array
        let arr = st.mem.get_mut(l).map(|o| o.snapshot());
        let arr = match arr {
            Some(a) => a,
            None => {
                let c = Rc::make_mut(&mut st.mem.consts);
                c.get_mut(l.1).snapshot()
            }
        };
        let o = st.mem.get(l);
        let mut e = 0;
        for k in (0..n as u64).rev() {
            let ok = add(off, konst(k as u128, 64));
            let b = if o.log.is_empty() {
                sel(arr, ok)
            } else {
                o.log_byte(ok, lo_ + k, hi_ + k, o.log.len(), &mut |x| sel(arr, x))
            };
            e = if e == 0 { b } else { concat(e, b) };
        }
        Ok(from_ex(resimplify(e)))
    }

    pub fn write(&mut self, st: &mut State, addr: &V, n: usize, v: &V) -> R<()> {
        if let V::C(a) = addr {
            let a = *a as u64;
            if let Some(l) = st.mem.find(a) {
                let (base, size, kind) = {
                    let o = st.mem.get(l);
                    (o.base, o.size, o.kind)
                };
                if a - base + n as u64 <= size && kind != Kind::Freed && kind != Kind::Const {
                    st.mem.get_mut(l).unwrap().write(a - base, n, v);
                    return Ok(());
                }
            }
            return self.oob(st, "write", a, n as u64);
        }
        let e = to_ex(v, (n * 8) as u8);
        let bytes: Vec<Ex> = (0..n).map(|k| extract_raw(e, 8 * k as u8, 8)).collect();
        self.write_bytes(st, addr, bytes)
    }

    fn write_bytes(&mut self, st: &mut State, addr: &V, bytes: Vec<Ex>) -> R<()> {
        let n = bytes.len() as u64;
        if n == 0 {
            return Ok(());
        }
        let (l, off, lo_, hi_) = self.resolve(st, addr, n, true)?;
        let o = st.mem.get_mut(l).unwrap();
        if lo_ == hi_ {
            if o.logged || !o.log.is_empty() {
                o.log_write(konst(lo_ as u128, 64), lo_, lo_, bytes);
            } else {
                for (k, b) in bytes.iter().enumerate() {
                    o.write_base_byte(lo_ + k as u64, *b);
                }
            }
            return Ok(());
        }
        let tz = trailing(off);
        let stride = 1u64 << tz.min(6);
        let first = (lo_ + stride - 1) / stride * stride;
        let count = if hi_ < first { 0 } else { (hi_ - first) / stride + 1 };
        if count * n <= 2048 && !o.logged && o.log.is_empty() {
            let mut p = first;
            // each candidate position is updated under its own condition
            let old: Vec<Ex> = (first..hi_ + n).map(|i| o.base_byte(i)).collect();
            let mut new = old.clone();
            while p <= hi_ {
                let c = eq(off, konst(p as u128, 64));
                for k in 0..n {
                    let i = (p + k - first) as usize;
                    new[i] = ite(c, bytes[k as usize], new[i]);
                }
                p += stride;
            }
            for (i, (&x, &y)) in new.iter().zip(old.iter()).enumerate() {
                if x != y {
                    o.write_base_byte(first + i as u64, x);
                }
            }
        } else {
            o.log_write(off, lo_, hi_, bytes);
        }
        Ok(())
    }

    fn load_ty(&mut self, st: &mut State, addr: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(n) => {
                let sz = ty.store_size() as usize;
                let v = self.read(st, addr, sz)?;
                if *n as usize == sz * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    V::C(k) => V::C(k & mask(*n as u8)),
                    V::S(e) => from_ex(extract(e, 0, *n as u8)),
                    v => v,
                })
            }
            Ty::Ptr | Ty::F64 => self.read(st, addr, 8),
            Ty::F32 => self.read(st, addr, 4),
            Ty::Struct(f, _) => {
                let mut out = vec![];
                for (i, t) in f.iter().enumerate() {
                    let a = self.addoff(addr, ty.field_off(i));
                    out.push(self.load_ty(st, &a, t)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Arr(n, t) => {
                let mut out = vec![];
                for i in 0..*n {
                    let a = self.addoff(addr, i * t.size());
                    out.push(self.load_ty(st, &a, t)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Vec(n, t) => {
                let mut out = vec![];
                for i in 0..*n {
                    let a = self.addoff(addr, i as u64 * t.size());
                    out.push(self.load_ty(st, &a, t)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Err(End::Error(format!("load {:?}", ty))),
        }
    }

    fn store_ty(&mut self, st: &mut State, addr: &V, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(n) => {
                let sz = ty.store_size() as usize;
                if *n as usize == sz * 8 {
                    return self.write(st, addr, sz, v);
                }
                let v = match v {
                    V::S(e) => from_ex(zext(*e, (sz * 8) as u8)),
                    v => v.clone(),
                };
                self.write(st, addr, sz, &v)
            }
            Ty::Ptr | Ty::F64 => self.write(st, addr, 8, v),
            Ty::F32 => self.write(st, addr, 4, v),
            Ty::Struct(f, _) => {
                if let V::A(vs) = v {
                    for (i, t) in f.iter().enumerate() {
                        let a = self.addoff(addr, ty.field_off(i));
                        self.store_ty(st, &a, t, &vs[i])?;
                    }
                }
                Ok(())
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        let a = self.addoff(addr, i as u64 * t.size());
                        self.store_ty(st, &a, t, x)?;
                    }
                }
                Ok(())
            }
            _ => Err(End::Error(format!("store {:?}", ty))),
        }
    }

    fn addoff(&self, a: &V, k: u64) -> V {
        match a {
            V::C(x) => V::C(((*x as u64).wrapping_add(k)) as u128),
            V::S(e) => from_ex(add(*e, konst(k as u128, 64))),
            _ => panic!(),
        }
    }

    pub fn mem_copy(&mut self, st: &mut State, d: &V, s: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if let (V::C(d), V::C(s)) = (d, s) {
            let (d, s) = (*d as u64, *s as u64);
            let (sl, so) = match st.mem.find(s) {
                Some(l) => {
                    let o = st.mem.get(l);
                    if s - o.base + n > o.size || o.kind == Kind::Freed {
                        return self.oob(st, "read", s, n);
                    }
                    (l, s - o.base)
                }
                None => return self.oob(st, "read", s, n),
            };
            let (dl, dof, dlog) = match st.mem.find(d) {
                Some(l) => {
                    let o = st.mem.get(l);
                    if d - o.base + n > o.size || o.kind == Kind::Freed || o.kind == Kind::Const {
                        return self.oob(st, "write", d, n);
                    }
                    (l, d - o.base, o.logged || !o.log.is_empty())
                }
                None => return self.oob(st, "write", d, n),
            };
            let src = st.mem.get(sl);
            if src.log.is_empty() && !dlog {
                // byte by byte, concrete fast path in small groups
                let mut i = 0;
                let mut tmp: Vec<(u64, usize, V)> = vec![];
                while i < n {
                    let m = (n - i).min(16) as usize;
                    tmp.push((i, m, src.read_group(so + i, m)));
                    i += m as u64;
                }
                let dst = st.mem.get_mut(dl).unwrap();
                for (i, m, v) in tmp {
                    match &v {
                        V::A(b) => {
                            for (k, x) in b.iter().enumerate() {
                                dst.write_base_byte(dof + i + k as u64, to_ex(x, 8));
                            }
                        }
                        v => dst.write(dof + i, m, v),
                    }
                }
                return Ok(());
            }
            let bytes: Vec<Ex> = (0..n).map(|i| src.byte_at(so + i)).collect();
            let dst = st.mem.get_mut(dl).unwrap();
            if dlog {
                dst.log_write(konst(dof as u128, 64), dof, dof, bytes);
            } else {
                for (k, b) in bytes.iter().enumerate() {
                    dst.write_base_byte(dof + k as u64, *b);
                }
            }
            return Ok(());
        }
        // symbolic address: read all bytes, then write all bytes
        self.resolve(st, s, n, false)?;
        self.resolve(st, d, n, true)?;
        let mut bytes = vec![];
        for i in 0..n {
            let a = self.addoff(s, i);
            let v = self.read(st, &a, 1)?;
            bytes.push(to_ex(&v, 8));
        }
        self.write_bytes(st, d, bytes)
    }

    pub fn conc_str(&mut self, st: &mut State, a: u64, n: u64) -> String {
        let mut s = String::new();
        for i in 0..n {
            match self.read(st, &V::C((a + i) as u128), 1) {
                Ok(V::C(k)) => s.push(k as u8 as char),
                Ok(V::S(e)) => {
                    let k = st.model.borrow_mut().eval(e);
                    s.push(k as u8 as char)
                }
                _ => break,
            }
        }
        s
    }

    // ------------------------------------------------------------ reporting

    pub fn where_is(&self, st: &State) -> String {
        // innermost frame that belongs to the code under check or the harness
        let nm = |f: &Frame| -> String {
            if f.f.pretty.is_empty() {
                f.f.name.clone()
            } else {
                f.f.pretty.clone()
            }
        };
        let mut r = nm(&st.top);
        if !(r.contains("rtforth")) {
            for f in st.frames.iter().rev() {
                let n = nm(f);
                if n.contains("rtforth") {
                    r = format!("{} (via {})", n, r);
                    break;
                }
            }
        }
        r
    }

    pub fn stack_trace(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let nm = |f: &Frame| -> String {
            let n = if f.f.pretty.is_empty() { f.f.name.clone() } else { f.f.pretty.clone() };
            n
        };
        v.push(nm(&st.top));
        for f in st.frames.iter().rev().take(30) {
            v.push(nm(f));
        }
        v
    }

    fn panic_key(&mut self, st: &mut State, fid: u32, args: &[V]) -> String {
        let pretty = self.m.fns[fid as usize].pretty.clone();
        // the Location is the last pointer argument
        let mut loc = String::new();
        if let Some(V::C(p)) = args.last() {
            let p = *p as u64;
            if p >= CONST_BASE && p < GLOB_BASE {
                let f = self.read(st, &V::C(p as u128), 8);
                let n = self.read(st, &V::C((p + 8) as u128), 8);
                let l = self.read(st, &V::C((p + 16) as u128), 4);
                if let (Ok(V::C(f)), Ok(V::C(n)), Ok(V::C(l))) = (f, n, l) {
                    if n < 400 {
                        let s = self.conc_str(st, f as u64, n as u64);
                        let _ = l;
                        loc = s;
                    }
                }
            }
        }
        let short = loc.trim_end_matches('\0').rsplit("/src/").next().unwrap_or("").to_string();
        format!("{} [{}] in {}", pretty, short, self.where_is(st))
    }

    /// Concrete values of the recorded inputs under a model.
    pub fn replay_text(&self, st: &State, m: &mut Model) -> String {
        let mut s = String::new();
        for i in &st.inputs {
            match i {
                Input::Val(e, wd) => {
                    let v = m.eval(*e);
                    s.push_str(&format!("v {} {:x}\n", wd, v));
                }
                Input::Buf(a, n, _) => {
                    let mut cells: Vec<(u64, u128)> =
                        m.sels.iter().filter(|(k, v)| k.0 == *a && **v != 0 && k.1 < *n).map(|(k, v)| (k.1, *v)).collect();
                    cells.sort();
                    s.push_str(&format!("b {} {}", n, cells.len()));
                    for (i, v) in cells {
                        s.push_str(&format!(" {:x}:{:x}", i, v));
                    }
                    s.push('\n');
                }
            }
        }
        s
    }

    pub fn record_violation(&mut self, st: &State, m: &mut Model, kind: &str, key: &str) {
        let k = format!("{}|{}", kind, key);
        if self.violations.contains_key(&k) {
            return;
        }
        let mut t = self.replay_text(st, m);
        for l in self.stack_trace(st) {
            t.push_str(&format!("# {}\n", l));
        }
        self.violations.insert(k, t);
    }

    // ------------------------------------------------------------- running

    /// A model of the path condition with varied values wherever the path
    /// condition leaves them free: witnesses for native replay.
    fn lively_model(&mut self, st: &State) -> Model {
        let base = st.model.borrow();
        let mut support: HashSet<Ex> = HashSet::new();
        let mut stack: Vec<Ex> = st.pc.clone();
        while let Some(e) = stack.pop() {
            if support.insert(e) {
                stack.extend(kids(node(e)));
            }
        }
        let mut x: u64 = 0x9e3779b97f4a7c15 ^ (self.paths.wrapping_mul(0xd1b54a32d192ed03));
        let mut rnd = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        for round in 0..12 {
            let mut m = Model { vars: base.vars.clone(), sels: base.sels.clone(), ufs: base.ufs.clone(), ..Default::default() };
            for i in &st.inputs {
                if let Input::Val(e, w) = i {
                    let n = node(*e);
                    if n.op != Op::Var || (round >= 8 && support.contains(e)) {
                        continue;
                    }
                    let r = rnd();
                    let v = match r % 5 {
                        0 => (rnd() % 20) as u128,
                        1 => (0u64.wrapping_sub(rnd() % 20)) as u128,
                        2 => ((1u64 << (rnd() % 64)) ^ (rnd() & 1)) as u128,
                        3 => (0x4000_0000_0000_0000u64 ^ (rnd() >> 4)) as u128,
                        _ => rnd() as u128,
                    };
                    m.vars.insert(n.k as u32, v & if *w >= 128 { u128::MAX } else { (1u128 << *w) - 1 });
                }
            }
            if st.pc.iter().all(|&c| m.eval(c) == 1) {
                return m;
            }
        }
        Model { vars: base.vars.clone(), sels: base.sels.clone(), ufs: base.ufs.clone(), ..Default::default() }
    }

    pub fn finish(&mut self, mut st: State, e: End) {
        match e {
            End::Done => {
                self.paths += 1;
                if self.samples.len() < 3 && !st.inputs.is_empty() {
                    let mut m = self.lively_model(&st);
                    let t = self.replay_text(&st, &mut m);
                    self.samples.push(t);
                }
            }
            End::Infeasible => self.infeasible += 1,
            End::Violation { kind, key } => {
                self.paths += 1;
                let m = st.model.clone();
                self.record_violation(&st, &mut m.borrow_mut(), &kind, &key);
            }
            End::Limit(s) => self.inconclusive.push(format!("limit: {} in {}", s, self.where_is(&st))),
            End::Unknown(s) => self.inconclusive.push(s),
            End::Error(s) => {
                let tr = self.stack_trace(&st).join(" < ");
                self.inconclusive.push(format!("engine: {} in {}", s, tr));
            }
        }
        st.frames.clear();
    }

    pub fn run_path(&mut self, st: &mut State) -> End {
        loop {
            match self.step_many(st) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }

    fn opnd(st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.top.regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }

    fn goto(&mut self, st: &mut State, b: u32) {
        let from = st.top.blk;
        let f = st.top.f;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, src) = &blk.phis[0];
                for (p, o) in src {
                    if *p == from {
                        let v = Self::opnd(st, o);
                        st.top.regs[*d as usize] = v;
                        break;
                    }
                }
            } else {
                let mut vals = Vec::with_capacity(blk.phis.len());
                for (_, src) in &blk.phis {
                    let mut v = V::C(0);
                    for (p, o) in src {
                        if *p == from {
                            v = Self::opnd(st, o);
                            break;
                        }
                    }
                    vals.push(v);
                }
                for ((d, _), v) in blk.phis.iter().zip(vals) {
                    st.top.regs[*d as usize] = v;
                }
            }
        }
        st.top.blk = b;
        st.top.ip = 0;
    }

    fn step_many(&mut self, st: &mut State) -> R<()> {
        if let Some(d) = self.deadline {
            if Instant::now() > d {
                return Err(End::Limit("time".into()));
            }
        }
        for _ in 0..20000 {
            st.steps += 1;
            self.insts += 1;
            let f: &'static Func = st.top.f;
            let inst = &f.blocks[st.top.blk as usize].code[st.top.ip as usize];
            match inst {
                I::Br(b) => self.goto(st, *b),
                I::CondBr(c, a, b) => {
                    let v = Self::opnd(st, c);
                    let t = match v {
                        V::C(k) => k & 1 == 1,
                        V::S(e) => self.force(st, e)?,
                        _ => return Err(End::Error("branch on aggregate".into())),
                    };
                    self.goto(st, if t { *a } else { *b });
                }
                I::Switch(v, wd, def, cases) => {
                    let v = Self::opnd(st, v);
                    let mut dest = *def;
                    match v {
                        V::C(k) => {
                            for (c, b) in cases.iter() {
                                if *c == k {
                                    dest = *b;
                                    break;
                                }
                            }
                        }
                        V::S(e) => {
                            // the case the current model takes is tried first
                            let cur = st.model.borrow_mut().eval(e);
                            // cases that lead to the same place are one
                            let mut groups: Vec<(u32, Ex, bool)> = vec![];
                            for (k, b) in cases.iter() {
                                if *b == *def {
                                    continue;
                                }
                                let c = eq(e, konst(*k, *wd as u8));
                                match groups.iter_mut().find(|g| g.0 == *b) {
                                    Some(g) => {
                                        g.1 = or1(g.1, c);
                                        g.2 |= *k == cur;
                                    }
                                    None => groups.push((*b, c, *k == cur)),
                                }
                            }
                            if let Some(p) = groups.iter().position(|g| g.2) {
                                groups.swap(0, p);
                            }
                            for (b, c, _) in groups {
                                if self.force(st, c)? {
                                    dest = b;
                                    break;
                                }
                            }
                        }
                        _ => return Err(End::Error("switch".into())),
                    }
                    self.goto(st, dest);
                }
                I::Ret(v) => {
                    let v = v.as_ref().map(|o| Self::opnd(st, o));
                    if st.frames.is_empty() {
                        if let Some(v) = v {
                            st.top.regs = vec![v];
                        }
                        return Err(End::Done);
                    }
                    st.mem.stack.truncate(st.top.smark);
                    st.mem.sp = st.top.spmark;
                    let ret = st.top.ret;
                    let normal = st.top.normal;
                    let fr = st.frames.pop().unwrap();
                    st.top = match Rc::try_unwrap(fr) {
                        Ok(f) => f,
                        Err(r) => (*r).clone(),
                    };
                    if let (Some(d), Some(v)) = (ret, v) {
                        st.top.regs[d as usize] = v;
                    }
                    match normal {
                        Some(b) => self.goto(st, b),
                        None => st.top.ip += 1,
                    }
                }
                I::Unreachable => {
                    let key = format!("unreachable reached in {}", self.where_is(st));
                    return self.viol("panic", key);
                }
                I::Call { d, callee, args, ret, normal } => {
                    self.call(st, *d, callee, args, ret, *normal)?;
                }
                _ => {
                    self.simple(st, inst)?;
                    st.top.ip += 1;
                }
            }
        }
        if st.steps > self.max_steps {
            return Err(End::Limit("instructions".into()));
        }
        Ok(())
    }

    fn advance(&mut self, st: &mut State, d: Option<u32>, v: Option<V>, normal: Option<u32>) {
        if let (Some(d), Some(v)) = (d, v) {
            st.top.regs[d as usize] = v;
        }
        match normal {
            Some(b) => self.goto(st, b),
            None => st.top.ip += 1,
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        d: Option<u32>,
        callee: &Callee,
        args: &[(O, Ty)],
        ret: &Ty,
        normal: Option<u32>,
    ) -> R<()> {
        let fid = match callee {
            Callee::Fn(f) => *f,
            Callee::Asm(t) => {
                if t.contains("cpuid") {
                    return Err(End::Error("cpuid".into()));
                }
                self.advance(st, None, None, normal);
                return Ok(());
            }
            Callee::Reg(o) => {
                let v = Self::opnd(st, o);
                let a = match v {
                    V::C(k) => k as u64,
                    V::S(e) => self.concretize(st, e)? as u64,
                    _ => return Err(End::Error("callee".into())),
                };
                let idx = (a.wrapping_sub(FN_BASE)) / 16;
                if a < FN_BASE || a % 16 != 0 || idx == 0 || idx > self.m.fns.len() as u64 {
                    let key = format!("call of a non-function address in {}", self.where_is(st));
                    return self.viol("memory", key);
                }
                (idx - 1) as u32
            }
        };
        let k = self.kinds[fid as usize];
        if k == K::Body {
            if st.frames.len() >= self.max_depth {
                // drop the state: unbounded recursion overflows the host stack
                let key = format!("call depth exceeds {} in {}", self.max_depth, self.where_is(st));
                return self.viol("recursion", key);
            }
            let f = self.m.func(fid);
            self.covered.insert(fid);
            let mut regs = vec![V::C(0); f.nregs];
            for (i, (o, _)) in args.iter().enumerate().take(f.nparams) {
                regs[i] = Self::opnd(st, o);
            }
            let fr = Frame {
                f,
                fid,
                regs,
                blk: 0,
                ip: 0,
                ret: d,
                normal,
                smark: st.mem.stack.len,
                spmark: st.mem.sp,
            };
            let old = std::mem::replace(&mut st.top, fr);
            st.frames.push(Rc::new(old));
            return Ok(());
        }
        let vals: Vec<V> = args.iter().map(|(o, _)| Self::opnd(st, o)).collect();
        let r = self.builtin(st, fid, k, &vals, args, ret)?;
        self.advance(st, d, r, normal);
        Ok(())
    }

    /// Is there a value against the assertion? A long conjunction is decided
    /// one conjunct at a time.
    fn refute(&mut self, st: &State, e: Ex) -> Res {
        let mut parts = vec![];
        let mut todo = vec![e];
        let mut seen = std::collections::HashSet::new();
        while let Some(t) = todo.pop() {
            if !seen.insert(t) {
                continue;
            }
            let n = node(t);
            if n.op == Op::And {
                todo.push(n.b);
                todo.push(n.a);
            } else {
                parts.push(t);
            }
        }
        if parts.len() < 6 {
            return self.solver.check(&st.pc, not1(e));
        }
        let mut unknown = false;
        for p in parts {
            match self.solver.check(&st.pc, not1(p)) {
                Res::Unsat => {}
                Res::Unknown => unknown = true,
                r => return r,
            }
        }
        if unknown {
            Res::Unknown
        } else {
            Res::Unsat
        }
    }

    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(k) => Ok(*k as u64),
            V::S(e) => Ok(self.concretize(st, *e)? as u64),
            _ => Err(End::Error("aggregate".into())),
        }
    }

    fn builtin(&mut self, st: &mut State, fid: u32, k: K, a: &[V], args: &[(O, Ty)], ret: &Ty) -> R<Option<V>> {
        let bw = |i: usize| -> u32 { args[i].1.bits() };
        let bx = |i: usize| -> Ex { ex_of(&a[i], args[i].1.bits()) };
        let all_c = a.iter().all(|v| matches!(v, V::C(_)));
        let c = |i: usize| -> u128 {
            match &a[i] {
                V::C(k) => *k,
                _ => unreachable!(),
            }
        };
        Ok(match k {
            K::Nop => None,
            K::Memcpy => {
                let n = self.conc(st, &a[2])?;
                self.mem_copy(st, &a[0], &a[1], n)?;
                if *ret == Ty::Void {
                    None
                } else {
                    Some(a[0].clone())
                }
            }
            K::Memset => {
                let n = self.conc(st, &a[2])?;
                if n == 0 {
                    return Ok(None);
                }
                match &a[0] {
                    V::C(_) => {
                        let (l, _, off, _) = self.resolve(st, &a[0], n, true)?;
                        let b = to_ex(&a[1], 8);
                        let o = st.mem.get_mut(l).unwrap();
                        if o.logged || !o.log.is_empty() {
                            o.log_write(konst(off as u128, 64), off, off, vec![b; n as usize]);
                        } else {
                            o.fill(off, n, b);
                        }
                    }
                    _ => {
                        let b = to_ex(&a[1], 8);
                        self.write_bytes(st, &a[0], vec![b; n as usize])?;
                    }
                }
                None
            }
            K::Bcmp => {
                let n = self.conc(st, &a[2])?;
                let mut r = tru();
                let mut i = 0;
                while i < n {
                    let m = (n - i).min(8) as usize;
                    let x = self.addoff(&a[0], i);
                    let y = self.addoff(&a[1], i);
                    let x = self.read(st, &x, m)?;
                    let y = self.read(st, &y, m)?;
                    let wd = (m * 8) as u8;
                    r = and1(r, eq(to_ex(&x, wd), to_ex(&y, wd)));
                    if is_const(r) == Some(0) {
                        break;
                    }
                    i += m as u64;
                }
                Some(from_ex(ite(r, konst(0, 32), konst(1, 32))))
            }
            K::Memcmp => {
                let n = self.conc(st, &a[2])?;
                let mut res = konst(0, 32);
                let mut diffs = vec![];
                for i in 0..n {
                    let x = self.addoff(&a[0], i);
                    let y = self.addoff(&a[1], i);
                    let x = to_ex(&self.read(st, &x, 1)?, 8);
                    let y = to_ex(&self.read(st, &y, 1)?, 8);
                    diffs.push((x, y));
                }
                for (x, y) in diffs.into_iter().rev() {
                    let d = ite(ult(x, y), konst(0xffff_ffff, 32), konst(1, 32));
                    res = ite(eq(x, y), res, d);
                }
                Some(from_ex(res))
            }
            K::Strlen => {
                let mut i = 0;
                loop {
                    let x = self.addoff(&a[0], i);
                    let v = self.read(st, &x, 1)?;
                    let z = eq(to_ex(&v, 8), konst(0, 8));
                    if self.force(st, z)? {
                        break;
                    }
                    i += 1;
                }
                Some(V::C(i as u128))
            }
            K::UMax | K::UMin | K::SMax | K::SMin => {
                let (x, y) = (bx(0), bx(1));
                let lt = if matches!(k, K::UMax | K::UMin) { ult(x, y) } else { slt(x, y) };
                Some(from_ex(if matches!(k, K::UMax | K::SMax) { ite(lt, y, x) } else { ite(lt, x, y) }))
            }
            K::USubSat => {
                let (x, y) = (bx(0), bx(1));
                Some(from_ex(ite(ult(x, y), konst(0, bw(0) as u8), sub(x, y))))
            }
            K::UAddSat => {
                let (x, y) = (bx(0), bx(1));
                let s = add(x, y);
                Some(from_ex(ite(ult(s, x), konst(u128::MAX, bw(0) as u8), s)))
            }
            K::SAddSat | K::SSubSat => {
                let wd = bw(0) as u8;
                let (x, y) = (sext(bx(0), wd + 1), sext(bx(1), wd + 1));
                let s = if k == K::SAddSat { add(x, y) } else { sub(x, y) };
                let mn = 1u128 << (wd - 1);
                let mnx = konst(sx(mn, wd) as u128, wd + 1);
                let mxx = konst(mn - 1, wd + 1);
                let r = ite(slt(s, mnx), mnx, ite(slt(mxx, s), mxx, s));
                Some(from_ex(extract(r, 0, wd)))
            }
            K::Abs => {
                let x = bx(0);
                let wd = bw(0) as u8;
                Some(from_ex(ite(slt(x, konst(0, wd)), sub(konst(0, wd), x), x)))
            }
            K::Ctlz | K::Cttz => {
                let wd = bw(0) as u8;
                let x = bx(0);
                if let Some(v) = is_const(x) {
                    let r = if v == 0 {
                        wd as u32
                    } else if k == K::Ctlz {
                        v.leading_zeros() - (128 - wd as u32)
                    } else {
                        v.trailing_zeros()
                    };
                    return Ok(Some(V::C(r as u128)));
                }
                let mut r = konst(wd as u128, wd);
                for i in 0..wd {
                    let (bit, val) = if k == K::Ctlz { (i, wd - 1 - i) } else { (wd - 1 - i, wd - 1 - i) };
                    r = ite(extract(x, bit, 1), konst(val as u128, wd), r);
                }
                Some(from_ex(r))
            }
            K::Ctpop => {
                let wd = bw(0) as u8;
                let x = bx(0);
                let mut r = konst(0, wd);
                for i in 0..wd {
                    r = add(r, ite(extract(x, i, 1), konst(1, wd), konst(0, wd)));
                }
                Some(from_ex(r))
            }
            K::Fshl | K::Fshr => {
                let wd = bw(0);
                let s = match &a[2] {
                    V::C(s) => (*s as u32) % wd,
                    V::S(e) => {
                        // only constant rotations appear; fork otherwise
                        let e = *e;
                        (self.concretize(st, e)? as u32) % wd
                    }
                    _ => 0,
                };
                let (x, y) = (bx(0), bx(1));
                let s = if k == K::Fshr { (wd - s) % wd } else { s };
                if s == 0 {
                    return Ok(Some(if k == K::Fshl { a[0].clone() } else { a[1].clone() }));
                }
                let hi_ = extract(x, 0, (wd - s) as u8);
                let lo_ = extract(y, (wd - s) as u8, s as u8);
                Some(from_ex(concat(hi_, lo_)))
            }
            K::Bswap => {
                let wd = bw(0) as u8;
                let x = bx(0);
                let mut r = extract(x, 0, 8);
                for i in 1..wd / 8 {
                    r = concat(r, extract(x, i * 8, 8));
                }
                Some(from_ex(r))
            }
            K::BitRev => {
                let wd = bw(0) as u8;
                let x = bx(0);
                let mut r = extract(x, 0, 1);
                let b1 = |e: Ex| zext(e, 8);
                let _ = b1;
                let mut v = ite(r, konst(1u128 << (wd - 1), wd), konst(0, wd));
                for i in 1..wd {
                    r = extract(x, i, 1);
                    v = bin(Op::Or, v, ite(r, konst(1u128 << (wd - 1 - i), wd), konst(0, wd)));
                }
                Some(from_ex(v))
            }
            K::Ucmp | K::Scmp => {
                let wd = ret.bits() as u8;
                let (x, y) = (bx(0), bx(1));
                let (l, g) = if k == K::Ucmp { (ult(x, y), ult(y, x)) } else { (slt(x, y), slt(y, x)) };
                Some(from_ex(ite(l, konst(u128::MAX, wd), ite(g, konst(1, wd), konst(0, wd)))))
            }
            K::UAddO | K::USubO | K::UMulO | K::SAddO | K::SSubO | K::SMulO => {
                let wd = bw(0) as u8;
                let (x, y) = (bx(0), bx(1));
                let (r, o) = match k {
                    K::UAddO => {
                        let r = add(x, y);
                        (r, ult(r, x))
                    }
                    K::USubO => (sub(x, y), ult(x, y)),
                    K::UMulO => {
                        let r = bin(Op::Mul, x, y);
                        let p = bin(Op::Mul, zext(x, 2 * wd), zext(y, 2 * wd));
                        (r, not1(eq(extract(p, wd, wd), konst(0, wd))))
                    }
                    K::SAddO => {
                        let r = add(x, y);
                        // operands of equal sign, result of the other sign
                        let (sx_, sy, sr) = (extract(x, wd - 1, 1), extract(y, wd - 1, 1), extract(r, wd - 1, 1));
                        (r, and1(eq(sx_, sy), not1(eq(sx_, sr))))
                    }
                    K::SSubO => {
                        let r = sub(x, y);
                        let (sx_, sy, sr) = (extract(x, wd - 1, 1), extract(y, wd - 1, 1), extract(r, wd - 1, 1));
                        (r, and1(not1(eq(sx_, sy)), not1(eq(sx_, sr))))
                    }
                    _ => {
                        let r = bin(Op::Mul, x, y);
                        let p = bin(Op::Mul, sext(x, 2 * wd), sext(y, 2 * wd));
                        (r, not1(eq(p, sext(extract(p, 0, wd), 2 * wd))))
                    }
                };
                Some(V::A(Rc::new(vec![from_ex(r), from_ex(o)])))
            }
            K::Expect => Some(a[0].clone()),
            K::IsConst => Some(V::C(0)),
            K::FpToSiSat => Some(from_ex(fop1(Op::FToSI, bx(0), ret.bits() as u8))),
            K::FpToUiSat => Some(from_ex(fop1(Op::FToUI, bx(0), ret.bits() as u8))),
            K::Fabs => Some(from_ex(bin(Op::And, bx(0), konst(mask(bw(0) as u8) >> 1, bw(0) as u8)))),
            K::FCeil => Some(from_ex(fop1(Op::FCeil, bx(0), 64))),
            K::FFloor => Some(from_ex(fop1(Op::FFloor, bx(0), 64))),
            K::FRound => Some(from_ex(fop1(Op::FRound, bx(0), 64))),
            K::FTrunc => Some(from_ex(fop1(Op::FTrunc, bx(0), 64))),
            K::FRint => Some(from_ex(fop1(Op::FRint, bx(0), 64))),
            K::FSqrt => Some(from_ex(fop1(Op::FSqrt, bx(0), 64))),
            K::FMax | K::FMin => {
                let (x, y) = (bx(0), bx(1));
                let nan = konst(NAN64, 64);
                let eqv = if k == K::FMax { bin(Op::And, x, y) } else { bin(Op::Or, x, y) };
                let lt = flt_ex(x, y);
                let gt = flt_ex(y, x);
                let (on_lt, on_gt) = if k == K::FMax { (y, x) } else { (x, y) };
                let r = ite(lt, on_lt, ite(gt, on_gt, eqv));
                let r = ite(is_nan_ex(y), ite(is_nan_ex(x), nan, x), r);
                let r = ite(and1(is_nan_ex(x), not1(is_nan_ex(y))), y, r);
                Some(from_ex(r))
            }
            K::FCopysign => {
                let m63 = konst((1u128 << 63) - 1, 64);
                let s = konst(1u128 << 63, 64);
                Some(from_ex(bin(Op::Or, bin(Op::And, bx(0), m63), bin(Op::And, bx(1), s))))
            }
            K::Uf(n) => {
                let x = bx(0);
                let y = if a.len() > 1 { zext(bx(1), 64) } else { konst(0, 64) };
                let y = if n == 8 { if a.len() > 1 { zext(bx(1), 64) } else { y } } else { y };
                Some(from_ex(uf(n, x, y)))
            }
            K::Tls => Some(a[0].clone()),
            K::Trap => {
                let key = format!("trap in {}", self.where_is(st));
                return self.viol("panic", key);
            }
            K::Panic => {
                let key = self.panic_key(st, fid, a);
                return self.viol("panic", key);
            }
            K::Malloc => {
                let n = self.conc(st, &a[0])?;
                if n > 1 << 32 {
                    return Ok(Some(V::C(0)));
                }
                Some(V::C(st.mem.malloc(n, 16) as u128))
            }
            K::Calloc => {
                let n = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                let t = match n.checked_mul(m) {
                    Some(t) if t <= 1 << 32 => t,
                    _ => return Ok(Some(V::C(0))),
                };
                Some(V::C(st.mem.malloc(t, 16) as u128))
            }
            K::PosixMemalign => {
                let al = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                if n > 1 << 32 {
                    return Ok(Some(V::C(12)));
                }
                self.resolve(st, &a[0], 8, true)?;
                let p = st.mem.malloc(n, al);
                self.write(st, &a[0], 8, &V::C(p as u128))?;
                Some(V::C(0))
            }
            K::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if n > 1 << 32 {
                    return Ok(Some(V::C(0)));
                }
                let old = if p != 0 {
                    let l = match st.mem.find(p) {
                        Some(l) => l,
                        None => return self.oob(st, "realloc", p, n),
                    };
                    st.mem.get(l).size
                } else {
                    0
                };
                let q = st.mem.malloc(n, 16);
                if p != 0 {
                    self.mem_copy(st, &V::C(q as u128), &V::C(p as u128), old.min(n))?;
                    self.free(st, p)?;
                }
                Some(V::C(q as u128))
            }
            K::Free => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    self.free(st, p)?;
                }
                None
            }
            K::Sysconf => Some(V::C(4096)),
            K::Zero => Some(V::C(0)),
            K::Getenv => Some(V::C(0)),
            K::Errno => Some(V::C(self.errno_addr as u128)),
            K::SWrite => {
                // standard streams only: everything is accepted
                if self.m.fns[fid as usize].name == "write" {
                    Some(a[2].clone())
                } else {
                    let n = self.conc(st, &a[2])?;
                    let p = self.conc(st, &a[1])?;
                    let mut t = 0;
                    for i in 0..n {
                        let v = self.read(st, &V::C((p + 16 * i + 8) as u128), 8)?;
                        t += self.conc(st, &v)?;
                    }
                    Some(V::C(t as u128))
                }
            }
            K::Syscall => {
                let n = self.conc(st, &a[0])?;
                match n {
                    318 => {
                        // getrandom: zeros
                        Some(a[2].clone())
                    }
                    186 => Some(V::C(1)),
                    202 => Some(V::C(0)),
                    _ => return Err(End::Error(format!("syscall {}", n))),
                }
            }
            // ---------------------------------------------------- harness
            K::SymVal(bits) => {
                let e = var("in", bits as u8);
                st.inputs.push(Input::Val(e, bits));
                Some(from_ex(zext(e, ret.bits() as u8)))
            }
            K::SymHavoc => {
                let n = self.conc(st, &a[1])?;
                let (l, _, off, _) = self.resolve(st, &a[0], n.max(1), true)?;
                let arr = new_arr("havoc", None);
                let base = match &a[0] {
                    V::C(k) => *k as u64,
                    _ => 0,
                };
                st.inputs.push(Input::Buf(arr, n, base));
                let o = st.mem.get_mut(l).unwrap();
                for i in 0..n {
                    o.write_base_byte(off + i, sel(arr, konst(i as u128, 64)));
                }
                if n >= 2048 {
                    o.logged = true;
                    if off == 0 && n == o.size {
                        o.snap = Some(arr);
                    }
                }
                None
            }
            K::SymAssume => {
                let e = bx(0);
                let e = if w(e) == 1 { e } else { not1(eq(e, konst(0, w(e)))) };
                match is_const(e) {
                    Some(1) => {}
                    Some(_) => return Err(End::Infeasible),
                    None => {
                        if st.model.borrow_mut().eval(e) != 1 {
                            let r = self.solver.check_from(&st.pc, e, &st.model.borrow());
                            match r {
                                Res::Sat(m) => st.model = Rc::new(RefCell::new(m)),
                                Res::Unsat => return Err(End::Infeasible),
                                Res::Unknown => {
                                    return Err(End::Unknown(format!("undecided assumption at {}", self.where_is(st))))
                                }
                            }
                        }
                        st.pc.push(e);
                    }
                }
                None
            }
            K::SymAssert => {
                let e = bx(0);
                let e = if w(e) == 1 { e } else { not1(eq(e, konst(0, w(e)))) };
                let id = self.conc(st, &a[1])?;
                match is_const(e) {
                    Some(1) => self.trivially += 1,
                    Some(_) => return self.viol("assert", format!("{}", id)),
                    None => {
                        self.obligations += 1;
                        if st.model.borrow_mut().eval(e) != 1 {
                            let m = st.model.clone();
                            self.record_violation(st, &mut m.borrow_mut(), "assert", &format!("{}", id));
                            // go on where the assertion holds
                            match self.solver.check(&st.pc, e) {
                                Res::Sat(m) => {
                                    st.model = Rc::new(RefCell::new(m));
                                    st.pc.push(e);
                                }
                                _ => return Err(End::Done),
                            }
                        } else {
                            match self.refute(st, e) {
                                Res::Unsat => st.implied.push(e),
                                Res::Sat(mut m) => {
                                    self.record_violation(st, &mut m, "assert", &format!("{}", id));
                                    st.pc.push(e);
                                }
                                Res::Unknown => {
                                    self.inconclusive.push(format!("undecided assertion {}", id));
                                    st.pc.push(e);
                                }
                            }
                        }
                    }
                }
                None
            }
            K::SymChoice => {
                let n = self.conc(st, &a[0])?;
                // one path per alternative
                for i in (1..n).rev() {
                    let mut o = self.clone_at(st);
                    o.inputs.push(Input::Val(konst(i as u128, 64), 64));
                    self.resume_choice(&mut o, i);
                    self.work.push(o);
                }
                st.inputs.push(Input::Val(konst(0, 64), 64));
                Some(V::C(0))
            }
            K::SymConc => {
                let e = bx(0);
                Some(V::C(self.concretize(st, e)?))
            }
            K::SymReach => {
                let id = self.conc(st, &a[0])?;
                *self.reached.entry(id).or_default() += 1;
                None
            }
            K::SymKnown => {
                let e = bx(0);
                Some(V::C((is_const(e).unwrap_or(0) & 1) as u128))
            }
            K::SymIsEngine => Some(V::C(1)),
            K::SymPrint => {
                if self.verbose {
                    if let (V::C(p), V::C(n)) = (&a[0], &a[1]) {
                        let s = self.conc_str(st, *p as u64, *n as u64);
                        println!("[print] {}", s);
                    }
                }
                None
            }
            K::SymPrintV => {
                if self.verbose {
                    match &a[0] {
                        V::C(k) => println!("[value] {:x}", k),
                        V::S(e) => println!("[value] e{} now {:x} = {}", e, st.model.borrow_mut().eval(*e), show(*e, 12)),
                        _ => {}
                    }
                }
                None
            }
            K::SymBig => {
                let n = self.conc(st, &a[0])?;
                Some(V::C(st.mem.big_alloc(n) as u128))
            }
            K::SymMalloc => {
                let n = self.conc(st, &a[0])?;
                let al = self.conc(st, &a[1])?;
                Some(V::C(st.mem.malloc(n, al) as u128))
            }
            K::SymEnd => return Err(End::Done),
            K::SymStuck => {
                let id = self.conc(st, &a[0])?;
                return self.viol("assert", format!("{}", id));
            }
            K::SymMark => {
                let v = self.conc(st, &a[0])?;
                self.max_steps = v;
                None
            }
            K::SymNote => {
                let id = self.conc(st, &a[0])?;
                let v = self.conc(st, &a[1])?;
                let e = self.notes.entry(id).or_default();
                *e = (*e).max(v);
                None
            }
            K::Fma | K::Unknown | K::Body => {
                let _ = (all_c, c);
                return Err(End::Error(format!("call of {}", self.m.fns[fid as usize].name)));
            }
        })
    }

    fn resume_choice(&mut self, o: &mut State, i: u64) {
        let f: &'static Func = o.top.f;
        if let I::Call { d, normal, .. } = &f.blocks[o.top.blk as usize].code[o.top.ip as usize] {
            let (d, normal) = (*d, *normal);
            self.advance(o, d, Some(V::C(i as u128)), normal);
        }
    }

    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        match st.mem.find(p) {
            Some(l) if st.mem.get(l).base == p && st.mem.get(l).kind == Kind::Heap => {
                let o = st.mem.get_mut(l).unwrap();
                o.kind = Kind::Freed;
                o.pages = vec![];
                o.log.clear();
                Ok(())
            }
            _ => self.oob(st, "free", p, 0),
        }
    }

    fn simple(&mut self, st: &mut State, inst: &'static I) -> R<()> {
        match inst {
            I::Alloca { d, size, align, n } => {
                let n = match Self::opnd(st, n) {
                    V::C(k) => k as u64,
                    _ => return Err(End::Error("alloca".into())),
                };
                let a = st.mem.alloca(size * n, *align);
                st.top.regs[*d as usize] = V::C(a as u128);
            }
            I::Load { d, ty, p } => {
                let a = Self::opnd(st, p);
                let v = self.load_ty(st, &a, ty)?;
                st.top.regs[*d as usize] = v;
            }
            I::Store { ty, v, p } => {
                let a = Self::opnd(st, p);
                let v = Self::opnd(st, v);
                self.store_ty(st, &a, ty, &v)?;
            }
            I::Gep { d, base, off, terms } => {
                let b = Self::opnd(st, base);
                let mut k = *off;
                let mut sym: Option<Ex> = None;
                for (o, wd, sc) in terms {
                    match Self::opnd(st, o) {
                        V::C(x) => k = k.wrapping_add((sx(x, *wd as u8) as u64).wrapping_mul(*sc)),
                        V::S(e) => {
                            let e = if *wd < 64 { sext(e, 64) } else { e };
                            let t = bin(Op::Mul, e, konst(*sc as u128, 64));
                            sym = Some(match sym {
                                None => t,
                                Some(s) => add(s, t),
                            });
                        }
                        _ => return Err(End::Error("vector gep".into())),
                    }
                }
                let r = match (b, sym) {
                    (V::C(x), None) => V::C((x as u64).wrapping_add(k) as u128),
                    (V::C(x), Some(s)) => from_ex(add(s, konst((x as u64).wrapping_add(k) as u128, 64))),
                    (V::S(e), None) => from_ex(add(e, konst(k as u128, 64))),
                    (V::S(e), Some(s)) => from_ex(add(add(e, s), konst(k as u128, 64))),
                    _ => return Err(End::Error("gep".into())),
                };
                st.top.regs[*d as usize] = r;
            }
            I::Bin { d, op, w: wd, a, b, vec } => {
                let x = Self::opnd(st, a);
                let y = Self::opnd(st, b);
                let r = if *vec {
                    match (&x, &y) {
                        (V::A(x), V::A(y)) => V::A(Rc::new(
                            x.iter().zip(y.iter()).map(|(p, q)| binop(*op, *wd, p, q)).collect(),
                        )),
                        _ => return Err(End::Error("vector op".into())),
                    }
                } else {
                    match op {
                        B::UDiv | B::SDiv | B::URem | B::SRem => {
                            // division by zero is undefined; the compiler's own
                            // checks come before it
                            let z = eq(to_ex(&y, *wd as u8), konst(0, *wd as u8));
                            if is_const(z) != Some(0) {
                                if self.force(st, z)? {
                                    let key = format!("unchecked division by zero in {}", self.where_is(st));
                                    return self.viol("panic", key);
                                }
                            }
                        }
                        _ => {}
                    }
                    binop(*op, *wd, &x, &y)
                };
                st.top.regs[*d as usize] = r;
            }
            I::FBin { d, op, w: wd, a, b } => {
                if *wd != 64 {
                    let (x, y) = (Self::opnd(st, a), Self::opnd(st, b));
                    if let (V::C(x), V::C(y)) = (x, y) {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        let r = match op {
                            b'+' => x + y,
                            b'-' => x - y,
                            b'*' => x * y,
                            b'/' => x / y,
                            _ => x % y,
                        };
                        st.top.regs[*d as usize] = V::C(r.to_bits() as u128);
                        return Ok(());
                    }
                    return Err(End::Error("symbolic f32 arithmetic".into()));
                }
                let x = ex_of(&Self::opnd(st, a), 64);
                let y = ex_of(&Self::opnd(st, b), 64);
                let o = match op {
                    b'+' => Op::FAdd,
                    b'-' => Op::FSub,
                    b'*' => Op::FMul,
                    b'/' => Op::FDiv,
                    _ => {
                        if let (Some(x), Some(y)) = (is_const(x), is_const(y)) {
                            let r = f64::from_bits(x as u64) % f64::from_bits(y as u64);
                            st.top.regs[*d as usize] = V::C(r.to_bits() as u128);
                            return Ok(());
                        }
                        return Err(End::Error("frem".into()));
                    }
                };
                st.top.regs[*d as usize] = from_ex(fop2(o, x, y));
            }
            I::FNeg { d, w: wd, a } => {
                let x = ex_of(&Self::opnd(st, a), *wd);
                st.top.regs[*d as usize] = from_ex(bin(Op::Xor, x, konst(1u128 << (wd - 1), *wd as u8)));
            }
            I::ICmp { d, p, w: wd, a, b, vec } => {
                let x = Self::opnd(st, a);
                let y = Self::opnd(st, b);
                let r = if *vec {
                    match (&x, &y) {
                        (V::A(x), V::A(y)) => {
                            V::A(Rc::new(x.iter().zip(y.iter()).map(|(p1, q)| icmp(*p, *wd, p1, q)).collect()))
                        }
                        _ => return Err(End::Error("vector cmp".into())),
                    }
                } else {
                    icmp(*p, *wd, &x, &y)
                };
                st.top.regs[*d as usize] = r;
            }
            I::FCmp { d, p, w: wd, a, b } => {
                let x = ex_of(&Self::opnd(st, a), *wd);
                let y = ex_of(&Self::opnd(st, b), *wd);
                let (x, y) = if *wd == 32 { (fop1(Op::F32To64, x, 64), fop1(Op::F32To64, y, 64)) } else { (x, y) };
                let un = or1(is_nan_ex(x), is_nan_ex(y));
                let r = match p {
                    FP::Oeq => feq_ex(x, y),
                    FP::Ogt => flt_ex(y, x),
                    FP::Oge => or1(flt_ex(y, x), feq_ex(x, y)),
                    FP::Olt => flt_ex(x, y),
                    FP::Ole => or1(flt_ex(x, y), feq_ex(x, y)),
                    FP::One => and1(not1(un), not1(feq_ex(x, y))),
                    FP::Ord => not1(un),
                    FP::Uno => un,
                    FP::Ueq => or1(un, feq_ex(x, y)),
                    FP::Ugt => or1(un, flt_ex(y, x)),
                    FP::Uge => not1(flt_ex(x, y)),
                    FP::Ult => or1(un, flt_ex(x, y)),
                    FP::Ule => not1(flt_ex(y, x)),
                    FP::Une => not1(feq_ex(x, y)),
                    FP::True => tru(),
                    FP::False => fls(),
                };
                st.top.regs[*d as usize] = from_ex(r);
            }
            I::Cast { d, k, from, to, a } => {
                let v = Self::opnd(st, a);
                let r = match (from, to) {
                    (Ty::Vec(..), Ty::Vec(..)) if *k != Cast::Bit => match &v {
                        V::A(x) => {
                            let (fb, tb) = match (from, to) {
                                (Ty::Vec(_, f), Ty::Vec(_, t)) => (f.bits(), t.bits()),
                                _ => unreachable!(),
                            };
                            V::A(Rc::new(x.iter().map(|e| cast(*k, fb, tb, e)).collect()))
                        }
                        _ => return Err(End::Error("vector cast".into())),
                    },
                    (Ty::Vec(n, t), _) => {
                        // bitcast of a vector to an integer
                        let _ = n;
                        match &v {
                            V::A(x) => {
                                let eb = t.bits();
                                if x.iter().all(|e| matches!(e, V::C(_))) {
                                    let mut r = 0u128;
                                    for (i, e) in x.iter().enumerate() {
                                        if let V::C(k) = e {
                                            r |= k << (i as u32 * eb);
                                        }
                                    }
                                    V::C(r)
                                } else {
                                    let wd = to.bits() as u8;
                                    let mut r = konst(0, wd);
                                    for (i, e) in x.iter().enumerate() {
                                        let e = to_ex(e, eb as u8);
                                        let z = zext(e, wd);
                                        r = bin(Op::Or, r, bin(Op::Shl, z, konst(i as u128 * eb as u128, wd)));
                                    }
                                    from_ex(r)
                                }
                            }
                            _ => return Err(End::Error("vector bitcast".into())),
                        }
                    }
                    (_, Ty::Vec(..)) => return Err(End::Error("bitcast to vector".into())),
                    _ => cast(*k, from.bits(), to.bits(), &v),
                };
                st.top.regs[*d as usize] = r;
            }
            I::Select { d, c, a, b, ty } => {
                let cv = Self::opnd(st, c);
                let r = match cv {
                    V::C(k) => {
                        if k & 1 == 1 {
                            Self::opnd(st, a)
                        } else {
                            Self::opnd(st, b)
                        }
                    }
                    V::S(e) => {
                        let x = Self::opnd(st, a);
                        let y = Self::opnd(st, b);
                        match vite(e, &x, &y, ty) {
                            Some(v) => v,
                            None => {
                                if self.force(st, e)? {
                                    x
                                } else {
                                    y
                                }
                            }
                        }
                    }
                    V::A(cs) => {
                        let x = Self::opnd(st, a);
                        let y = Self::opnd(st, b);
                        match (x, y) {
                            (V::A(x), V::A(y)) => {
                                let mut out = vec![];
                                for i in 0..cs.len() {
                                    out.push(match &cs[i] {
                                        V::C(1) => x[i].clone(),
                                        V::C(_) => y[i].clone(),
                                        V::S(e) => match vite(*e, &x[i], &y[i], match ty { Ty::Vec(_, t) => t, t => t }) {
                                            Some(v) => v,
                                            None => return Err(End::Error("vector select".into())),
                                        },
                                        _ => return Err(End::Error("vector select".into())),
                                    });
                                }
                                V::A(Rc::new(out))
                            }
                            _ => return Err(End::Error("vector select".into())),
                        }
                    }
                };
                st.top.regs[*d as usize] = r;
            }
            I::Extract { d, a, idx } => {
                let mut v = Self::opnd(st, a);
                for i in idx {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return Err(End::Error("extractvalue".into())),
                    };
                }
                st.top.regs[*d as usize] = v;
            }
            I::Insert { d, a, v, idx, ty } => {
                let base = Self::opnd(st, a);
                let base = match base {
                    V::A(_) => base,
                    _ => Module::zero(ty),
                };
                let v = Self::opnd(st, v);
                fn ins(b: &V, idx: &[u32], v: &V) -> V {
                    if idx.is_empty() {
                        return v.clone();
                    }
                    match b {
                        V::A(x) => {
                            let mut y = (**x).clone();
                            y[idx[0] as usize] = ins(&y[idx[0] as usize], &idx[1..], v);
                            V::A(Rc::new(y))
                        }
                        _ => v.clone(),
                    }
                }
                let r = ins(&base, idx, &v);
                st.top.regs[*d as usize] = r;
            }
            I::Rmw { d, op, ty, p, v } => {
                let a = Self::opnd(st, p);
                let v = Self::opnd(st, v);
                let old = self.load_ty(st, &a, ty)?;
                let wd = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => binop(B::Add, wd, &old, &v),
                    "sub" => binop(B::Sub, wd, &old, &v),
                    "and" => binop(B::And, wd, &old, &v),
                    "or" => binop(B::Or, wd, &old, &v),
                    "xor" => binop(B::Xor, wd, &old, &v),
                    _ => return Err(End::Error(format!("atomicrmw {}", op))),
                };
                self.store_ty(st, &a, ty, &new)?;
                st.top.regs[*d as usize] = old;
            }
            I::CmpXchg { d, ty, p, c, n } => {
                let a = Self::opnd(st, p);
                let c = Self::opnd(st, c);
                let n = Self::opnd(st, n);
                let old = self.load_ty(st, &a, ty)?;
                let wd = ty.bits() as u8;
                let e = eq(to_ex(&old, wd), to_ex(&c, wd));
                let same = self.force(st, e)?;
                if same {
                    self.store_ty(st, &a, ty, &n)?;
                }
                st.top.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(same as u128)]));
            }
            I::Freeze { d, a } => {
                let v = Self::opnd(st, a);
                st.top.regs[*d as usize] = v;
            }
            I::InsEl { d, a, v, i, ty } => {
                let base = match Self::opnd(st, a) {
                    V::A(x) => V::A(x),
                    _ => Module::zero(ty),
                };
                let v = Self::opnd(st, v);
                let i = match Self::opnd(st, i) {
                    V::C(k) => k as usize,
                    _ => return Err(End::Error("insertelement".into())),
                };
                if let V::A(x) = base {
                    let mut y = (*x).clone();
                    y[i] = v;
                    st.top.regs[*d as usize] = V::A(Rc::new(y));
                }
            }
            I::ExtEl { d, a, i } => {
                let i = match Self::opnd(st, i) {
                    V::C(k) => k as usize,
                    _ => return Err(End::Error("extractelement".into())),
                };
                if let V::A(x) = Self::opnd(st, a) {
                    st.top.regs[*d as usize] = x[i].clone();
                }
            }
            I::Shuf { d, a, b, m } => {
                let (x, y) = (Self::opnd(st, a), Self::opnd(st, b));
                if let (V::A(x), V::A(y)) = (x, y) {
                    let n = x.len() as u32;
                    let r = m.iter().map(|&i| if i < n { x[i as usize].clone() } else { y[(i - n) as usize].clone() }).collect();
                    st.top.regs[*d as usize] = V::A(Rc::new(r));
                }
            }
            I::Nop => {}
            I::Bad(t) => return Err(End::Error(format!("instruction {}", t))),
            _ => return Err(End::Error("instruction".into())),
        }
        Ok(())
    }
}

/// The values of a term that is built from a choice among constants.
fn few(e: Ex, max: usize) -> Option<Rc<Vec<u128>>> {
    fn go(e: Ex, max: usize, memo: &mut HashMap<Ex, Option<Rc<Vec<u128>>>>) -> Option<Rc<Vec<u128>>> {
        if let Some(r) = memo.get(&e) {
            return r.clone();
        }
        let n = node(e);
        let one = |v: Vec<u128>| {
            let mut v = v;
            v.sort();
            v.dedup();
            if v.len() > max {
                None
            } else {
                Some(Rc::new(v))
            }
        };
        let r = match n.op {
            Op::Const => Some(Rc::new(vec![n.k])),
            Op::Ite => match (go(n.b, max, memo), go(n.c, max, memo)) {
                (Some(a), Some(b)) => one(a.iter().chain(b.iter()).cloned().collect()),
                _ => None,
            },
            Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::And | Op::Or | Op::Xor => {
                match (go(n.a, max, memo), go(n.b, max, memo)) {
                    (Some(a), Some(b)) if a.len() == 1 || b.len() == 1 => one(
                        a.iter()
                            .flat_map(|&x| b.iter().map(move |&y| (x, y)))
                            .map(|(x, y)| bin_concrete(n.op, n.w, x, y))
                            .collect(),
                    ),
                    _ => None,
                }
            }
            Op::Concat => {
                let wb = w(n.b);
                match (go(n.a, max, memo), go(n.b, max, memo)) {
                    (Some(a), Some(b)) if a.len() == 1 || b.len() == 1 => one(
                        a.iter().flat_map(|&x| b.iter().map(move |&y| (x << wb) | y)).collect(),
                    ),
                    _ => None,
                }
            }
            Op::ZExt => go(n.a, max, memo),
            Op::Extract => match go(n.a, max, memo) {
                Some(a) => one(a.iter().map(|&x| (x >> n.k) & mask(n.w)).collect()),
                None => None,
            },
            _ => None,
        };
        memo.insert(e, r.clone());
        r
    }
    go(e, max, &mut HashMap::new())
}

fn trailing(e: Ex) -> u32 {
    let n = node(e);
    match n.op {
        Op::Const => {
            if n.k == 0 {
                64
            } else {
                n.k.trailing_zeros()
            }
        }
        Op::Add | Op::Sub => trailing(n.a).min(trailing(n.b)),
        Op::Mul => (trailing(n.a) + trailing(n.b)).min(64),
        Op::Concat => {
            let t = trailing(n.b);
            if t >= w(n.b) as u32 {
                w(n.b) as u32 + trailing(n.a)
            } else {
                t
            }
        }
        Op::ZExt => trailing(n.a),
        Op::Ite => trailing(n.b).min(trailing(n.c)),
        _ => 0,
    }
}

/// Value selected by `off` from ordered runs (start offset, value).
fn tree(off: Ex, runs: &[(u64, Ex)]) -> Ex {
    if runs.len() == 1 {
        return runs[0].1;
    }
    let mid = runs.len() / 2;
    let c = ult(off, konst(runs[mid].0 as u128, 64));
    ite(c, tree(off, &runs[..mid]), tree(off, &runs[mid..]))
}

fn vite(c: Ex, a: &V, b: &V, ty: &Ty) -> Option<V> {
    match ty {
        Ty::Struct(f, _) => match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut out = vec![];
                for i in 0..x.len() {
                    out.push(vite(c, &x[i], &y[i], &f[i])?);
                }
                Some(V::A(Rc::new(out)))
            }
            _ => None,
        },
        Ty::Vec(_, t) | Ty::Arr(_, t) => match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut out = vec![];
                for i in 0..x.len() {
                    out.push(vite(c, &x[i], &y[i], t)?);
                }
                Some(V::A(Rc::new(out)))
            }
            _ => None,
        },
        _ => {
            let wd = ty.bits() as u8;
            Some(from_ex(ite(c, to_ex(a, wd), to_ex(b, wd))))
        }
    }
}

fn binop(op: B, wd: u32, a: &V, b: &V) -> V {
    let o = match op {
        B::Add => Op::Add,
        B::Sub => Op::Sub,
        B::Mul => Op::Mul,
        B::UDiv => Op::UDiv,
        B::SDiv => Op::SDiv,
        B::URem => Op::URem,
        B::SRem => Op::SRem,
        B::Shl => Op::Shl,
        B::LShr => Op::LShr,
        B::AShr => Op::AShr,
        B::And => Op::And,
        B::Or => Op::Or,
        B::Xor => Op::Xor,
    };
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(bin_concrete(o, wd as u8, *x, *y));
    }
    from_ex(bin(o, to_ex(a, wd as u8), to_ex(b, wd as u8)))
}

fn icmp(p: P, wd: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let (s, t) = (sx(x, wd as u8), sx(y, wd as u8));
        let r = match p {
            P::Eq => x == y,
            P::Ne => x != y,
            P::Ugt => x > y,
            P::Uge => x >= y,
            P::Ult => x < y,
            P::Ule => x <= y,
            P::Sgt => s > t,
            P::Sge => s >= t,
            P::Slt => s < t,
            P::Sle => s <= t,
        };
        return V::C(r as u128);
    }
    let x = to_ex(a, wd as u8);
    let y = to_ex(b, wd as u8);
    from_ex(match p {
        P::Eq => eq(x, y),
        P::Ne => not1(eq(x, y)),
        P::Ugt => ult(y, x),
        P::Uge => not1(ult(x, y)),
        P::Ult => ult(x, y),
        P::Ule => not1(ult(y, x)),
        P::Sgt => slt(y, x),
        P::Sge => not1(slt(x, y)),
        P::Slt => slt(x, y),
        P::Sle => not1(slt(y, x)),
    })
}

fn cast(k: Cast, from: u32, to: u32, v: &V) -> V {
    match k {
        Cast::Trunc => match v {
            V::C(x) => V::C(x & mask(to as u8)),
            V::S(e) => from_ex(extract(*e, 0, to as u8)),
            v => v.clone(),
        },
        Cast::ZExt => match v {
            V::S(e) => from_ex(zext(*e, to as u8)),
            v => v.clone(),
        },
        Cast::SExt => match v {
            V::C(x) => V::C((sx(*x, from as u8) as u128) & mask(to as u8)),
            V::S(e) => from_ex(sext(*e, to as u8)),
            v => v.clone(),
        },
        Cast::Bit => v.clone(),
        Cast::FpToSi => from_ex(fop1(Op::FToSI, to_ex(v, from as u8), to as u8)),
        Cast::FpToUi => from_ex(fop1(Op::FToUI, to_ex(v, from as u8), to as u8)),
        Cast::SiToFp => match to {
            64 => from_ex(fop1(Op::SIToF, to_ex(v, from as u8), 64)),
            _ => match v {
                V::C(x) => V::C((sx(*x, from as u8) as f32).to_bits() as u128),
                _ => panic!("sitofp f32"),
            },
        },
        Cast::UiToFp => match to {
            64 => from_ex(fop1(Op::UIToF, to_ex(v, from as u8), 64)),
            _ => match v {
                V::C(x) => V::C((*x as f32).to_bits() as u128),
                _ => panic!("uitofp f32"),
            },
        },
        Cast::FpExt => from_ex(fop1(Op::F32To64, to_ex(v, 32), 64)),
        Cast::FpTrunc => from_ex(fop1(Op::F64To32, to_ex(v, 64), 32)),
    }
}
