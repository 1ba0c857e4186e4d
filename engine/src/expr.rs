//! Hash-consed bit-vector expressions (widths 1..=128) with construction-time
//! simplification, concrete evaluation under a model, and SMT-LIB printing.
//!
//! Width-1 expressions are Booleans and are printed with SMT sort Bool.

use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,  // a high, b low
    Extract, // k = low bit
    ZExt,
    SExt,
    Sel, // k = array id, a = 64-bit index, width 8
    // floating point over IEEE bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    FFloor,
    FCeil,
    FRound, // away from zero on ties
    FTrunc,
    FRint, // ties to even
    FEq,
    FLt,
    FLe,
    FToSI, // saturating, NaN -> 0, to width w
    FToUI,
    SIToF,
    UIToF,
    F32To64,
    F64To32,
    Uf, // k = function id, args a (and b)
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u128,
}

pub struct ArrInfo {
    /// Known contents (snapshot of an object); None bytes are unconstrained.
    pub known: Option<Rc<dyn Fn(u64) -> Option<Ex>>>,
    pub base_name: String,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    map: HashMap<Node, Ex>,
    pub var_names: Vec<String>,
    pub arrs: Vec<ArrInfo>,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

/// The node table never reallocates: `node()` hands out references into it.
pub const MAX_NODES: usize = 24_000_000;

pub fn init() {
    let c = Box::new(Ctx {
        nodes: Vec::with_capacity(MAX_NODES),
        lo: Vec::with_capacity(MAX_NODES),
        hi: Vec::with_capacity(MAX_NODES),
        map: HashMap::new(),
        var_names: Vec::new(),
        arrs: Vec::new(),
    });
    unsafe {
        CTX = Box::into_raw(c);
    }
    // id 0 is never a usable expression
    konst(0x5a, 77);
}

pub fn cx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

fn mk(n: Node) -> Ex {
    let c = cx();
    if let Some(&e) = c.map.get(&n) {
        return e;
    }
    let (lo, hi) = range_of(&n);
    let id = c.nodes.len() as Ex;
    if id as usize >= MAX_NODES {
        eprintln!("symex: expression table full");
        std::process::exit(2);
    }
    c.nodes.push(n.clone());
    c.lo.push(lo);
    c.hi.push(hi);
    c.map.insert(n, id);
    id
}

fn range_of(n: &Node) -> (u128, u128) {
    let c = cx();
    let m = mask(n.w);
    let l = |e: Ex| c.lo[e as usize];
    let h = |e: Ex| c.hi[e as usize];
    match n.op {
        Op::Const => (n.k, n.k),
        Op::ZExt => (l(n.a), h(n.a)),
        Op::And => (0, h(n.a).min(h(n.b))),
        Op::Or => {
            let hh = h(n.a).max(h(n.b));
            let bits = 128 - hh.leading_zeros();
            (
                l(n.a).max(l(n.b)),
                if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }.min(m),
            )
        }
        Op::Xor => {
            let hh = h(n.a).max(h(n.b));
            let bits = 128 - hh.leading_zeros();
            (0, if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }.min(m))
        }
        Op::Add => {
            let (s, o) = h(n.a).overflowing_add(h(n.b));
            if !o && s <= m {
                (l(n.a) + l(n.b), s)
            } else {
                // both always overflow exactly once?
                let (sl, ol) = l(n.a).overflowing_add(l(n.b));
                if n.w < 127 && !ol && !o && sl > m && s <= m.wrapping_mul(2).wrapping_add(1) {
                    (sl & m, s & m)
                } else {
                    (0, m)
                }
            }
        }
        Op::Sub => {
            if l(n.a) >= h(n.b) {
                (l(n.a) - h(n.b), h(n.a) - l(n.b))
            } else if n.w < 127 && h(n.a) < l(n.b) {
                // always borrows
                (l(n.a) + m + 1 - h(n.b), h(n.a) + m + 1 - l(n.b))
            } else {
                (0, m)
            }
        }
        Op::Mul => match h(n.a).checked_mul(h(n.b)) {
            Some(p) if p <= m => (l(n.a) * l(n.b), p),
            _ => (0, m),
        },
        Op::UDiv => {
            if l(n.b) > 0 {
                (l(n.a) / h(n.b), h(n.a) / l(n.b))
            } else {
                (0, m)
            }
        }
        Op::URem => {
            if h(n.b) > 0 && l(n.b) > 0 {
                (0, h(n.a).min(h(n.b) - 1))
            } else {
                (0, m)
            }
        }
        Op::LShr => (0, h(n.a)),
        Op::Ite => (l(n.b).min(l(n.c)), h(n.b).max(h(n.c))),
        Op::Concat => {
            let wb = c.nodes[n.b as usize].w;
            ((l(n.a) << wb) | l(n.b), (h(n.a) << wb) | h(n.b))
        }
        Op::Extract => {
            let lo = n.k as u32;
            let ha = h(n.a) >> lo;
            if ha <= m {
                (l(n.a) >> lo, ha)
            } else {
                (0, m)
            }
        }
        _ => (0, m),
    }
}

pub fn node(e: Ex) -> &'static Node {
    &cx().nodes[e as usize]
}
pub fn w(e: Ex) -> u8 {
    node(e).w
}
pub fn lo(e: Ex) -> u128 {
    cx().lo[e as usize]
}
pub fn hi(e: Ex) -> u128 {
    cx().hi[e as usize]
}

pub fn konst(k: u128, w: u8) -> Ex {
    mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
}
pub fn tru() -> Ex {
    konst(1, 1)
}
pub fn fls() -> Ex {
    konst(0, 1)
}
pub fn is_const(e: Ex) -> Option<u128> {
    let n = node(e);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}
pub fn var(name: &str, w: u8) -> Ex {
    let c = cx();
    let id = c.var_names.len();
    c.var_names.push(name.to_string());
    mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 })
}
pub fn new_arr(name: &str, known: Option<Rc<dyn Fn(u64) -> Option<Ex>>>) -> u32 {
    let c = cx();
    c.arrs.push(ArrInfo { known, base_name: name.to_string() });
    (c.arrs.len() - 1) as u32
}
pub fn sel(arr: u32, idx: Ex) -> Ex {
    if let Some(i) = is_const(idx) {
        let kn = cx().arrs[arr as usize].known.clone();
        if let Some(k) = kn {
            if let Some(e) = k(i as u64) {
                return e;
            }
        }
    }
    mk(Node { op: Op::Sel, w: 8, a: idx, b: 0, c: 0, k: arr as u128 })
}

pub fn bin_concrete(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            (sx(a, w) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        _ => panic!("bin_concrete {:?}", op),
    };
    match op {
        Op::Eq | Op::Ult | Op::Slt => r,
        _ => r & m,
    }
}

/// NaN results are canonicalised: Rust does not specify NaN payloads.
pub const NAN64: u128 = 0x7ff8_0000_0000_0000;

pub fn f_concrete(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let fa = f64::from_bits(a as u64);
    let fb = f64::from_bits(b as u64);
    let r = match op {
        Op::FAdd => fa + fb,
        Op::FSub => fa - fb,
        Op::FMul => fa * fb,
        Op::FDiv => fa / fb,
        Op::FSqrt => fa.sqrt(),
        Op::FFloor => fa.floor(),
        Op::FCeil => fa.ceil(),
        Op::FRound => fa.round(),
        Op::FTrunc => fa.trunc(),
        Op::FRint => fa.round_ties_even(),
        Op::FEq => return (fa == fb) as u128,
        Op::FLt => return (fa < fb) as u128,
        Op::FLe => return (fa <= fb) as u128,
        Op::FToSI => {
            return match w {
                8 => fa as i8 as u8 as u128,
                16 => fa as i16 as u16 as u128,
                32 => fa as i32 as u32 as u128,
                64 => fa as i64 as u64 as u128,
                _ => fa as i128 as u128,
            }
        }
        Op::FToUI => {
            return match w {
                8 => fa as u8 as u128,
                16 => fa as u16 as u128,
                32 => fa as u32 as u128,
                64 => fa as u64 as u128,
                _ => fa as u128,
            }
        }
        Op::F32To64 => {
            let x = f32::from_bits(a as u32);
            if x.is_nan() {
                f64::from_bits(NAN64 as u64)
            } else {
                x as f64
            }
        }
        Op::F64To32 => {
            let x = fa as f32;
            return if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() as u128 };
        }
        _ => panic!("f_concrete {:?}", op),
    };
    if r.is_nan() {
        return NAN64;
    }
    r.to_bits() as u128
}

fn raw(op: Op, w: u8, a: Ex, b: Ex) -> Ex {
    mk(Node { op, w, a, b, c: 0, k: 0 })
}

pub fn not1(a: Ex) -> Ex {
    debug_assert!(w(a) == 1);
    xor(a, tru())
}

pub fn and1(a: Ex, b: Ex) -> Ex {
    bin(Op::And, a, b)
}
pub fn or1(a: Ex, b: Ex) -> Ex {
    bin(Op::Or, a, b)
}
fn xor(a: Ex, b: Ex) -> Ex {
    bin(Op::Xor, a, b)
}

fn is_not(e: Ex) -> Option<Ex> {
    let n = node(e);
    if n.op == Op::Xor && n.w == 1 && is_const(n.b) == Some(1) {
        Some(n.a)
    } else {
        None
    }
}

pub fn eq(a: Ex, b: Ex) -> Ex {
    bin(Op::Eq, a, b)
}
pub fn ult(a: Ex, b: Ex) -> Ex {
    bin(Op::Ult, a, b)
}
pub fn slt(a: Ex, b: Ex) -> Ex {
    bin(Op::Slt, a, b)
}
pub fn add(a: Ex, b: Ex) -> Ex {
    bin(Op::Add, a, b)
}
pub fn sub(a: Ex, b: Ex) -> Ex {
    bin(Op::Sub, a, b)
}

/// known-one-bit positions are not tracked; only value ranges are.
pub fn bin(op: Op, a0: Ex, b0: Ex) -> Ex {
    let (mut a, mut b) = (a0, b0);
    let wd = w(a);
    debug_assert_eq!(wd, w(b), "{:?}", op);
    let (ca, cb) = (is_const(a), is_const(b));
    let rw = match op {
        Op::Eq | Op::Ult | Op::Slt => 1,
        _ => wd,
    };
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(bin_concrete(op, wd, x, y), rw);
    }
    // commutative: constant to the right, otherwise ordered ids
    match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        _ => {}
    }
    let (ca, cb) = (is_const(a), is_const(b));
    let m = mask(wd);
    let neg = op == Op::Sub && ca.is_some() && node(b).op == Op::Sub;
    if wd >= 32 && matches!(op, Op::Add | Op::Sub) && (ca.is_none() || neg) && cb.is_none() {
        if let Some(r) = linear(op, wd, a, b) {
            return r;
        }
    }
    match op {
        Op::Add => {
            if wd == 1 {
                return xor(a, b);
            }
            if cb == Some(0) {
                return a;
            }
            let na = node(a);
            if let Some(k) = cb {
                if na.op == Op::Add {
                    if let Some(k2) = is_const(na.b) {
                        return add(na.a, konst(k.wrapping_add(k2), wd));
                    }
                }
                if na.op == Op::Sub {
                    if let Some(k2) = is_const(na.a) {
                        return sub(konst(k.wrapping_add(k2), wd), na.b);
                    }
                }
            } else {
                // (x + k) + y -> (x + y) + k
                if na.op == Op::Add && is_const(na.b).is_some() {
                    return add(add(na.a, b), na.b);
                }
                let nb = node(b);
                if nb.op == Op::Add && is_const(nb.b).is_some() {
                    return add(add(a, nb.a), nb.b);
                }
                // (x - y) + y -> x
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
            }
        }
        Op::Sub => {
            if wd == 1 {
                return xor(a, b);
            }
            if a == b {
                return konst(0, wd);
            }
            if let Some(k) = cb {
                return add(a, konst(k.wrapping_neg(), wd));
            }
            let na = node(a);
            let nb = node(b);
            if na.op == Op::Add {
                if na.b == b {
                    return na.a;
                }
                if na.a == b {
                    return na.b;
                }
                if is_const(na.b).is_some() {
                    return add(sub(na.a, b), na.b);
                }
            }
            if nb.op == Op::Add {
                if nb.a == a {
                    return sub(konst(0, wd), nb.b);
                }
                if nb.b == a {
                    return sub(konst(0, wd), nb.a);
                }
                if let Some(k) = is_const(nb.b) {
                    return add(sub(a, nb.a), konst(k.wrapping_neg(), wd));
                }
            }
            if nb.op == Op::Sub && nb.a == a {
                // a - (a - y) = y
                return nb.b;
            }
            if na.op == Op::Sub && na.a == b {
                return sub(konst(0, wd), na.b);
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(1) {
                return a;
            }
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::Shl, a, konst(k.trailing_zeros() as u128, wd));
                }
                if k == mask(wd) && wd > 1 {
                    return bin(Op::Sub, konst(0, wd), a);
                }
            }
        }
        Op::UDiv => {
            if cb == Some(1) {
                return a;
            }
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::LShr, a, konst(k.trailing_zeros() as u128, wd));
                }
                if k > hi(a) {
                    return konst(0, wd);
                }
                if let Some((q, _)) = split_div(a, k, wd) {
                    return q;
                }
            }
            if cb.is_some() || lo(b) > 0 {
                // narrow the division when the operands are small
                let mx = hi(a).max(hi(b));
                let need = (128 - mx.leading_zeros()).max(1) as u8;
                if need < wd {
                    let nw = round_w(need);
                    if nw < wd {
                        return zext(raw_div(op, extract(a, 0, nw), extract(b, 0, nw)), wd);
                    }
                }
            }
        }
        Op::URem => {
            if cb == Some(1) {
                return konst(0, wd);
            }
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::And, a, konst(k - 1, wd));
                }
                if k > hi(a) {
                    return a;
                }
                if let Some((_, r)) = split_div(a, k, wd) {
                    return r;
                }
            }
            if cb.is_some() || lo(b) > 0 {
                let mx = hi(a).max(hi(b));
                let need = (128 - mx.leading_zeros()).max(1) as u8;
                if need < wd {
                    let nw = round_w(need);
                    if nw < wd {
                        return zext(raw_div(op, extract(a, 0, nw), extract(b, 0, nw)), wd);
                    }
                }
            }
        }
        Op::SDiv => {
            if cb == Some(1) {
                return a;
            }
        }
        Op::And => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(m) || a == b {
                return a;
            }
            if wd == 1 {
                if is_not(a) == Some(b) || is_not(b) == Some(a) {
                    return fls();
                }
            }
            if let Some(k) = cb {
                let na = node(a);
                // low mask -> zext(extract)
                let tz = k.trailing_zeros();
                let k2 = k >> tz;
                if (k2 & k2.wrapping_add(1)) == 0 {
                    let len = 128 - k2.leading_zeros();
                    if wd > 1 {
                        let mid = extract(a, tz as u8, len as u8);
                        let mut r = mid;
                        if tz > 0 {
                            r = concat(r, konst(0, tz as u8));
                        }
                        return zext(r, wd);
                    }
                }
                if na.op == Op::And {
                    if let Some(k2) = is_const(na.b) {
                        return bin(Op::And, na.a, konst(k & k2, wd));
                    }
                }
                if na.op == Op::Ite {
                    if let (Some(x), Some(y)) = (is_const(na.b), is_const(na.c)) {
                        return ite(na.a, konst(x & k, wd), konst(y & k, wd));
                    }
                }
            }
        }
        Op::Or => {
            if cb == Some(0) || a == b {
                return a;
            }
            if cb == Some(m) {
                return b;
            }
            if wd == 1 && (is_not(a) == Some(b) || is_not(b) == Some(a)) {
                return tru();
            }
            // disjoint pieces: zext(x) | concat(y, 0..) -> concat
            if let Some(r) = or_concat(a, b, wd).or_else(|| or_concat(b, a, wd)) {
                return r;
            }
        }
        Op::Xor => {
            if wd >= 32 && cb == Some((m >> 1) + 1) {
                return add(a, b);
            }
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return konst(0, wd);
            }
            if wd == 1 {
                if cb == Some(1) {
                    if let Some(x) = is_not(a) {
                        return x;
                    }
                } else {
                    if let Some(x) = is_not(a) {
                        return not1(xor(x, b));
                    }
                    if let Some(x) = is_not(b) {
                        return not1(xor(a, x));
                    }
                }
            }
            let na = node(a);
            if let Some(k) = cb {
                if na.op == Op::Xor {
                    if let Some(k2) = is_const(na.b) {
                        return xor(na.a, konst(k ^ k2, wd));
                    }
                }
                if na.op == Op::Ite {
                    if let (Some(x), Some(y)) = (is_const(na.b), is_const(na.c)) {
                        return ite(na.a, konst(x ^ k, wd), konst(y ^ k, wd));
                    }
                }
            }
        }
        Op::Shl => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if k >= wd as u128 {
                    return konst(0, wd);
                }
                let k = k as u8;
                return concat(extract(a, 0, wd - k), konst(0, k));
            }
            if ca == Some(0) {
                return a;
            }
        }
        Op::LShr => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if k >= wd as u128 {
                    return konst(0, wd);
                }
                let k = k as u8;
                return zext(extract(a, k, wd - k), wd);
            }
            if ca == Some(0) {
                return a;
            }
        }
        Op::AShr => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                let k = if k >= wd as u128 { wd - 1 } else { k as u8 };
                return sext(extract(a, k, wd - k), wd);
            }
        }
        Op::Eq => {
            if a == b {
                return tru();
            }
            if wd == 1 {
                if cb == Some(1) {
                    return a;
                }
                if cb == Some(0) {
                    return not1(a);
                }
                return not1(xor(a, b));
            }
            if hi(a) < lo(b) || hi(b) < lo(a) {
                return fls();
            }
            let na = node(a);
            if let Some(k) = cb {
                match na.op {
                    Op::Add => {
                        if let Some(k2) = is_const(na.b) {
                            return eq(na.a, konst(k.wrapping_sub(k2), wd));
                        }
                    }
                    Op::Sub => {
                        if let Some(k2) = is_const(na.a) {
                            return eq(na.b, konst(k2.wrapping_sub(k), wd));
                        }
                        if k == 0 {
                            return eq(na.a, na.b);
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = is_const(na.b) {
                            return eq(na.a, konst(k ^ k2, wd));
                        }
                        if k == 0 {
                            return eq(na.a, na.b);
                        }
                    }
                    Op::ZExt => {
                        let iw = w(na.a);
                        if k > mask(iw) {
                            return fls();
                        }
                        return eq(na.a, konst(k, iw));
                    }
                    Op::SExt => {
                        let iw = w(na.a);
                        let t = k & mask(iw);
                        if (sx(t, iw) as u128) & m != k {
                            return fls();
                        }
                        return eq(na.a, konst(t, iw));
                    }
                    Op::Concat => {
                        let wl = w(na.b);
                        let h = eq(na.a, konst(k >> wl, wd - wl));
                        if is_const(h) == Some(0) {
                            return h;
                        }
                        return and1(h, eq(na.b, konst(k & mask(wl), wl)));
                    }
                    Op::Ite => {
                        let (x, y) = (is_const(na.b), is_const(na.c));
                        if x.is_some() || y.is_some() {
                            let ea = eq(na.b, b);
                            let eb = eq(na.c, b);
                            return ite(na.a, ea, eb);
                        }
                        // range based pruning
                        if hi(na.b) < k || lo(na.b) > k {
                            return and1(not1(na.a), eq(na.c, b));
                        }
                        if hi(na.c) < k || lo(na.c) > k {
                            return and1(na.a, eq(na.b, b));
                        }
                    }
                    _ => {}
                }
            } else {
                let nb = node(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && w(na.a) == w(nb.a) {
                    return eq(na.a, nb.a);
                }
                if na.op == Op::SExt && nb.op == Op::SExt && w(na.a) == w(nb.a) {
                    return eq(na.a, nb.a);
                }
                if na.op == Op::Add && nb.op == Op::Add {
                    if na.b == nb.b {
                        return eq(na.a, nb.a);
                    }
                    if na.a == nb.a {
                        return eq(na.b, nb.b);
                    }
                    if na.a == nb.b {
                        return eq(na.b, nb.a);
                    }
                    if na.b == nb.a {
                        return eq(na.a, nb.b);
                    }
                }
                if na.op == Op::Add && (na.a == b || na.b == b) {
                    let o = if na.a == b { na.b } else { na.a };
                    return eq(o, konst(0, wd));
                }
                if nb.op == Op::Add && (nb.a == a || nb.b == a) {
                    let o = if nb.a == a { nb.b } else { nb.a };
                    return eq(o, konst(0, wd));
                }
                if na.op == Op::Concat && nb.op == Op::Concat && w(na.b) == w(nb.b) {
                    let h = eq(na.a, nb.a);
                    if is_const(h) == Some(0) {
                        return h;
                    }
                    return and1(h, eq(na.b, nb.b));
                }
            }
        }
        Op::Ult => {
            if a == b {
                return fls();
            }
            if hi(a) < lo(b) {
                return tru();
            }
            if lo(a) >= hi(b) {
                return fls();
            }
            if wd == 1 {
                return and1(not1(a), b);
            }
            if cb == Some(1) {
                return eq(a, konst(0, wd));
            }
            if ca == Some(0) {
                return not1(eq(b, a));
            }
            let na = node(a);
            let nb = node(b);
            if na.op == Op::ZExt && nb.op == Op::ZExt && w(na.a) == w(nb.a) {
                return ult(na.a, nb.a);
            }
            if let (Op::ZExt, Some(k)) = (na.op, cb) {
                return ult(na.a, konst(k, w(na.a)));
            }
            if let (Op::ZExt, Some(k)) = (nb.op, ca) {
                return ult(konst(k, w(nb.a)), nb.a);
            }
            if let Some(r) = ite_cmp(op, a, b) {
                return r;
            }
        }
        Op::Slt => {
            if a == b {
                return fls();
            }
            if wd == 1 {
                return and1(a, not1(b));
            }
            let half = m >> 1;
            // both known non-negative
            if hi(a) <= half && hi(b) <= half {
                return ult(a, b);
            }
            // both negative
            if lo(a) > half && lo(b) > half {
                return ult(a, b);
            }
            if hi(a) <= half && lo(b) > half {
                return fls();
            }
            if lo(a) > half && hi(b) <= half {
                return tru();
            }
            let na = node(a);
            // the sign of x + MIN is the other one
            if cb == Some(0) && na.op == Op::Add && is_const(na.b) == Some(half + 1) {
                return not1(slt(na.a, b));
            }
            if cb == Some(0) && matches!(na.op, Op::And | Op::Or | Op::Xor) {
                return bin(na.op, slt(na.a, b), slt(na.b, b));
            }
            if ca == Some(m) {
                return not1(slt(b, konst(0, wd)));
            }
            if na.op == Op::SExt {
                if let Some(k) = cb {
                    let iw = w(na.a);
                    let t = k & mask(iw);
                    if (sx(t, iw) as u128) & m == k {
                        return slt(na.a, konst(t, iw));
                    }
                }
            }
            if let Some(r) = ite_cmp(op, a, b) {
                return r;
            }
        }
        _ => {}
    }
    raw(op, rw, a, b)
}

/// Sums in a canonical order, so that equal ones are equal nodes.
const LIN_MAX: usize = 24;

fn lin_terms(e: Ex, wd: u8, sign: u128, out: &mut Vec<(Ex, u128)>, k: &mut u128) -> bool {
    let n = node(e);
    match n.op {
        Op::Const => *k = k.wrapping_add(sign.wrapping_mul(n.k)),
        Op::Add => {
            return lin_terms(n.a, wd, sign, out, k) && lin_terms(n.b, wd, sign, out, k);
        }
        Op::Sub => {
            return lin_terms(n.a, wd, sign, out, k) && lin_terms(n.b, wd, sign.wrapping_neg(), out, k);
        }
        _ => {
            for t in out.iter_mut() {
                if t.0 == e {
                    t.1 = t.1.wrapping_add(sign);
                    return true;
                }
            }
            if out.len() == LIN_MAX {
                return false;
            }
            out.push((e, sign));
        }
    }
    true
}
fn linear(op: Op, wd: u8, a: Ex, b: Ex) -> Option<Ex> {
    let sum = |e: Ex| matches!(node(e).op, Op::Add | Op::Sub);
    if a != b && !sum(a) && !sum(b) {
        return None;
    }
    if a == b && op == Op::Add {
        return None;
    }
    let mut out = vec![];
    let mut k = 0;
    if !lin_terms(a, wd, 1, &mut out, &mut k)
        || !lin_terms(b, wd, if op == Op::Add { 1 } else { 1u128.wrapping_neg() }, &mut out, &mut k)
    {
        return None;
    }
    let m = mask(wd);
    let one = 1u128;
    let neg = one.wrapping_neg();
    // only sums of plain terms; multiples stay as they are
    if out.iter().any(|t| t.1 != 0 && t.1 != one && t.1 != neg) {
        return None;
    }
    out.sort();
    let k = k & m;
    let mut r: Option<Ex> = None;
    for t in out.iter().filter(|t| t.1 == one) {
        r = Some(match r {
            None => t.0,
            Some(x) => {
                let (x, y) = if x > t.0 { (t.0, x) } else { (x, t.0) };
                raw(Op::Add, wd, x, y)
            }
        });
    }
    let mut k_left = k != 0;
    for t in out.iter().filter(|t| t.1 == neg) {
        r = Some(match r {
            None => {
                k_left = false;
                raw(Op::Sub, wd, konst(k, wd), t.0)
            }
            Some(x) => raw(Op::Sub, wd, x, t.0),
        });
    }
    Some(match r {
        None => konst(k, wd),
        Some(x) if k_left => raw(Op::Add, wd, x, konst(k, wd)),
        Some(x) => x,
    })
}

/// The sum `e` as multiples of terms, when it cannot overflow.
fn weighted(e: Ex, f: u128, out: &mut Vec<(Ex, u128)>, k: &mut u128) -> bool {
    let n = node(e);
    let m = mask(n.w);
    match n.op {
        Op::Const => match n.k.checked_mul(f).and_then(|x| k.checked_add(x)) {
            Some(x) => {
                *k = x;
                return true;
            }
            None => return false,
        },
        Op::Add if hi(n.a).checked_add(hi(n.b)).map_or(false, |x| x <= m) => {
            return weighted(n.a, f, out, k) && weighted(n.b, f, out, k);
        }
        Op::Mul => {
            for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                if let Some(c) = is_const(y) {
                    if hi(x).checked_mul(c).map_or(false, |p| p <= m) {
                        return match f.checked_mul(c) {
                            Some(g) => weighted(x, g, out, k),
                            None => false,
                        };
                    }
                }
            }
        }
        Op::Shl => {
            if let Some(c) = is_const(n.b) {
                if c < 64 && hi(n.a).checked_mul(1 << c).map_or(false, |p| p <= m) {
                    return match f.checked_mul(1 << c) {
                        Some(g) => weighted(n.a, g, out, k),
                        None => false,
                    };
                }
            }
        }
        _ => {}
    }
    for t in out.iter_mut() {
        if t.0 == e {
            t.1 += f;
            return true;
        }
    }
    if out.len() == 24 {
        return false;
    }
    out.push((e, f));
    true
}
/// Quotient and remainder of a sum of multiples by a constant, where the
/// terms that are not multiples of it stay below it.
fn split_div(a: Ex, c: u128, wd: u8) -> Option<(Ex, Ex)> {
    if wd > 64 || c < 2 || !matches!(node(a).op, Op::Add | Op::Mul) {
        return None;
    }
    let mut t = vec![];
    let mut k = 0u128;
    if !weighted(a, 1, &mut t, &mut k) || t.is_empty() {
        return None;
    }
    let mut whole: u128 = k;
    for &(e, f) in &t {
        whole = whole.checked_add(hi(e).checked_mul(f)?)?;
    }
    if whole > mask(wd) {
        return None;
    }
    let rest: u128 = k % c + t.iter().map(|&(e, f)| hi(e) * (f % c)).sum::<u128>();
    if rest >= c {
        return None;
    }
    t.sort();
    let sum = |g: &dyn Fn(u128) -> u128| {
        let mut s = konst(g(k), wd);
        for &(e, f) in &t {
            if g(f) != 0 {
                s = add(s, bin(Op::Mul, e, konst(g(f), wd)));
            }
        }
        s
    };
    Some((sum(&|x| x / c), sum(&|x| x % c)))
}

fn round_w(n: u8) -> u8 {
    // division widths are rounded so that equal sources keep equal shapes
    match n {
        0..=8 => 8,
        9..=16 => 16,
        17..=24 => 24,
        25..=32 => 32,
        33..=48 => 48,
        49..=64 => 64,
        65..=96 => 96,
        _ => 128,
    }
}

fn raw_div(op: Op, a: Ex, b: Ex) -> Ex {
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return konst(bin_concrete(op, w(a), x, y), w(a));
    }
    if is_const(b).is_some() || lo(b) > 0 {
        if hi(a) < lo(b) {
            return if op == Op::UDiv { konst(0, w(a)) } else { a };
        }
    }
    raw(op, w(a), a, b)
}

fn ite_cmp(op: Op, a: Ex, b: Ex) -> Option<Ex> {
    let na = node(a);
    let nb = node(b);
    if na.op == Op::Ite && is_const(b).is_some() && (is_const(na.b).is_some() || is_const(na.c).is_some()) {
        return Some(ite(na.a, bin(op, na.b, b), bin(op, na.c, b)));
    }
    if nb.op == Op::Ite && is_const(a).is_some() && (is_const(nb.b).is_some() || is_const(nb.c).is_some()) {
        return Some(ite(nb.a, bin(op, a, nb.b), bin(op, a, nb.c)));
    }
    None
}

/// a = low piece zero-extended, b = concat(y, zeros) (possibly zero-extended)
fn or_concat(a: Ex, b: Ex, wd: u8) -> Option<Ex> {
    let bits_a = (128 - hi(a).leading_zeros()) as u8;
    if bits_a == 0 || bits_a >= wd {
        return None;
    }
    // find number of trailing zero bits of b
    let tz = trailing_zero_bits(b);
    if tz >= bits_a && tz < wd {
        let low = extract(a, 0, tz);
        let high = extract(b, tz, wd - tz);
        return Some(concat(high, low));
    }
    None
}

fn trailing_zero_bits(e: Ex) -> u8 {
    let n = node(e);
    match n.op {
        Op::Const => {
            if n.k == 0 {
                n.w
            } else {
                n.k.trailing_zeros() as u8
            }
        }
        Op::Concat => {
            let t = trailing_zero_bits(n.b);
            if t == w(n.b) {
                t + trailing_zero_bits(n.a)
            } else {
                t
            }
        }
        Op::ZExt => {
            let t = trailing_zero_bits(n.a);
            if t == w(n.a) {
                n.w
            } else {
                t
            }
        }
        _ => 0,
    }
}

pub fn ite(c: Ex, a: Ex, b: Ex) -> Ex {
    debug_assert!(w(c) == 1);
    debug_assert_eq!(w(a), w(b));
    match is_const(c) {
        Some(1) => return a,
        Some(_) => return b,
        None => {}
    }
    if a == b {
        return a;
    }
    if let Some(x) = is_not(c) {
        return ite(x, b, a);
    }
    if w(a) == 1 {
        match (is_const(a), is_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not1(c),
            (Some(1), None) => return or1(c, b),
            (Some(0), None) => return and1(not1(c), b),
            (None, Some(0)) => return and1(c, a),
            (None, Some(1)) => return or1(not1(c), a),
            _ => {}
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Ite && na.a == c {
        return ite(c, na.b, b);
    }
    if nb.op == Op::Ite && nb.a == c {
        return ite(c, a, nb.c);
    }
    mk(Node { op: Op::Ite, w: w(a), a: c, b: a, c: b, k: 0 })
}

pub fn extract(a: Ex, low: u8, len: u8) -> Ex {
    let wa = w(a);
    debug_assert!(low as u32 + len as u32 <= wa as u32 && len > 0, "extract {} {} of {}", low, len, wa);
    if low == 0 && len == wa {
        return a;
    }
    let n = node(a);
    if len == 1 && low == wa - 1 && wa >= 32 && matches!(n.op, Op::Add | Op::Sub) {
        return slt(a, konst(0, wa));
    }
    match n.op {
        Op::Const => return konst(n.k >> low, len),
        Op::Extract => return extract(n.a, n.k as u8 + low, len),
        Op::ZExt | Op::SExt => {
            let iw = w(n.a);
            if low + len <= iw {
                return extract(n.a, low, len);
            }
            if n.op == Op::ZExt {
                if low >= iw {
                    return konst(0, len);
                }
                return zext(extract(n.a, low, iw - low), len);
            } else if low < iw {
                return sext(extract(n.a, low, iw - low), len);
            } else {
                return sext(extract(n.a, iw - 1, 1), len);
            }
        }
        Op::Concat => {
            let wl = w(n.b);
            if low >= wl {
                return extract(n.a, low - wl, len);
            }
            if low + len <= wl {
                return extract(n.b, low, len);
            }
            return concat(
                extract(n.a, 0, low + len - wl),
                extract(n.b, low, wl - low),
            );
        }
        Op::Ite => {
            if is_const(n.b).is_some() || is_const(n.c).is_some() {
                return ite(n.a, extract(n.b, low, len), extract(n.c, low, len));
            }
        }
        Op::And | Op::Or | Op::Xor => {
            if is_const(n.b).is_some() || low == 0 {
                return bin(n.op, extract(n.a, low, len), extract(n.b, low, len));
            }
        }
        Op::Add | Op::Sub | Op::Mul => {
            if low == 0 {
                return bin(n.op, extract(n.a, 0, len), extract(n.b, 0, len));
            }
        }
        _ => {}
    }
    if hi(a) >> low == 0 {
        return konst(0, len);
    }
    mk(Node { op: Op::Extract, w: len, a, b: 0, c: 0, k: low as u128 })
}

/// Extraction that keeps the source term visible, so that the bytes of a stored
/// value reassemble to that value.
pub fn extract_raw(a: Ex, low: u8, len: u8) -> Ex {
    let wa = w(a);
    if low == 0 && len == wa {
        return a;
    }
    let n = node(a);
    match n.op {
        Op::Const => return konst(n.k >> low, len),
        Op::Extract => return extract_raw(n.a, n.k as u8 + low, len),
        Op::ZExt => {
            let iw = w(n.a);
            if low + len <= iw {
                return extract_raw(n.a, low, len);
            }
            if low >= iw {
                return konst(0, len);
            }
            return zext(extract_raw(n.a, low, iw - low), len);
        }
        Op::Concat => {
            let wl = w(n.b);
            if low >= wl {
                return extract_raw(n.a, low - wl, len);
            }
            if low + len <= wl {
                return extract_raw(n.b, low, len);
            }
        }
        _ => {}
    }
    mk(Node { op: Op::Extract, w: len, a, b: 0, c: 0, k: low as u128 })
}

/// Simplify a freshly assembled memory value.
pub fn resimplify(e: Ex) -> Ex {
    let n = node(e);
    match n.op {
        Op::Extract => extract(n.a, n.k as u8, n.w),
        Op::ZExt => {
            let i = node(n.a);
            if i.op == Op::Extract {
                zext(extract(i.a, i.k as u8, i.w), n.w)
            } else {
                e
            }
        }
        _ => e,
    }
}

pub fn concat(a: Ex, b: Ex) -> Ex {
    let (wa, wb) = (w(a), w(b));
    let wd = wa + wb;
    debug_assert!(wa as u32 + wb as u32 <= 128);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return konst((x << wb) | y, wd);
    }
    if is_const(a) == Some(0) {
        return zext(b, wd);
    }
    let (na, nb) = (node(a), node(b));
    // adjacent extracts
    if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + wb as u128 {
        return extract_raw(na.a, nb.k as u8, wd);
    }
    // extract above the low part of x itself
    if na.op == Op::Extract && na.a == b && na.k == wb as u128 {
        // impossible widths, kept for completeness
    }
    if nb.op == Op::Concat {
        // concat(ext, concat(ext', rest)) with adjacent extracts
        let nbh = node(nb.a);
        if na.op == Op::Extract
            && nbh.op == Op::Extract
            && na.a == nbh.a
            && na.k == nbh.k + nbh.w as u128
        {
            return concat(extract_raw(na.a, nbh.k as u8, wa + nbh.w), nb.b);
        }
    }
    if na.op == Op::ZExt {
        // concat(zext x, y) = zext(concat(x,y))
        return zext(concat(na.a, b), wd);
    }
    mk(Node { op: Op::Concat, w: wd, a, b, c: 0, k: 0 })
}

pub fn zext(a: Ex, wd: u8) -> Ex {
    let wa = w(a);
    if wa == wd {
        return a;
    }
    debug_assert!(wa < wd);
    let n = node(a);
    match n.op {
        Op::Const => return konst(n.k, wd),
        Op::ZExt => return zext(n.a, wd),
        Op::Ite if is_const(n.b).is_some() && is_const(n.c).is_some() && wa > 1 => {
            return ite(n.a, zext(n.b, wd), zext(n.c, wd))
        }
        _ => {}
    }
    if wa == 1 {
        return ite(a, konst(1, wd), konst(0, wd));
    }
    mk(Node { op: Op::ZExt, w: wd, a, b: 0, c: 0, k: 0 })
}

pub fn sext(a: Ex, wd: u8) -> Ex {
    let wa = w(a);
    if wa == wd {
        return a;
    }
    let n = node(a);
    match n.op {
        Op::Const => return konst(sx(n.k, wa) as u128, wd),
        Op::SExt => return sext(n.a, wd),
        Op::Ite if is_const(n.b).is_some() && is_const(n.c).is_some() => {
            return ite(n.a, sext(n.b, wd), sext(n.c, wd))
        }
        _ => {}
    }
    if wa == 1 {
        return ite(a, konst(mask(wd), wd), konst(0, wd));
    }
    if hi(a) <= mask(wa) >> 1 {
        return zext(a, wd);
    }
    mk(Node { op: Op::SExt, w: wd, a, b: 0, c: 0, k: 0 })
}

pub const UF_NAMES: [&str; 12] = [
    "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "pow", "powi", "exp", "log", "fma",
];

pub fn uf_concrete(k: u32, a: u128, b: u128) -> u128 {
    let x = f64::from_bits(a as u64);
    let y = f64::from_bits(b as u64);
    let r = match k {
        0 => x.sin(),
        1 => x.cos(),
        2 => x.tan(),
        3 => x.asin(),
        4 => x.acos(),
        5 => x.atan(),
        6 => x.atan2(y),
        7 => x.powf(y),
        8 => powi(x, b as u32 as i32),
        9 => x.exp(),
        10 => x.ln(),
        _ => panic!("uf {}", k),
    };
    r.to_bits() as u128
}

/// compiler-rt's __powidf2
pub fn powi(a: f64, b: i32) -> f64 {
    let recip = b < 0;
    let mut pow = (b as i64).unsigned_abs() as u32;
    let mut a = a;
    let mut mul = 1.0;
    loop {
        if pow & 1 != 0 {
            mul *= a;
        }
        pow >>= 1;
        if pow == 0 {
            break;
        }
        a *= a;
    }
    if recip {
        1.0 / mul
    } else {
        mul
    }
}

fn finite(e: Ex) -> bool {
    let n = node(e);
    match n.op {
        Op::SIToF | Op::UIToF => w(n.a) <= 64,
        Op::FDiv => finite(n.a) && is_const(n.b).map_or(false, |k| f64::from_bits(k as u64) >= 1.0 && k < 0x7ff0 << 48),
        _ => false,
    }
}
fn never_nan(e: Ex) -> bool {
    let n = node(e);
    finite(e) || (matches!(n.op, Op::FAdd | Op::FSub | Op::FMul) && finite(n.a) && finite(n.b))
}

pub fn fop2(op: Op, a: Ex, b: Ex) -> Ex {
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        let rw = match op {
            Op::FEq | Op::FLt | Op::FLe => 1,
            _ => 64,
        };
        return konst(f_concrete(op, 64, x, y), rw);
    }
    match op {
        Op::FEq | Op::FLt | Op::FLe => {
            let (mut a, mut b) = (a, b);
            if op == Op::FEq && a > b {
                std::mem::swap(&mut a, &mut b);
            }
            raw(op, 1, a, b)
        }
        Op::FAdd | Op::FMul => {
            // commutative: NaN results are canonical
            let (mut a, mut b) = (a, b);
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            for (x, y) in [(a, b), (b, a)] {
                let made = matches!(
                    node(y).op,
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::SIToF | Op::UIToF
                );
                if op == Op::FMul && is_const(x) == Some(1f64.to_bits() as u128) && made {
                    return y;
                }
                if op == Op::FMul && is_const(x) == Some((-1f64).to_bits() as u128) && never_nan(y) {
                    return add(y, konst(1 << 63, 64));
                }
                // x + 0 is x unless x is -0
                if op == Op::FAdd && is_const(x) == Some(0) && matches!(node(y).op, Op::SIToF | Op::UIToF) {
                    return y;
                }
            }
            raw(op, 64, a, b)
        }
        _ => raw(op, 64, a, b),
    }
}

pub fn fop1(op: Op, a: Ex, rw: u8) -> Ex {
    if let Some(x) = is_const(a) {
        return konst(
            match op {
                Op::SIToF => (sx(x, w(a)) as f64).to_bits() as u128,
                Op::UIToF => (x as f64).to_bits() as u128,
                _ => f_concrete(op, rw, x, 0),
            },
            rw,
        );
    }
    raw(op, rw, a, 0)
}

pub fn uf(k: u32, a: Ex, b: Ex) -> Ex {
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return konst(uf_concrete(k, x, y), 64);
    }
    mk(Node { op: Op::Uf, w: 64, a, b, c: 0, k: k as u128 })
}

// ---------------------------------------------------------------- models

#[derive(Default)]
pub struct Model {
    pub vars: HashMap<u32, u128>,                 // var index -> value
    pub sels: HashMap<(u32, u64), u128>,          // (array, index) -> byte
    pub ufs: HashMap<(u32, u128, u128), u128>,    // function application
    pub memo: HashMap<Ex, u128>,
}

impl Model {
    pub fn eval(&mut self, e: Ex) -> u128 {
        let n = node(e);
        if n.op == Op::Const {
            return n.k;
        }
        if let Some(&v) = self.memo.get(&e) {
            return v;
        }
        let mut stack = vec![e];
        while let Some(&t) = stack.last() {
            if self.memo.contains_key(&t) {
                stack.pop();
                continue;
            }
            let n = node(t);
            let kids: &[Ex] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Ite => &[n.a, n.b, n.c][..],
                Op::Extract | Op::ZExt | Op::SExt | Op::Sel | Op::FSqrt | Op::FFloor | Op::FCeil
                | Op::FRound | Op::FTrunc | Op::FRint | Op::FToSI | Op::FToUI | Op::SIToF
                | Op::UIToF | Op::F32To64 | Op::F64To32 => &[n.a][..],
                _ => &[n.a, n.b][..],
            };
            let kids: Vec<Ex> = kids.to_vec();
            let mut ready = true;
            for k in kids {
                if node(k).op != Op::Const && !self.memo.contains_key(&k) {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let g = |m: &Model, x: Ex| -> u128 {
                let nn = node(x);
                if nn.op == Op::Const {
                    nn.k
                } else {
                    m.memo[&x]
                }
            };
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => *self.vars.get(&(n.k as u32)).unwrap_or(&0) & mask(n.w),
                Op::Ite => {
                    if g(self, n.a) == 1 {
                        g(self, n.b)
                    } else {
                        g(self, n.c)
                    }
                }
                Op::Concat => (g(self, n.a) << w(n.b)) | g(self, n.b),
                Op::Extract => (g(self, n.a) >> n.k) & mask(n.w),
                Op::ZExt => g(self, n.a),
                Op::SExt => (sx(g(self, n.a), w(n.a)) as u128) & mask(n.w),
                Op::Sel => {
                    let i = g(self, n.a) as u64;
                    let arr = n.k as u32;
                    match self.sels.get(&(arr, i)) {
                        Some(&v) => v,
                        None => {
                            let kn = cx().arrs[arr as usize].known.clone();
                            match kn.and_then(|f| f(i)) {
                                Some(e) => {
                                    let v = self.eval(e);
                                    v
                                }
                                None => 0,
                            }
                        }
                    }
                }
                Op::Uf => {
                    let (x, y) = (g(self, n.a), g(self, n.b));
                    match self.ufs.get(&(n.k as u32, x, y)) {
                        Some(&v) => v,
                        None => uf_concrete(n.k as u32, x, y),
                    }
                }
                Op::SIToF => (sx(g(self, n.a), w(n.a)) as f64).to_bits() as u128,
                Op::UIToF => (g(self, n.a) as f64).to_bits() as u128,
                Op::FSqrt | Op::FFloor | Op::FCeil | Op::FRound | Op::FTrunc | Op::FRint
                | Op::FToSI | Op::FToUI | Op::F32To64 | Op::F64To32 => {
                    f_concrete(n.op, n.w, g(self, n.a), 0)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe => {
                    f_concrete(n.op, n.w, g(self, n.a), g(self, n.b))
                }
                _ => bin_concrete(n.op, w(n.a), g(self, n.a), g(self, n.b)),
            };
            self.memo.insert(t, v);
        }
        self.memo[&e]
    }
}

/// For debugging.
pub fn show(e: Ex, depth: u32) -> String {
    let n = node(e);
    if n.op == Op::Const {
        return format!("{:x}:{}", n.k, n.w);
    }
    if depth == 0 {
        return format!("e{}", e);
    }
    let ks: Vec<String> = kids(n).iter().map(|&k| show(k, depth - 1)).collect();
    match n.op {
        Op::Var => format!("v{}:{}", n.k, n.w),
        _ => format!("{:?}{}:{}({})", n.op, if n.k != 0 { format!("#{}", n.k) } else { String::new() }, n.w, ks.join(" ")),
    }
}

// ---------------------------------------------------------------- SMT text

pub fn sort(w: u8) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}

pub fn const_smt(k: u128, w: u8) -> String {
    if w == 1 {
        return if k == 1 { "true".into() } else { "false".into() };
    }
    format!("(_ bv{} {})", k, w)
}

pub fn term(e: Ex) -> String {
    let n = node(e);
    match n.op {
        Op::Const => const_smt(n.k, n.w),
        Op::Var => format!("v{}", n.k),
        _ => format!("e{}", e),
    }
}

pub fn kids(n: &Node) -> Vec<Ex> {
    match n.op {
        Op::Const | Op::Var => vec![],
        Op::Ite => vec![n.a, n.b, n.c],
        Op::Extract | Op::ZExt | Op::SExt | Op::Sel | Op::FSqrt | Op::FFloor | Op::FCeil
        | Op::FRound | Op::FTrunc | Op::FRint | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF
        | Op::F32To64 | Op::F64To32 => vec![n.a],
        _ => vec![n.a, n.b],
    }
}

fn bvterm(e: Ex) -> String {
    // a width-1 term used where a bit vector is needed
    if w(e) == 1 {
        format!("(ite {} #b1 #b0)", term(e))
    } else {
        term(e)
    }
}

/// Body of the definition of a non-leaf node.
pub fn body(e: Ex) -> String {
    let n = node(e);
    let a = || term(n.a);
    let b = || term(n.b);
    let fp = |x: Ex| {
        if w(x) == 32 {
            format!("((_ to_fp 8 24) {})", term(x))
        } else {
            format!("((_ to_fp 11 53) {})", term(x))
        }
    };
    let s = match n.op {
        Op::Add => format!("(bvadd {} {})", a(), b()),
        Op::Sub => format!("(bvsub {} {})", a(), b()),
        Op::Mul => format!("(bvmul {} {})", a(), b()),
        Op::UDiv => format!("(bvudiv {} {})", a(), b()),
        Op::URem => format!("(bvurem {} {})", a(), b()),
        Op::SDiv => format!("(bvsdiv {} {})", a(), b()),
        Op::SRem => format!("(bvsrem {} {})", a(), b()),
        Op::And => {
            if n.w == 1 {
                format!("(and {} {})", a(), b())
            } else {
                format!("(bvand {} {})", a(), b())
            }
        }
        Op::Or => {
            if n.w == 1 {
                format!("(or {} {})", a(), b())
            } else {
                format!("(bvor {} {})", a(), b())
            }
        }
        Op::Xor => {
            if n.w == 1 {
                if is_const(n.b) == Some(1) {
                    format!("(not {})", a())
                } else {
                    format!("(xor {} {})", a(), b())
                }
            } else if is_const(n.b) == Some(mask(n.w)) {
                format!("(bvnot {})", a())
            } else {
                format!("(bvxor {} {})", a(), b())
            }
        }
        Op::Shl => format!("(bvshl {} {})", a(), b()),
        Op::LShr => format!("(bvlshr {} {})", a(), b()),
        Op::AShr => format!("(bvashr {} {})", a(), b()),
        Op::Eq => format!("(= {} {})", a(), b()),
        Op::Ult => format!("(bvult {} {})", a(), b()),
        Op::Slt => format!("(bvslt {} {})", a(), b()),
        Op::Ite => format!("(ite {} {} {})", a(), b(), term(n.c)),
        Op::Concat => format!("(concat {} {})", bvterm(n.a), bvterm(n.b)),
        Op::Extract => {
            let x = format!("((_ extract {} {}) {})", n.k as u32 + n.w as u32 - 1, n.k, a());
            if n.w == 1 {
                format!("(= {} #b1)", x)
            } else {
                x
            }
        }
        Op::ZExt => format!("((_ zero_extend {}) {})", n.w - w(n.a), a()),
        Op::SExt => format!("((_ sign_extend {}) {})", n.w - w(n.a), a()),
        Op::Sel => format!("(A{} {})", n.k, a()),
        Op::FAdd => ieee(format!("(fp.add RNE {} {})", fp(n.a), fp(n.b)), n.w),
        Op::FSub => ieee(format!("(fp.sub RNE {} {})", fp(n.a), fp(n.b)), n.w),
        Op::FMul => ieee(format!("(fp.mul RNE {} {})", fp(n.a), fp(n.b)), n.w),
        Op::FDiv => ieee(format!("(fp.div RNE {} {})", fp(n.a), fp(n.b)), n.w),
        Op::FSqrt => ieee(format!("(fp.sqrt RNE {})", fp(n.a)), n.w),
        Op::FFloor => ieee(format!("(fp.roundToIntegral RTN {})", fp(n.a)), n.w),
        Op::FCeil => ieee(format!("(fp.roundToIntegral RTP {})", fp(n.a)), n.w),
        Op::FRound => ieee(format!("(fp.roundToIntegral RNA {})", fp(n.a)), n.w),
        Op::FTrunc => ieee(format!("(fp.roundToIntegral RTZ {})", fp(n.a)), n.w),
        Op::FRint => ieee(format!("(fp.roundToIntegral RNE {})", fp(n.a)), n.w),
        Op::FEq => format!("(fp.eq {} {})", fp(n.a), fp(n.b)),
        Op::FLt => format!("(fp.lt {} {})", fp(n.a), fp(n.b)),
        Op::FLe => format!("(fp.leq {} {})", fp(n.a), fp(n.b)),
        Op::FToSI => {
            let half = 1u128 << (n.w - 1);
            let min = sx(half, n.w) as f64;
            let max = (half as f64).to_bits();
            format!(
                "(ite (fp.isNaN {x}) {zero} (ite (fp.leq {x} ((_ to_fp 11 53) (_ bv{mn} 64))) {smin} (ite (fp.geq {x} ((_ to_fp 11 53) (_ bv{mx} 64))) {smax} ((_ fp.to_sbv {w}) RTZ {x}))))",
                x = fp(n.a), zero = const_smt(0, n.w), mn = min.to_bits(), mx = max,
                smin = const_smt(half, n.w), smax = const_smt(half - 1, n.w), w = n.w
            )
        }
        Op::FToUI => {
            let max = (mask(n.w) as f64).to_bits();
            format!(
                "(ite (or (fp.isNaN {x}) (fp.leq {x} ((_ to_fp 11 53) (_ bv0 64)))) {zero} (ite (fp.geq {x} ((_ to_fp 11 53) (_ bv{mx} 64))) {umax} ((_ fp.to_ubv {w}) RTZ {x})))",
                x = fp(n.a), zero = const_smt(0, n.w), mx = max, umax = const_smt(mask(n.w), n.w), w = n.w
            )
        }
        Op::SIToF => ieee(format!("((_ to_fp 11 53) RNE {})", a()), n.w),
        Op::UIToF => ieee(format!("((_ to_fp_unsigned 11 53) RNE {})", a()), n.w),
        Op::F32To64 => ieee(format!("((_ to_fp 11 53) RNE {})", fp(n.a)), n.w),
        Op::F64To32 => ieee(format!("((_ to_fp 8 24) RNE {})", fp(n.a)), n.w),
        Op::Uf => format!("(f_{} {} {})", UF_NAMES[n.k as usize], a(), uf_arg2(n)),
        Op::Const | Op::Var => unreachable!(),
    };
    s
}

fn ieee(x: String, w: u8) -> String {
    let nan = if w == 32 { "#x7fc00000" } else { "#x7ff8000000000000" };
    format!("(let ((x {})) (ite (fp.isNaN x) {} (fp.to_ieee_bv x)))", x, nan)
}

fn uf_arg2(n: &Node) -> String {
    if w(n.b) < 64 {
        format!("((_ zero_extend {}) {})", 64 - w(n.b), term(n.b))
    } else {
        term(n.b)
    }
}
