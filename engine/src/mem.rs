//! Memory: a set of objects at concrete addresses, copy-on-write at page level.

use crate::expr::*;
use crate::ir::V;
use std::rc::Rc;

pub const PS: usize = 256;

#[derive(Clone)]
pub struct Page {
    pub b: [u8; PS],
    pub s: Option<Box<[Ex; PS]>>, // 0: concrete
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Const,
    Global,
    Stack,
    Heap,
    Big,
    Freed,
}

#[derive(Clone)]
pub struct LogEnt {
    pub off: Ex, // 64-bit offset of the first byte
    pub lo: u64, // bounds of off on this path
    pub hi: u64,
    pub bytes: Rc<Vec<Ex>>, // width-8 values
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub kind: Kind,
    pub pages: Vec<Option<Rc<Page>>>,
    pub log: Vec<LogEnt>,
    /// Array standing for the current base contents, and whether it is current.
    pub snap: Option<u32>,
    /// All writes go to the log (large havocked region).
    pub logged: bool,
}

pub fn to_ex(v: &V, w: u8) -> Ex {
    match v {
        V::C(k) => konst(*k, w),
        V::S(e) => {
            debug_assert_eq!(crate::expr::w(*e), w);
            *e
        }
        V::A(_) => panic!("aggregate used as scalar"),
    }
}
pub fn from_ex(e: Ex) -> V {
    match is_const(e) {
        Some(k) => V::C(k),
        None => V::S(e),
    }
}

impl Obj {
    pub fn new(base: u64, size: u64, kind: Kind) -> Obj {
        Obj {
            base,
            size,
            kind,
            pages: vec![None; ((size as usize) + PS - 1) / PS],
            log: vec![],
            snap: None,
            logged: false,
        }
    }

    pub fn with_bytes(base: u64, kind: Kind, b: &[u8]) -> Obj {
        let mut o = Obj::new(base, b.len() as u64, kind);
        for (i, ch) in b.chunks(PS).enumerate() {
            if ch.iter().any(|&x| x != 0) {
                let mut p = Page { b: [0; PS], s: None };
                p.b[..ch.len()].copy_from_slice(ch);
                o.pages[i] = Some(Rc::new(p));
            }
        }
        o
    }

    /// Byte of the base contents (log ignored), as an expression.
    pub fn base_byte(&self, off: u64) -> Ex {
        match &self.pages[off as usize / PS] {
            None => konst(0, 8),
            Some(p) => {
                let i = off as usize % PS;
                if let Some(s) = &p.s {
                    if s[i] != 0 {
                        return s[i];
                    }
                }
                konst(p.b[i] as u128, 8)
            }
        }
    }

    /// Concrete byte of the base contents, if it is concrete.
    fn base_conc(&self, off: u64) -> Option<u8> {
        match &self.pages[off as usize / PS] {
            None => Some(0),
            Some(p) => {
                let i = off as usize % PS;
                if let Some(s) = &p.s {
                    if s[i] != 0 {
                        return None;
                    }
                }
                Some(p.b[i])
            }
        }
    }

    pub fn read(&self, off: u64, n: usize) -> V {
        if self.log.is_empty() {
            let pi = off as usize / PS;
            let i = off as usize % PS;
            if i + n <= PS && n <= 16 {
                match &self.pages[pi] {
                    None => return V::C(0),
                    Some(p) if p.s.is_none() => {
                        let mut t = [0u8; 16];
                        t[..n].copy_from_slice(&p.b[i..i + n]);
                        return V::C(u128::from_le_bytes(t));
                    }
                    _ => {}
                }
            }
            let mut t = [0u8; 16];
            let mut conc = true;
            for k in 0..n {
                match self.base_conc(off + k as u64) {
                    Some(b) => t[k] = b,
                    None => {
                        conc = false;
                        break;
                    }
                }
            }
            if conc {
                return V::C(u128::from_le_bytes(t));
            }
        }
        let mut e = self.byte_at(off + n as u64 - 1);
        for k in (0..n as u64 - 1).rev() {
            e = concat(e, self.byte_at(off + k));
        }
        from_ex(resimplify(e))
    }

    /// Byte at a concrete offset, log included.
    pub fn byte_at(&self, off: u64) -> Ex {
        if self.log.is_empty() {
            return self.base_byte(off);
        }
        self.log_byte(konst(off as u128, 64), off, off, self.log.len(), &mut |_| self.base_byte(off))
    }

    /// Value of the byte at `off` (bounded by lo..=hi) after the first `upto`
    /// log entries.
    pub fn log_byte(
        &self,
        off: Ex,
        lo: u64,
        hi: u64,
        upto: usize,
        base: &mut dyn FnMut(Ex) -> Ex,
    ) -> Ex {
        // collect candidate layers from the newest down
        let mut layers: Vec<(Ex, Ex)> = vec![]; // (condition, value)
        let mut under: Option<Ex> = None;
        'outer: for i in (0..upto).rev() {
            let l = &self.log[i];
            let n = l.bytes.len() as u64;
            if hi < l.lo || lo > l.hi + (n - 1) {
                continue;
            }
            for k in 0..n {
                let c = eq(off, add(l.off, konst(k as u128, 64)));
                match is_const(c) {
                    Some(0) => {}
                    Some(_) => {
                        under = Some(l.bytes[k as usize]);
                        break 'outer;
                    }
                    None => layers.push((c, l.bytes[k as usize])),
                }
            }
        }
        let mut v = match under {
            Some(u) => u,
            None => base(off),
        };
        for (c, x) in layers.into_iter().rev() {
            v = ite(c, x, v);
        }
        v
    }

    fn page_mut(&mut self, pi: usize) -> &mut Page {
        let p = &mut self.pages[pi];
        if p.is_none() {
            *p = Some(Rc::new(Page { b: [0; PS], s: None }));
        }
        Rc::make_mut(p.as_mut().unwrap())
    }

    pub fn write_base_byte(&mut self, off: u64, e: Ex) {
        self.snap = None;
        let p = self.page_mut(off as usize / PS);
        let i = off as usize % PS;
        match is_const(e) {
            Some(k) => {
                p.b[i] = k as u8;
                if let Some(s) = &mut p.s {
                    s[i] = 0;
                }
            }
            None => {
                if p.s.is_none() {
                    p.s = Some(Box::new([0; PS]));
                }
                p.s.as_mut().unwrap()[i] = e;
            }
        }
    }

    pub fn write(&mut self, off: u64, n: usize, v: &V) {
        if self.logged || !self.log.is_empty() {
            let e = to_ex(v, (n * 8) as u8);
            let bytes: Vec<Ex> = (0..n).map(|k| extract_raw(e, 8 * k as u8, 8)).collect();
            self.log_write(konst(off as u128, 64), off, off, bytes);
            return;
        }
        self.snap = None;
        match v {
            V::C(k) => {
                let t = k.to_le_bytes();
                let mut done = 0;
                while done < n {
                    let o = off as usize + done;
                    let i = o % PS;
                    let m = (PS - i).min(n - done);
                    let p = self.page_mut(o / PS);
                    p.b[i..i + m].copy_from_slice(&t[done..done + m]);
                    if let Some(s) = &mut p.s {
                        for x in &mut s[i..i + m] {
                            *x = 0;
                        }
                    }
                    done += m;
                }
            }
            V::S(e) => {
                for k in 0..n {
                    self.write_base_byte(off + k as u64, extract_raw(*e, 8 * k as u8, 8));
                }
            }
            V::A(_) => panic!("aggregate store"),
        }
    }

    pub fn log_write(&mut self, off: Ex, lo: u64, hi: u64, bytes: Vec<Ex>) {
        // a concrete write exactly over an older concrete entry with nothing
        // symbolic after it replaces that entry
        if lo == hi {
            let n = bytes.len() as u64;
            for i in (0..self.log.len()).rev() {
                let l = &self.log[i];
                if l.lo == l.hi && l.lo == lo && l.bytes.len() as u64 == n {
                    self.log[i].bytes = Rc::new(bytes);
                    return;
                }
                // overlap with anything else stops the search
                if !(hi + n - 1 < l.lo || lo > l.hi + l.bytes.len() as u64 - 1) {
                    break;
                }
            }
        }
        self.log.push(LogEnt { off, lo, hi, bytes: Rc::new(bytes) });
    }

    /// Array with the base contents.
    pub fn snapshot(&mut self) -> u32 {
        if let Some(a) = self.snap {
            return a;
        }
        let mut copy = self.clone();
        copy.log.clear();
        let size = copy.size;
        let a = new_arr(
            "snap",
            Some(Rc::new(move |i: u64| if i < size { Some(copy.base_byte(i)) } else { None })),
        );
        self.snap = Some(a);
        a
    }
}

/// Objects of one region, ordered by address.
#[derive(Clone, Default)]
pub struct Table {
    pub chunks: Vec<Rc<Vec<(u64, u64, Rc<Obj>)>>>,
    pub len: usize,
}

pub const CH: usize = 64;

impl Table {
    pub fn push(&mut self, o: Obj) -> usize {
        if self.len % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        let c = Rc::make_mut(self.chunks.last_mut().unwrap());
        c.push((o.base, o.size, Rc::new(o)));
        self.len += 1;
        self.len - 1
    }
    pub fn truncate(&mut self, n: usize) {
        while self.len > n {
            let c = Rc::make_mut(self.chunks.last_mut().unwrap());
            c.pop();
            if c.is_empty() {
                self.chunks.pop();
            }
            self.len -= 1;
        }
    }
    pub fn get(&self, i: usize) -> &Obj {
        &self.chunks[i / CH][i % CH].2
    }
    pub fn get_mut(&mut self, i: usize) -> &mut Obj {
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        Rc::make_mut(&mut c[i % CH].2)
    }
    pub fn set_size(&mut self, i: usize, size: u64) {
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        c[i % CH].1 = size;
    }
    /// Object containing `a` (one past the end included for zero-size reads).
    pub fn find(&self, a: u64) -> Option<usize> {
        if self.len == 0 {
            return None;
        }
        let ci = match self.chunks.binary_search_by(|c| c[0].0.cmp(&a)) {
            Ok(i) => i,
            Err(0) => return None,
            Err(i) => i - 1,
        };
        let c = &self.chunks[ci];
        let oi = match c.binary_search_by(|o| o.0.cmp(&a)) {
            Ok(i) => i,
            Err(0) => return None,
            Err(i) => i - 1,
        };
        let o = &c[oi];
        if a - o.0 < o.1 {
            Some(ci * CH + oi)
        } else {
            None
        }
    }
}

pub const STACK_BASE: u64 = 0x0000_7000_0000;
pub const HEAP_BASE: u64 = 0x0001_0000_0000;
pub const BIG_BASE: u64 = 0x1000_0000_0000;
pub const BIG_STEP: u64 = 0x0000_1000_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reg {
    Const,
    Glob,
    Stack,
    Heap,
    Big,
}
pub type Loc = (Reg, usize);

#[derive(Clone)]
pub struct Mem {
    pub consts: Rc<Table>,
    pub globs: Table,
    pub stack: Table,
    pub heap: Table,
    pub big: Table,
    pub sp: u64,
    pub hp: u64,
}

impl Mem {
    pub fn find(&self, a: u64) -> Option<Loc> {
        if a >= BIG_BASE {
            self.big.find(a).map(|i| (Reg::Big, i))
        } else if a >= HEAP_BASE {
            self.heap.find(a).map(|i| (Reg::Heap, i))
        } else if a >= STACK_BASE {
            self.stack.find(a).map(|i| (Reg::Stack, i))
        } else if a >= crate::ir::GLOB_BASE {
            self.globs.find(a).map(|i| (Reg::Glob, i))
        } else if a >= crate::ir::CONST_BASE {
            self.consts.find(a).map(|i| (Reg::Const, i))
        } else {
            None
        }
    }
    pub fn get(&self, l: Loc) -> &Obj {
        match l.0 {
            Reg::Const => self.consts.get(l.1),
            Reg::Glob => self.globs.get(l.1),
            Reg::Stack => self.stack.get(l.1),
            Reg::Heap => self.heap.get(l.1),
            Reg::Big => self.big.get(l.1),
        }
    }
    pub fn get_mut(&mut self, l: Loc) -> Option<&mut Obj> {
        match l.0 {
            Reg::Const => None,
            Reg::Glob => Some(self.globs.get_mut(l.1)),
            Reg::Stack => Some(self.stack.get_mut(l.1)),
            Reg::Heap => Some(self.heap.get_mut(l.1)),
            Reg::Big => Some(self.big.get_mut(l.1)),
        }
    }
    pub fn malloc(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let base = (self.hp + 32 + al - 1) / al * al;
        self.hp = base + size;
        self.heap.push(Obj::new(base, size.max(1), Kind::Heap));
        base
    }
    pub fn big_alloc(&mut self, size: u64) -> u64 {
        let base = BIG_BASE + self.big.len as u64 * BIG_STEP;
        self.big.push(Obj::new(base, size, Kind::Big));
        base
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(8);
        let base = (self.sp + 16 + al - 1) / al * al;
        self.sp = base + size;
        self.stack.push(Obj::new(base, size.max(1), Kind::Stack));
        base
    }
}

impl Obj {
    /// Up to 16 bytes: a concrete value, or the separate bytes.
    pub fn read_group(&self, off: u64, n: usize) -> V {
        let pi = off as usize / PS;
        let i = off as usize % PS;
        if i + n <= PS {
            match &self.pages[pi] {
                None => return V::C(0),
                Some(p) if p.s.is_none() => {
                    let mut t = [0u8; 16];
                    t[..n].copy_from_slice(&p.b[i..i + n]);
                    return V::C(u128::from_le_bytes(t));
                }
                _ => {}
            }
        }
        V::A(Rc::new((0..n as u64).map(|k| from_ex(self.base_byte(off + k))).collect()))
    }

    pub fn fill(&mut self, off: u64, n: u64, b: Ex) {
        self.snap = None;
        let mut i = 0;
        while i < n {
            let o = (off + i) as usize;
            if is_const(b) == Some(0) && o % PS == 0 && n - i >= PS as u64 {
                self.pages[o / PS] = None;
                i += PS as u64;
            } else {
                self.write_base_byte(off + i, b);
                i += 1;
            }
        }
    }
}
