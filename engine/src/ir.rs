//! Parser for the textual LLVM IR emitted by rustc (whole program, fat LTO).
//! Globals and functions get their addresses first; function bodies are parsed
//! lazily, when the executor first calls them.

use crate::expr::Ex;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(Ex),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => 16,
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let al = self.align();
                (b + al - 1) / al * al
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let f = match self {
                    Ty::Struct(f, _) => f.len(),
                    _ => 0,
                };
                let end = self.field_off(f);
                let al = self.align();
                (end + al - 1) / al * al
            }
            Ty::Vec(n, t) => ((*n as u64) * (t.bits() as u64) + 7) / 8,
        }
    }
    /// Offset of field i; for i == number of fields, the unpadded end.
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !*packed {
                        let al = t.align();
                        o = (o + al - 1) / al * al;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FP {
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
    False,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast, ptrtoint, inttoptr at equal width handled as zext/trunc
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Reg(O),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { d: u32, size: u64, align: u64, n: O },
    Load { d: u32, ty: Ty, p: O },
    Store { ty: Ty, v: O, p: O },
    Gep { d: u32, base: O, off: u64, terms: Vec<(O, u32, u64)> },
    Bin { d: u32, op: B, w: u32, a: O, b: O, vec: bool },
    FBin { d: u32, op: u8, w: u32, a: O, b: O }, // + - * / %
    FNeg { d: u32, w: u32, a: O },
    ICmp { d: u32, p: P, w: u32, a: O, b: O, vec: bool },
    FCmp { d: u32, p: FP, w: u32, a: O, b: O },
    Cast { d: u32, k: Cast, from: Ty, to: Ty, a: O },
    Select { d: u32, c: O, a: O, b: O, ty: Ty },
    Call { d: Option<u32>, callee: Callee, args: Vec<(O, Ty)>, ret: Ty, normal: Option<u32> },
    Extract { d: u32, a: O, idx: Vec<u32> },
    Insert { d: u32, a: O, v: O, idx: Vec<u32>, ty: Ty },
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u32, u32, Rc<Vec<(u128, u32)>>), // value, width, default, cases
    Ret(Option<O>),
    Unreachable,
    Rmw { d: u32, op: String, ty: Ty, p: O, v: O },
    CmpXchg { d: u32, ty: Ty, p: O, c: O, n: O },
    Freeze { d: u32, a: O },
    InsEl { d: u32, a: O, v: O, i: O, ty: Ty },
    ExtEl { d: u32, a: O, i: O },
    Shuf { d: u32, a: O, b: O, m: Vec<u32> },
    Nop,
    Bad(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub code: Vec<I>,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub n_insts: usize,
}

pub struct FnDecl {
    pub name: String,
    pub pretty: String,
    pub addr: u64,
    pub body: Option<(usize, usize)>, // line range of the define
    pub parsed: Option<&'static Func>,
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub line: usize,
    pub init_at: usize, // byte position of the type on its line
    pub ty: Ty,
    pub external: bool,
}

pub struct Module {
    pub lines: Vec<&'static str>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub glob_by_name: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
}

pub const FN_BASE: u64 = 0x0000_2000_0000;
pub const CONST_BASE: u64 = 0x0000_4000_0000;
pub const GLOB_BASE: u64 = 0x0000_6000_0000;

pub struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Cur<'a> {
    pub fn new(s: &'a str, i: usize) -> Cur<'a> {
        Cur { s: s.as_bytes(), i }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!(
                "expected '{}' at {} in: {}",
                c as char,
                self.i,
                String::from_utf8_lossy(self.s)
            );
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric()
                || self.s[self.i] == b'_'
                || self.s[self.i] == b'.'
                || self.s[self.i] == b'-'
                || self.s[self.i] == b'$')
        {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn try_word(&mut self, w: &str) -> bool {
        let save = self.i;
        if self.word() == w {
            true
        } else {
            self.i = save;
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// %name or @name: the text after the sigil
    fn name(&mut self) -> String {
        self.ws();
        self.i += 1;
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i = st;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            self.word().to_string()
        }
    }
}

fn is_type_start(w: &str) -> bool {
    matches!(w, "ptr" | "void" | "double" | "float" | "half" | "label" | "metadata" | "token" | "opaque")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn load(text: &'static str) -> Module {
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines,
            fns: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            glob_by_name: HashMap::new(),
            types: HashMap::new(),
        };
        let mut caddr = CONST_BASE;
        let mut gaddr = GLOB_BASE;
        let mut i = 0;
        let mut last_comment = String::new();
        let n = m.lines.len();
        while i < n {
            let l = m.lines[i];
            if l.starts_with('%') {
                let mut c = Cur::new(l, 0);
                let nm = c.name();
                c.expect(b'=');
                c.word();
                let t = m.ty(&mut c);
                m.types.insert(nm, t);
            } else if l.starts_with('@') {
                let mut c = Cur::new(l, 0);
                let nm = c.name();
                c.expect(b'=');
                let mut constant = false;
                let mut external = false;
                loop {
                    let save = c.i;
                    let w = c.word();
                    match w {
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "alias" => panic!("alias {}", nm),
                        "" => {
                            if c.peek() == b'(' {
                                c.skip_parens();
                            } else {
                                panic!("global {}", l)
                            }
                        }
                        _ => {}
                    }
                    let _ = save;
                }
                let at = c.i;
                let ty = m.ty(&mut c);
                let size = ty.size().max(1);
                let base = if constant { &mut caddr } else { &mut gaddr };
                *base = (*base + 31) / 16 * 16;
                let addr = *base;
                *base += size;
                m.glob_by_name.insert(nm.clone(), m.globals.len() as u32);
                m.globals.push(Global { name: nm, addr, size, constant, line: i, init_at: at, ty, external });
            } else if l.starts_with("define") || l.starts_with("declare") {
                let is_def = l.starts_with("define");
                let p = l.find('@').unwrap();
                let mut c = Cur::new(l, p);
                let nm = c.name();
                let start = i;
                if is_def {
                    while m.lines[i] != "}" {
                        i += 1;
                    }
                }
                let id = m.fns.len() as u32;
                m.fn_by_name.insert(nm.clone(), id);
                m.fns.push(FnDecl {
                    name: nm,
                    pretty: std::mem::take(&mut last_comment),
                    addr: FN_BASE + 16 * (id as u64 + 1),
                    body: if is_def { Some((start, i)) } else { None },
                    parsed: None,
                    weak: l[..p].contains("extern_weak"),
                });
            }
            if l.starts_with(';') {
                if !l.starts_with("; Function Attrs") {
                    last_comment = l[1..].trim().to_string();
                }
            } else {
                last_comment.clear();
            }
            i += 1;
        }
        m
    }

    pub fn ty(&self, c: &mut Cur) -> Ty {
        match c.peek() {
            b'{' => {
                c.i += 1;
                let mut f = vec![];
                if !c.eat(b'}') {
                    loop {
                        f.push(self.ty(c));
                        if c.eat(b'}') {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            b'[' => {
                c.i += 1;
                let n: u64 = c.word().parse().unwrap();
                c.word(); // x
                let t = self.ty(c);
                c.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    let t = self.ty(c);
                    c.expect(b'>');
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n: u32 = c.word().parse().unwrap();
                    c.word();
                    let t = self.ty(c);
                    c.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                let n = c.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if c.try_word("addrspace") {
                            c.ws();
                            c.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "label" | "metadata" | "token" | "half" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| {
                        panic!("type {} in {}", w, String::from_utf8_lossy(c.s))
                    })),
                    _ => panic!("type '{}' at {} in {}", w, c.i, String::from_utf8_lossy(c.s)),
                }
            }
        }
    }

    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.glob_by_name.get(n) {
            let g = &self.globals[g as usize];
            return if g.external { 0 } else { g.addr };
        }
        if let Some(&f) = self.fn_by_name.get(n) {
            let f = &self.fns[f as usize];
            return if f.weak { 0 } else { f.addr };
        }
        panic!("unknown symbol {}", n)
    }

    pub fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| Module::zero(t)).collect())),
            Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| Module::zero(t)).collect())),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(Module::zero).collect())),
            _ => V::C(0),
        }
    }

    /// A constant of type `ty`.
    pub fn konst(&self, c: &mut Cur, ty: &Ty) -> V {
        match c.peek() {
            b'@' => {
                let n = c.name();
                V::C(self.sym_addr(&n) as u128)
            }
            b'c' if c.s.get(c.i + 1) == Some(&b'"') => {
                c.i += 2;
                let mut v = vec![];
                while c.s[c.i] != b'"' {
                    if c.s[c.i] == b'\\' {
                        if c.s[c.i + 1] == b'\\' {
                            v.push(V::C(b'\\' as u128));
                            c.i += 2;
                        } else {
                            let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                            v.push(V::C(u8::from_str_radix(h, 16).unwrap() as u128));
                            c.i += 3;
                        }
                    } else {
                        v.push(V::C(c.s[c.i] as u128));
                        c.i += 1;
                    }
                }
                c.i += 1;
                V::A(Rc::new(v))
            }
            b'{' | b'[' | b'<' => {
                let open = c.peek();
                c.i += 1;
                let packed = open == b'<' && c.peek() == b'{';
                if packed {
                    c.i += 1;
                }
                let close = match (open, packed) {
                    (b'{', _) => b'}',
                    (b'[', _) => b']',
                    (_, true) => b'}',
                    _ => b'>',
                };
                let mut v = vec![];
                if !c.eat(close) {
                    loop {
                        let t = self.ty(c);
                        v.push(self.konst(c, &t));
                        if c.eat(close) {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                if packed {
                    c.expect(b'>');
                }
                V::A(Rc::new(v))
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => V::C(1),
                    "false" => V::C(0),
                    "null" | "none" => V::C(0),
                    "undef" | "poison" | "zeroinitializer" => Module::zero(ty),
                    "splat" => {
                        c.expect(b'(');
                        let t = self.ty(c);
                        let k = self.konst(c, &t);
                        c.expect(b')');
                        match ty {
                            Ty::Vec(n, _) => V::A(Rc::new(vec![k; *n as usize])),
                            _ => panic!("splat"),
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" => {
                        c.expect(b'(');
                        let t = self.ty(c);
                        let k = self.konst(c, &t);
                        c.word(); // to
                        let t2 = self.ty(c);
                        c.expect(b')');
                        match k {
                            V::C(k) => V::C(k & crate::expr::mask(t2.bits() as u8)),
                            k => k,
                        }
                    }
                    "getelementptr" => {
                        while c.peek() != b'(' {
                            if c.try_word("inrange") {
                                c.ws();
                                c.skip_parens();
                            } else {
                                c.word();
                            }
                        }
                        c.i += 1;
                        let st = self.ty(c);
                        c.expect(b',');
                        let pt = self.ty(c);
                        let base = self.konst(c, &pt);
                        let mut idx = vec![];
                        while c.eat(b',') {
                            let t = self.ty(c);
                            idx.push((self.konst(c, &t), t));
                        }
                        c.expect(b')');
                        let mut a = match base {
                            V::C(k) => k as u64,
                            _ => panic!(),
                        };
                        let mut cur = st.clone();
                        for (j, (k, t)) in idx.iter().enumerate() {
                            let k = match k {
                                V::C(k) => crate::expr::sx(*k, t.bits() as u8) as i64,
                                _ => panic!(),
                            };
                            if j == 0 {
                                a = a.wrapping_add((k as u64).wrapping_mul(st.size()));
                            } else {
                                a = a.wrapping_add(cur.field_off(k as usize));
                                cur = match &cur {
                                    Ty::Struct(f, _) => f[k as usize].clone(),
                                    Ty::Arr(_, t) => (**t).clone(),
                                    _ => panic!(),
                                };
                            }
                        }
                        V::C(a as u128)
                    }
                    "sub" | "add" | "xor" => {
                        c.try_word("nuw");
                        c.try_word("nsw");
                        c.expect(b'(');
                        let t = self.ty(c);
                        let a = self.konst(c, &t);
                        c.expect(b',');
                        let t = self.ty(c);
                        let b = self.konst(c, &t);
                        c.expect(b')');
                        let (a, b) = match (a, b) {
                            (V::C(a), V::C(b)) => (a, b),
                            _ => panic!(),
                        };
                        let m = crate::expr::mask(t.bits() as u8);
                        V::C(match w {
                            "sub" => a.wrapping_sub(b) & m,
                            "add" => a.wrapping_add(b) & m,
                            _ => a ^ b,
                        })
                    }
                    _ => {
                        if matches!(ty, Ty::F64 | Ty::F32) {
                            let bits: u64 = if let Some(h) = w.strip_prefix("f0x") {
                                u64::from_str_radix(h, 16).unwrap()
                            } else if let Some(h) = w.strip_prefix("0x") {
                                let b = u64::from_str_radix(h, 16).unwrap();
                                if *ty == Ty::F32 {
                                    (f64::from_bits(b) as f32).to_bits() as u64
                                } else {
                                    b
                                }
                            } else {
                                // decimal; a '+' in the exponent splits the word
                                let mut s = w.to_string();
                                if c.i < c.s.len() && c.s[c.i] == b'+' {
                                    c.i += 1;
                                    if s.is_empty() {
                                        s = c.word().to_string();
                                        if c.i < c.s.len() && c.s[c.i] == b'+' {
                                            c.i += 1;
                                            s.push('+');
                                            s.push_str(c.word());
                                        }
                                    } else {
                                        s.push('+');
                                        s.push_str(c.word());
                                    }
                                }
                                match s.as_str() {
                                    "inf" => f64::INFINITY.to_bits(),
                                    "-inf" => f64::NEG_INFINITY.to_bits(),
                                    "nan" | "qnan" => f64::NAN.to_bits(),
                                    _ => {
                                        let f: f64 = s.parse().unwrap_or_else(|_| {
                                            panic!("float '{}' in {}", s, String::from_utf8_lossy(c.s))
                                        });
                                        if *ty == Ty::F32 {
                                            (f as f32).to_bits() as u64
                                        } else {
                                            f.to_bits()
                                        }
                                    }
                                }
                            };
                            return V::C(bits as u128);
                        }
                        let k = if let Ok(k) = w.parse::<i128>() {
                            k as u128
                        } else if let Ok(k) = w.parse::<u128>() {
                            k
                        } else {
                            panic!("constant '{}' of {:?} in {}", w, ty, String::from_utf8_lossy(c.s))
                        };
                        V::C(k & crate::expr::mask(ty.bits() as u8))
                    }
                }
            }
        }
    }

    /// Bytes of a constant in memory.
    pub fn bytes(v: &V, ty: &Ty, out: &mut Vec<u8>) {
        let start = out.len();
        match (v, ty) {
            (V::C(k), Ty::Int(_)) | (V::C(k), Ty::Ptr) | (V::C(k), Ty::F64) | (V::C(k), Ty::F32) => {
                out.extend_from_slice(&k.to_le_bytes()[..ty.store_size().min(16) as usize]);
            }
            (V::A(v), Ty::Arr(_, t)) | (V::A(v), Ty::Vec(_, t)) => {
                for x in v.iter() {
                    Module::bytes(x, t, out);
                }
            }
            (V::A(v), Ty::Struct(f, _)) => {
                for (i, x) in v.iter().enumerate() {
                    let off = ty.field_off(i) as usize;
                    out.resize(start + off, 0);
                    Module::bytes(x, &f[i], out);
                }
            }
            _ => panic!("bytes {:?} {:?}", v, ty),
        }
        out.resize(start + ty.size() as usize, 0);
    }

    pub fn global_bytes(&self, g: &Global) -> Vec<u8> {
        if g.external {
            return vec![0; g.size as usize];
        }
        let mut c = Cur::new(self.lines[g.line], g.init_at);
        let ty = self.ty(&mut c);
        let v = self.konst(&mut c, &ty);
        let mut out = Vec::with_capacity(g.size as usize);
        Module::bytes(&v, &ty, &mut out);
        out.resize(g.size as usize, 0);
        out
    }

    pub fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = &self.fns[id as usize].parsed {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(FnParser::parse(self, id)));
        self.fns[id as usize].parsed = Some(f);
        f
    }
}

struct FnParser<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

fn attr_skip(c: &mut Cur) {
    // skip parameter / return attributes until something that is not one
    loop {
        let save = c.i;
        match c.peek() {
            b'"' => {
                c.i += 1;
                while c.s[c.i] != b'"' {
                    c.i += 1;
                }
                c.i += 1;
                if c.eat(b'=') {
                    c.ws();
                    c.i += 1;
                    while c.s[c.i] != b'"' {
                        c.i += 1;
                    }
                    c.i += 1;
                }
                continue;
            }
            x if x.is_ascii_alphabetic() => {}
            _ => return,
        }
        let w = c.word();
        if matches!(
            w,
            "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "ptrtoint"
                | "getelementptr" | "splat" | "bitcast" | "asm" | "trunc" | "zext" | "sub" | "add"
        ) || w.starts_with("0x")
            || w.starts_with("f0x")
            || is_type_start(w)
            || (w == "c" && c.s.get(c.i) == Some(&b'"'))
            || matches!(w, "inf" | "nan" | "qnan")
        {
            c.i = save;
            return;
        }
        if w == "align" {
            if c.peek() == b'(' {
                c.skip_parens();
            } else {
                c.word();
            }
        } else if c.i < c.s.len() && c.s[c.i] == b'(' {
            c.skip_parens();
        }
    }
}

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        *self.labels.get(n).unwrap_or_else(|| panic!("label {}", n))
    }
    fn val(&mut self, c: &mut Cur, ty: &Ty) -> O {
        if c.peek() == b'%' {
            let n = c.name();
            O::R(self.reg(&n))
        } else {
            O::K(self.m.konst(c, ty))
        }
    }
    fn tval(&mut self, c: &mut Cur) -> (O, Ty) {
        let t = self.m.ty(c);
        attr_skip(c);
        let o = self.val(c, &t);
        (o, t)
    }

    fn parse(m: &'m Module, id: u32) -> Func {
        let d = &m.fns[id as usize];
        let (s, e) = d.body.unwrap_or_else(|| panic!("no body: {}", d.name));
        let mut p = FnParser { m, regs: HashMap::new(), labels: HashMap::new() };
        // parameters
        let l = m.lines[s];
        let mut c = Cur::new(l, l.find('@').unwrap());
        c.name();
        c.expect(b'(');
        let mut nparams = 0;
        let mut unnamed = 0;
        if !c.eat(b')') {
            loop {
                if c.s[c.i..].starts_with(b"...") {
                    break;
                }
                let _t = m.ty(&mut c);
                attr_skip(&mut c);
                let nm = if c.peek() == b'%' {
                    c.name()
                } else {
                    let n = unnamed.to_string();
                    n
                };
                if nm.bytes().all(|b| b.is_ascii_digit()) {
                    unnamed += 1;
                }
                p.reg(&nm);
                nparams += 1;
                if c.eat(b')') {
                    break;
                }
                c.expect(b',');
            }
        }
        // join continuation lines and find labels
        let mut items: Vec<(bool, String)> = vec![];
        let mut i = s + 1;
        while i < e {
            let l = m.lines[i];
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                let mut c = Cur::new(l, 0);
                let nm = if l.starts_with('"') {
                    let q = l[1..].find('"').unwrap() + 1;
                    l[1..q].to_string()
                } else {
                    c.word().to_string()
                };
                let nl = p.labels.len() as u32;
                p.labels.insert(nm.clone(), nl);
                items.push((true, nm));
                i += 1;
                continue;
            }
            if items.is_empty() {
                let nm = unnamed.to_string();
                p.labels.insert(nm.clone(), 0);
                items.push((true, nm));
            }
            let mut txt = t.to_string();
            if t.starts_with("switch") {
                while !m.lines[i].trim_start().starts_with(']') && !txt.contains(" ]") {
                    i += 1;
                    txt.push(' ');
                    txt.push_str(m.lines[i].trim());
                }
            } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
                i += 1;
                txt.push(' ');
                txt.push_str(m.lines[i].trim());
            } else {
                while i + 1 < e && m.lines[i + 1].starts_with("          ") {
                    i += 1;
                    txt.push(' ');
                    txt.push_str(m.lines[i].trim());
                }
            }
            items.push((false, txt));
            i += 1;
        }
        let mut blocks: Vec<Block> = vec![];
        let mut n_insts = 0;
        for (is_label, t) in items {
            if is_label {
                blocks.push(Block { phis: vec![], code: vec![] });
                continue;
            }
            n_insts += 1;
            let b = blocks.last_mut().unwrap();
            p.inst(&t, b);
        }
        Func {
            name: d.name.clone(),
            pretty: d.pretty.clone(),
            nparams,
            nregs: p.regs.len(),
            blocks,
            n_insts,
        }
    }

    fn inst(&mut self, t: &str, b: &mut Block) {
        let mut c = Cur::new(t, 0);
        let mut d = 0u32;
        let mut has_d = false;
        if c.peek() == b'%' {
            let n = c.name();
            d = self.reg(&n);
            has_d = true;
            c.expect(b'=');
        }
        let mut op = c.word().to_string();
        if op == "tail" || op == "musttail" || op == "notail" {
            op = c.word().to_string();
        }
        let flags = |c: &mut Cur| loop {
            let save = c.i;
            let w = c.word();
            match w {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "reassoc" | "afn" => {}
                "inrange" => {
                    c.ws();
                    c.skip_parens();
                }
                _ => {
                    c.i = save;
                    return;
                }
            }
        };
        let inst = match op.as_str() {
            "phi" => {
                flags(&mut c);
                let ty = self.m.ty(&mut c);
                let mut v = vec![];
                loop {
                    c.expect(b'[');
                    let o = self.val(&mut c, &ty);
                    c.expect(b',');
                    let l = c.name();
                    c.expect(b']');
                    let lb = self.label(&l);
                    v.push((lb, o));
                    let save = c.i;
                    if c.eat(b',') && c.peek() == b'[' {
                        continue;
                    }
                    c.i = save;
                    break;
                }
                b.phis.push((d, v));
                return;
            }
            "alloca" => {
                let ty = self.m.ty(&mut c);
                let mut n = O::K(V::C(1));
                let mut align = ty.align();
                while c.eat(b',') {
                    if c.try_word("align") {
                        align = c.word().parse().unwrap();
                    } else if c.peek() == b'!' {
                        break;
                    } else {
                        n = self.tval(&mut c).0;
                    }
                }
                I::Alloca { d, size: ty.size(), align, n }
            }
            "load" => {
                c.try_word("atomic");
                c.try_word("volatile");
                let ty = self.m.ty(&mut c);
                c.expect(b',');
                let (p, _) = self.tval(&mut c);
                I::Load { d, ty, p }
            }
            "store" => {
                c.try_word("atomic");
                c.try_word("volatile");
                let (v, ty) = self.tval(&mut c);
                c.expect(b',');
                let (p, _) = self.tval(&mut c);
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                flags(&mut c);
                let st = self.m.ty(&mut c);
                c.expect(b',');
                let (base, _) = self.tval(&mut c);
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = st.clone();
                let mut j = 0;
                loop {
                    let save = c.i;
                    if !c.eat(b',') {
                        break;
                    }
                    if c.peek() == b'!' {
                        c.i = save;
                        break;
                    }
                    let (o, t) = self.tval(&mut c);
                    let scale;
                    if j == 0 {
                        scale = st.size();
                    } else {
                        match &cur.clone() {
                            Ty::Struct(f, _) => {
                                let k = match &o {
                                    O::K(V::C(k)) => *k as usize,
                                    _ => panic!(),
                                };
                                off = off.wrapping_add(cur.field_off(k));
                                cur = f[k].clone();
                                j += 1;
                                continue;
                            }
                            Ty::Arr(_, t) => {
                                scale = t.size();
                                cur = (**t).clone();
                            }
                            _ => panic!("gep {}", t_str(&c)),
                        }
                    }
                    match &o {
                        O::K(V::C(k)) => {
                            let k = crate::expr::sx(*k, t.bits() as u8) as u64;
                            off = off.wrapping_add(k.wrapping_mul(scale));
                        }
                        _ => terms.push((o, t.bits(), scale)),
                    }
                    j += 1;
                }
                I::Gep { d, base, off, terms }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or"
            | "xor" => {
                flags(&mut c);
                let ty = self.m.ty(&mut c);
                let a = self.val(&mut c, &ty);
                c.expect(b',');
                let bb = self.val(&mut c, &ty);
                let o = match op.as_str() {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "and" => B::And,
                    "or" => B::Or,
                    _ => B::Xor,
                };
                let (w, vec) = match &ty {
                    Ty::Vec(_, t) => (t.bits(), true),
                    t => (t.bits(), false),
                };
                I::Bin { d, op: o, w, a, b: bb, vec }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(&mut c);
                let ty = self.m.ty(&mut c);
                let a = self.val(&mut c, &ty);
                c.expect(b',');
                let bb = self.val(&mut c, &ty);
                let o = match op.as_str() {
                    "fadd" => b'+',
                    "fsub" => b'-',
                    "fmul" => b'*',
                    "fdiv" => b'/',
                    _ => b'%',
                };
                I::FBin { d, op: o, w: ty.bits(), a, b: bb }
            }
            "fneg" => {
                flags(&mut c);
                let (a, ty) = self.tval(&mut c);
                I::FNeg { d, w: ty.bits(), a }
            }
            "icmp" => {
                flags(&mut c);
                let p = match c.word() {
                    "eq" => P::Eq,
                    "ne" => P::Ne,
                    "ugt" => P::Ugt,
                    "uge" => P::Uge,
                    "ult" => P::Ult,
                    "ule" => P::Ule,
                    "sgt" => P::Sgt,
                    "sge" => P::Sge,
                    "slt" => P::Slt,
                    "sle" => P::Sle,
                    x => panic!("icmp {}", x),
                };
                let ty = self.m.ty(&mut c);
                let a = self.val(&mut c, &ty);
                c.expect(b',');
                let bb = self.val(&mut c, &ty);
                let (w, vec) = match &ty {
                    Ty::Vec(_, t) => (t.bits(), true),
                    t => (t.bits(), false),
                };
                I::ICmp { d, p, w, a, b: bb, vec }
            }
            "fcmp" => {
                flags(&mut c);
                let p = match c.word() {
                    "oeq" => FP::Oeq,
                    "ogt" => FP::Ogt,
                    "oge" => FP::Oge,
                    "olt" => FP::Olt,
                    "ole" => FP::Ole,
                    "one" => FP::One,
                    "ord" => FP::Ord,
                    "ueq" => FP::Ueq,
                    "ugt" => FP::Ugt,
                    "uge" => FP::Uge,
                    "ult" => FP::Ult,
                    "ule" => FP::Ule,
                    "une" => FP::Une,
                    "uno" => FP::Uno,
                    "true" => FP::True,
                    _ => FP::False,
                };
                let ty = self.m.ty(&mut c);
                let a = self.val(&mut c, &ty);
                c.expect(b',');
                let bb = self.val(&mut c, &ty);
                I::FCmp { d, p, w: ty.bits(), a, b: bb }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptosi" | "fptoui" | "sitofp"
            | "uitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                flags(&mut c);
                let (a, from) = self.tval(&mut c);
                let w = c.word();
                assert_eq!(w, "to");
                let to = self.m.ty(&mut c);
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptosi" => Cast::FpToSi,
                    "fptoui" => Cast::FpToUi,
                    "sitofp" => Cast::SiToFp,
                    "uitofp" => Cast::UiToFp,
                    "fpext" => Cast::FpExt,
                    "fptrunc" => Cast::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if from.bits() < to.bits() {
                            Cast::ZExt
                        } else if from.bits() > to.bits() {
                            Cast::Trunc
                        } else {
                            Cast::Bit
                        }
                    }
                    _ => Cast::Bit,
                };
                I::Cast { d, k, from, to, a }
            }
            "select" => {
                flags(&mut c);
                let (cc, _) = self.tval(&mut c);
                c.expect(b',');
                let (a, ty) = self.tval(&mut c);
                c.expect(b',');
                let (bb, _) = self.tval(&mut c);
                I::Select { d, c: cc, a, b: bb, ty }
            }
            "freeze" => {
                let (a, _) = self.tval(&mut c);
                I::Freeze { d, a }
            }
            "call" | "invoke" => {
                // flags, calling convention, return attributes
                flags(&mut c);
                loop {
                    let save = c.i;
                    match c.word() {
                        "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" => {}
                        _ => {
                            c.i = save;
                            break;
                        }
                    }
                }
                attr_skip(&mut c);
                let ret = self.m.ty(&mut c);
                if c.peek() == b'(' {
                    c.skip_parens();
                }
                let callee = match c.peek() {
                    b'@' => {
                        let n = c.name();
                        Callee::Fn(*self.m.fn_by_name.get(&n).unwrap_or_else(|| panic!("fn {}", n)))
                    }
                    b'%' => {
                        let n = c.name();
                        Callee::Reg(O::R(self.reg(&n)))
                    }
                    _ => {
                        let save = c.i;
                        if c.word() == "asm" {
                            Callee::Asm(t.to_string())
                        } else {
                            c.i = save;
                            let k = self.m.konst(&mut c, &Ty::Ptr);
                            Callee::Reg(O::K(k))
                        }
                    }
                };
                let mut args = vec![];
                if !matches!(callee, Callee::Asm(_)) {
                    c.expect(b'(');
                    if !c.eat(b')') {
                        loop {
                            if c.try_word("metadata") {
                                // skip to the matching ) or ,
                                let mut dpt = 0;
                                while c.i < c.s.len() {
                                    match c.s[c.i] {
                                        b'(' | b'{' => dpt += 1,
                                        b')' | b'}' if dpt > 0 => dpt -= 1,
                                        b')' => break,
                                        b',' if dpt == 0 => break,
                                        _ => {}
                                    }
                                    c.i += 1;
                                }
                                args.push((O::K(V::C(0)), Ty::Other));
                            } else {
                                let x = self.tval(&mut c);
                                args.push(x);
                            }
                            if c.eat(b')') {
                                break;
                            }
                            c.expect(b',');
                        }
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    let k = t.rfind(" to label ").unwrap();
                    let mut c2 = Cur::new(t, k + 10);
                    let n = c2.name();
                    normal = Some(self.label(&n));
                }
                I::Call { d: if has_d { Some(d) } else { None }, callee, args, ret, normal }
            }
            "extractvalue" => {
                let (a, _) = self.tval(&mut c);
                let mut idx = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(c.word().parse().unwrap());
                }
                I::Extract { d, a, idx }
            }
            "insertvalue" => {
                let (a, ty) = self.tval(&mut c);
                c.expect(b',');
                let (v, _) = self.tval(&mut c);
                let mut idx = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(c.word().parse().unwrap());
                }
                I::Insert { d, a, v, idx, ty }
            }
            "insertelement" => {
                let (a, ty) = self.tval(&mut c);
                c.expect(b',');
                let (v, _) = self.tval(&mut c);
                c.expect(b',');
                let (i, _) = self.tval(&mut c);
                I::InsEl { d, a, v, i, ty }
            }
            "extractelement" => {
                let (a, _) = self.tval(&mut c);
                c.expect(b',');
                let (i, _) = self.tval(&mut c);
                I::ExtEl { d, a, i }
            }
            "shufflevector" => {
                let (a, _) = self.tval(&mut c);
                c.expect(b',');
                let (bb, _) = self.tval(&mut c);
                c.expect(b',');
                let (mm, _) = self.tval(&mut c);
                let m = match mm {
                    O::K(V::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            V::C(k) => *k as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                I::Shuf { d, a, b: bb, m }
            }
            "br" => {
                if c.try_word("label") {
                    let n = c.name();
                    I::Br(self.label(&n))
                } else {
                    let (cc, _) = self.tval(&mut c);
                    c.expect(b',');
                    c.word();
                    let a = c.name();
                    c.expect(b',');
                    c.word();
                    let bb = c.name();
                    I::CondBr(cc, self.label(&a), self.label(&bb))
                }
            }
            "switch" => {
                let (v, ty) = self.tval(&mut c);
                c.expect(b',');
                c.word();
                let dl = c.name();
                let dl = self.label(&dl);
                c.expect(b'[');
                let mut cases = vec![];
                while !c.eat(b']') {
                    let t = self.m.ty(&mut c);
                    let k = match self.m.konst(&mut c, &t) {
                        V::C(k) => k,
                        _ => panic!(),
                    };
                    c.expect(b',');
                    c.word();
                    let l = c.name();
                    cases.push((k, self.label(&l)));
                }
                I::Switch(v, ty.bits(), dl, Rc::new(cases))
            }
            "ret" => {
                let ty = self.m.ty(&mut c);
                if ty == Ty::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.val(&mut c, &ty)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Unreachable,
            "landingpad" | "fence" => I::Nop,
            "atomicrmw" => {
                c.try_word("volatile");
                let o = c.word().to_string();
                let (p, _) = self.tval(&mut c);
                c.expect(b',');
                let (v, ty) = self.tval(&mut c);
                I::Rmw { d, op: o, ty, p, v }
            }
            "cmpxchg" => {
                c.try_word("weak");
                c.try_word("volatile");
                let (p, _) = self.tval(&mut c);
                c.expect(b',');
                let (x, ty) = self.tval(&mut c);
                c.expect(b',');
                let (n, _) = self.tval(&mut c);
                I::CmpXchg { d, ty, p, c: x, n }
            }
            _ => I::Bad(t.to_string()),
        };
        b.code.push(inst);
    }
}

fn t_str(c: &Cur) -> String {
    String::from_utf8_lossy(c.s).to_string()
}
