//! C14: tokens and delimiters.
use crate::util::*;

pub struct Text {
    pub bytes: Vec<u8>,
    pub code: Vec<u32>,
    /// where each character starts, and the end
    pub off: Vec<usize>,
}
impl Text {
    pub fn new() -> Text {
        Text { bytes: vec![], code: vec![], off: vec![0] }
    }
    pub fn add(&mut self, b: &[u8], code: u32) {
        self.bytes.extend_from_slice(b);
        self.code.push(code);
        self.off.push(self.bytes.len());
    }
    pub fn ascii(&mut self) {
        let c = any7();
        self.add(&[c], c as u32);
    }
    /// Any character of `k` bytes (a sixteenth of those of 4).
    pub fn wide(&mut self, k: usize) {
        let t = |x: u8| 0x80 | (x & 0x3f);
        match k {
            2 => {
                let (a, b) = (2 + any8() % 30, any8() & 0x3f);
                self.add(&[0xc0 | a, t(b)], (a as u32) << 6 | b as u32)
            }
            3 => {
                let (a, b, c) = (1 + any8() % 12, any8() & 0x3f, any8() & 0x3f);
                self.add(&[0xe0 | a, t(b), t(c)], (a as u32) << 12 | (b as u32) << 6 | c as u32)
            }
            _ => {
                let (b, c) = (any8() & 0x3f, any8() & 0x3f);
                self.add(&[0xf1, t(b), t(c), 0x80], 1 << 18 | (b as u32) << 12 | (c as u32) << 6)
            }
        }
    }
    pub fn any(&mut self) {
        match range(1, 4) {
            1 => self.ascii(),
            k => self.wide(k),
        }
    }
    pub fn len(&self) -> usize {
        self.code.len()
    }
    pub fn put(&self, vm: &mut VM) {
        vm.set_source(unsafe { std::str::from_utf8_unchecked(&self.bytes) });
    }
    /// The bytes of characters i..j.
    pub fn part(&self, i: usize, j: usize) -> &[u8] {
        &self.bytes[self.off[i]..self.off[j]]
    }
    fn blank(&self, i: usize) -> bool {
        let c = self.code[i];
        (c == 32) | (c == 9) | (c == 10) | (c == 13)
    }
}
/// n characters: 7-bit ones, or all kinds
pub fn text(n: usize, wide: bool) -> Text {
    let mut t = Text::new();
    for _ in 0..n {
        if wide {
            t.any()
        } else {
            t.ascii()
        }
    }
    t
}
fn token_is(vm: &mut VM, want: &[u8]) -> bool {
    match vm.last_token().as_ref() {
        Some(t) => beq(t.as_bytes(), want),
        None => false,
    }
}
fn at(vm: &mut VM, t: &Text, p: usize) -> bool {
    vm.state().source_index == t.off[p]
}
/// The next token by the definition: from .. to .
fn next(t: &Text, p: usize) -> (usize, usize) {
    let mut i = p;
    while i < t.len() && t.blank(i) {
        i += 1;
    }
    let mut j = i;
    while j < t.len() && !t.blank(j) {
        j += 1;
    }
    (i, j)
}

/// All tokens of any text of arg % 16 characters; arg / 16: of all widths.
pub extern "C" fn h_c14_tokens(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let t = text(arg as usize % 16, arg >= 16);
    let z = cell();
    sset(vm, &[z]);
    t.put(vm);
    let mut p = 0;
    loop {
        let (i, j) = next(&t, p);
        call(vm, "parse-word");
        ck(1, quiet(vm) & sis(vm, &[z]));
        ck(2, token_is(vm, t.part(i, j)));
        ck(3, at(vm, &t, j));
        p = j;
        call(vm, "token-empty?");
        ck(4, sis(vm, &[z, flag_of(i == j)]));
        sset(vm, &[z]);
        if i == j {
            break;
        }
        clear_out(vm);
        call(vm, ".token");
        ck(5, beq(&out(vm), t.part(i, j)) & quiet(vm));
    }
    // the text itself is unharmed, and can be read again from any place
    let back = choice(t.len() + 1);
    sset(vm, &[z, t.off[back] as isize]);
    call(vm, "source-idx!");
    let (i, j) = next(&t, back);
    call(vm, "parse-word");
    ck(6, quiet(vm) & sis(vm, &[z]) & token_is(vm, t.part(i, j)) & at(vm, &t, j));
    call(vm, "source-idx");
    ck(7, quiet(vm) & sis(vm, &[z, t.off[j] as isize]));
    reach(1);
}

/// One of the parsing words, from character p on; the new position.
fn step(vm: &mut VM, t: &Text, p: usize, op: usize) -> usize {
    let z = cell();
    let del = match op {
        4 => b')' as isize,
        5 => b'\n' as isize,
        _ => cell(),
    };
    let is = |i: usize| t.code[i] as isize == del;
    let skip = |mut i: usize| {
        while i < t.len() && is(i) {
            i += 1
        }
        i
    };
    let until = |mut i: usize| {
        while i < t.len() && !is(i) {
            i += 1
        }
        i
    };
    let after = |j: usize| if j < t.len() { j + 1 } else { j };
    match op {
        0 => {
            let (i, j) = next(t, p);
            sset(vm, &[z]);
            call(vm, "parse-word");
            ck(10, quiet(vm) & sis(vm, &[z]));
            ck(11, token_is(vm, t.part(i, j)));
            ck(12, at(vm, t, j));
            j
        }
        1 => {
            let j = until(p);
            sset(vm, &[z, del]);
            call(vm, "parse");
            ck(13, quiet(vm) & sis(vm, &[z]));
            ck(14, token_is(vm, t.part(p, j)));
            ck(15, at(vm, t, after(j)));
            after(j)
        }
        2 => {
            let i = skip(p);
            sset(vm, &[z, del]);
            call(vm, "_skip");
            ck(16, quiet(vm) & sis(vm, &[z]));
            ck(17, at(vm, t, i));
            i
        }
        3 => {
            let i = skip(p);
            let j = until(i);
            let h = here(vm);
            sset(vm, &[z, del]);
            call(vm, "word");
            ck(18, quiet(vm) & sis(vm, &[z, h as isize]));
            ck(19, here(vm) == h);
            let w = t.part(i, j);
            ck(20, peek8(h) as usize == w.len());
            let mut ok = true;
            for k in 0..w.len() {
                ok &= peek8(h + 1 + k) == w[k];
            }
            ck(21, ok);
            ck(22, at(vm, t, after(j)));
            after(j)
        }
        4 | 5 => {
            let j = until(p);
            sset(vm, &[z]);
            call(vm, if op == 4 { "(" } else { "\\" });
            ck(23, quiet(vm) & sis(vm, &[z]));
            ck(24, at(vm, t, after(j)));
            after(j)
        }
        _ => {
            let (i, j) = next(t, p);
            sset(vm, &[z]);
            call(vm, "char");
            if i == j {
                ck(25, err(vm) == code(UNEXPECTED_END_OF_FILE));
                vm.set_error(None);
            } else {
                ck(26, quiet(vm) & sis(vm, &[z, t.code[i] as isize]));
            }
            ck(27, at(vm, t, j));
            j
        }
    }
}
/// Two parsing words and then the rest: arg % 7 the first one,
/// arg / 7 % 8 characters, all widths or not.
pub extern "C" fn h_c14_ops(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let a = arg as usize;
    let t = text(a / 7 % 8, a >= 56);
    t.put(vm);
    let p = step(vm, &t, 0, a % 7);
    let q = choice(7);
    let p = step(vm, &t, p, q);
    step(vm, &t, p, 0);
    reach(1);
}
/// [char] compiles the first character of the next token.
pub extern "C" fn h_c14_char(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let t = text(arg as usize % 8, arg >= 8);
    good(vm, ": p", 90);
    let z = cell();
    sset(vm, &[z]);
    t.put(vm);
    let (i, j) = next(&t, 0);
    call(vm, "[char]");
    if i == j {
        ck(30, err(vm) == code(UNEXPECTED_END_OF_FILE));
    } else {
        ck(31, quiet(vm) & sis(vm, &[z]) & at(vm, &t, j));
        good(vm, "; p", 32);
        ck(33, sis(vm, &[z, t.code[i] as isize]));
    }
    reach(1);
}

/// A line made of digits, blanks, parentheses and backslashes: exactly its
/// numbers outside comments are interpreted, in order, each once.
/// arg: the first two characters.
pub extern "C" fn h_c14_line(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = if arg >= 25 { 7 } else { 5 };
    let mut b = vec![];
    for i in 0..n {
        let k = match i {
            0 => arg as usize % 5,
            1 => arg as usize / 5 % 5,
            _ => choice(5),
        };
        b.push(match k {
            0 => b'1' + i as u8,
            1 => {
                let c = any7();
                assume((c == 32) | (c == 9) | (c == 13) | (c == 10));
                c
            }
            2 => b'(',
            3 => b')',
            _ => b'\\',
        });
    }
    let blank = |c: u8| (c == 32) | (c == 9) | (c == 13) | (c == 10);
    let mut want = vec![];
    let mut bad = false;
    let mut i = 0;
    while i < n {
        if blank(b[i]) {
            i += 1;
            continue;
        }
        let s = i;
        while i < n && !blank(b[i]) {
            i += 1;
        }
        let t = &b[s..i];
        // a word of its own, for files
        if t == b"\\\\" {
            end();
        }
        if t == b"(" || t == b"\\" {
            let del = if t == b"(" { b')' } else { b'\n' };
            while i < n && b[i] != del {
                i += 1;
            }
            i += 1;
        } else {
            let mut v = 0;
            for &c in t {
                if c < b'0' {
                    bad = true;
                } else if c > b'9' {
                    bad = true;
                } else {
                    v = v * 10 + (c - b'0') as isize;
                }
            }
            if bad {
                break;
            }
            want.push(v);
        }
    }
    vm.set_source(unsafe { std::str::from_utf8_unchecked(&b) });
    vm.s_stack().reset();
    vm.evaluate_input();
    if bad {
        ck(40, err(vm) == code(UNDEFINED_WORD));
        ck(41, sis(vm, &[]));
        ck(42, vm.state().source_index <= n);
    } else {
        ck(43, quiet(vm));
        ck(44, sis(vm, &want));
        ck(45, vm.state().source_index == n);
    }
    reach(1);
}
/// A token longer than a counted string can tell.
pub extern "C" fn h_c14_long(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let n = [254, 255, 256, 300][arg as usize];
    let mut b = vec![b' '];
    let x = any7();
    assume((x != 32) & (x != 9) & (x != 10) & (x != 13) & (x != b'q'));
    for i in 0..n {
        b.push(if i % 50 == 17 || i == n - 1 || i == 254 { x } else { b'a' + (i % 8) as u8 });
    }
    b.push(b' ');
    b.push(b'q');
    vm.set_source(unsafe { std::str::from_utf8_unchecked(&b) });
    let h = here(vm);
    sset(vm, &[32]);
    call(vm, "word");
    ck(50, quiet(vm) & sis(vm, &[h as isize]));
    let m = n.min(255);
    ck(51, peek8(h) as usize == m);
    let mut ok = true;
    for i in 0..m {
        ok &= peek8(h + 1 + i) == b[1 + i];
    }
    ck(52, ok);
    call(vm, "parse-word");
    ck(53, token_is(vm, b"q"));
    reach(1);
}
