//! The line editor of the interactive program, and the program around it.
use crate::os::*;
use crate::rtf::{Editor as Term, Stop as Error};
use crate::sym::*;
use crate::VM;
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use rtforth::core::Core;
use rtforth::loader::HasLoader;

type Ch = Vec<u8>;

/// What a line editor is to do.
struct Model {
    /// Lines that may be recalled, and last the one being typed.
    old: Vec<Vec<Ch>>,
    at: usize,
    text: Vec<Ch>,
    x: usize,
    /// Texts delivered.
    done: Vec<Vec<Ch>>,
    /// Strokes left before the line is ended.
    left: usize,
    /// Which strokes there are.
    keys: fn(usize) -> Key,
    /// Lines left before the end of the session.
    lines: usize,
    /// Ended by ctrl-d, or an error of the terminal.
    over: bool,
    broken: bool,
    active: bool,
    drawn: bool,
    strokes: usize,
    look: bool,
}
#[derive(Clone, PartialEq)]
enum Key {
    Ch(Ch, char, bool),
    Back,
    Left,
    Right,
    Up,
    Down,
    Enter,
    Eof,
    Other(usize),
    Fail,
}
static mut M: Model = Model {
    old: vec![],
    at: 0,
    text: vec![],
    x: 0,
    done: vec![],
    left: 0,
    keys: none,
    lines: 0,
    over: false,
    broken: false,
    active: false,
    drawn: false,
    strokes: 0,
    look: true,
};
fn none(_: usize) -> Key {
    Key::Enter
}
fn m() -> &'static mut Model {
    unsafe { &mut M }
}

fn utf8(c: u32) -> Ch {
    let f = |s: u32| 0x80 | (c >> s & 63) as u8;
    if c < 0x80 {
        vec![c as u8]
    } else if c < 0x800 {
        vec![0xC0 | (c >> 6) as u8, f(0)]
    } else if c < 0x10000 {
        vec![0xE0 | (c >> 12) as u8, f(6), f(0)]
    } else {
        vec![0xF0 | (c >> 18) as u8, f(12), f(6), f(0)]
    }
}
/// Any character that takes `n` bytes.
fn character(n: usize, shift: bool) -> Key {
    let (lo, hi) = [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff)][n - 1];
    let c = if n == 1 { any7() as u32 } else { any32() };
    assume((c >= lo) & (c <= hi) & ((c < 0xd800) | (c > 0xdfff)));
    let ch = unsafe { char::from_u32_unchecked(c) };
    // from the length, so that it does not depend on the value
    let f = |s: u32| 0x80 | (c >> s & 63) as u8;
    let b = match n {
        1 => vec![c as u8],
        2 => vec![0xC0 | (c >> 6) as u8, f(0)],
        3 => vec![0xE0 | (c >> 12) as u8, f(6), f(0)],
        _ => vec![0xF0 | (c >> 18) as u8, f(12), f(6), f(0)],
    };
    Key::Ch(b, ch, shift)
}
fn fixed(c: char) -> Key {
    Key::Ch(utf8(c as u32), c, false)
}

impl Model {
    fn begin(&mut self) {
        self.old.push(vec![]);
        self.at = self.old.len() - 1;
        self.text.clear();
        self.x = 0;
        self.active = true;
        self.drawn = false;
    }
    fn recall(&mut self, to: usize) {
        self.old[self.at] = self.text.clone();
        self.at = to;
        self.text = self.old[to].clone();
        self.x = self.text.len();
    }
    fn press(&mut self, k: &Key) {
        match k {
            Key::Ch(b, _, _) => {
                self.text.insert(self.x, b.clone());
                self.x += 1;
            }
            Key::Back => {
                if self.x > 0 {
                    self.x -= 1;
                    self.text.remove(self.x);
                }
            }
            Key::Left => self.x -= (self.x > 0) as usize,
            Key::Right => self.x += (self.x < self.text.len()) as usize,
            Key::Up => self.recall(if self.at > 0 { self.at - 1 } else { 0 }),
            Key::Down => self.recall(if self.at + 1 < self.old.len() { self.at + 1 } else { self.at }),
            Key::Enter => {
                self.done.push(self.text.clone());
                self.old.pop();
                if !self.text.is_empty() {
                    self.old.push(self.text.clone());
                }
                self.active = false;
            }
            Key::Eof => {
                self.over = true;
                self.active = false;
            }
            Key::Fail => {
                self.broken = true;
                self.active = false;
            }
            Key::Other(_) => {}
        }
        self.drawn = true;
    }
}
fn event(k: &Key) -> Event {
    let none = KeyModifiers::NONE;
    let key = |c, m| Event::Key(KeyEvent::new(c, m));
    match k {
        Key::Ch(_, c, s) => key(KeyCode::Char(*c), if *s { KeyModifiers::SHIFT } else { none }),
        Key::Back => key(KeyCode::Backspace, none),
        Key::Left => key(KeyCode::Left, none),
        Key::Right => key(KeyCode::Right, none),
        Key::Up => key(KeyCode::Up, none),
        Key::Down => key(KeyCode::Down, none),
        Key::Enter => key(KeyCode::Enter, none),
        Key::Eof => key(KeyCode::Char('d'), KeyModifiers::CONTROL),
        Key::Other(n) => match n {
            0 => key(KeyCode::Esc, none),
            1 => key(KeyCode::F(1), none),
            2 => key(KeyCode::Char('x'), KeyModifiers::CONTROL),
            3 => key(KeyCode::Char('d'), KeyModifiers::ALT),
            4 => key(KeyCode::Enter, KeyModifiers::CONTROL),
            5 => Event::Resize(100, 50),
            _ => Event::FocusLost,
        },
        Key::Fail => Event::FocusGained,
    }
}
/// The text of the line and the column of the cursor on the screen.
fn screen() -> (Vec<u8>, usize) {
    let s = std::mem::take(&mut os().screen);
    let mut line: Vec<Ch> = vec![];
    let mut x = 0;
    let mut i = 0;
    while i < s.len() {
        if s[i] == 0xff {
            let n = s[i + 2] as usize + ((s[i + 3] as usize) << 8);
            match s[i + 1] {
                b'M' => x = n,
                b'L' => x -= n,
                b'R' => x += n,
                _ => {
                    // the whole line, or what is right of the cursor
                    if n == 5 {
                        line.truncate(x)
                    } else {
                        line.clear()
                    }
                }
            }
            i += 4;
            continue;
        }
        let n = if s[i] < 0x80 {
            1
        } else if s[i] < 0xe0 {
            2
        } else if s[i] < 0xf0 {
            3
        } else {
            4
        };
        let c = s[i..i + n].to_vec();
        while line.len() <= x {
            line.push(vec![b' '])
        }
        line[x] = c;
        x += 1;
        i += n;
    }
    let mut t = vec![];
    for c in line {
        t.extend_from_slice(&c)
    }
    (t, x)
}
fn flat(t: &[Ch]) -> Vec<u8> {
    let mut v = vec![];
    for c in t {
        v.extend_from_slice(c)
    }
    v
}
/// Compares without a branch per byte.
fn beq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
/// The editor asks for a key.
fn stroke() -> std::io::Result<Event> {
    let m = m();
    ck(70, unsafe { crossterm::RAW });
    // it does not ask for more once a line is over
    ck(71, !m.over);
    if !m.active {
        m.begin();
        os().screen.clear();
    }
    if m.drawn & m.look {
        let (t, x) = screen();
        ck(72, x == m.x);
        ck(73, beq(&t, &flat(&m.text)));
    }
    let k = if m.left > 0 {
        m.left -= 1;
        m.strokes += 1;
        (m.keys)(m.strokes - 1)
    } else {
        Key::Enter
    };
    m.press(&k);
    if k == Key::Fail {
        return Err(std::io::Error::from(std::io::ErrorKind::Other));
    }
    Ok(event(&k))
}
fn start(n: usize, keys: fn(usize) -> Key) {
    let m = m();
    m.keys = keys;
    m.left = n;
    m.strokes = 0;
    unsafe { crossterm::KEY = stroke }
    os().arm(&[]);
    os().show = true;
}
/// A line, and what came of it.
fn line(t: &mut Term) -> bool {
    let n = m().done.len();
    match t.read_line() {
        Ok(s) => {
            ck(1, m().done.len() == n + 1);
            ck(2, beq(s.as_bytes(), &flat(&m().done[n])));
            true
        }
        Err(Error::Eof) => {
            ck(3, m().over & (m().done.len() == n));
            false
        }
        Err(_) => {
            ck(4, m().broken & (m().done.len() == n));
            m().broken = false;
            false
        }
    }
}

// -- One line --

static mut ARG: usize = 0;
/// Some characters of two, three and four bytes.
static mut WIDE: Vec<Key> = vec![];

fn edit(i: usize) -> Key {
    let a = unsafe { ARG };
    let k = if i == 0 {
        a % 10
    } else {
        choice(10)
    };
    match k {
        0 => character(1, false),
        1..=3 => unsafe { WIDE[k - 1].clone() },
        4 => Key::Back,
        5 => Key::Left,
        6 => Key::Right,
        7 => Key::Enter,
        8 => Key::Eof,
        _ => Key::Other(i % 7),
    }
}
/// Any line, typed and edited in any way.
pub extern "C" fn h_c27_keys(_: *mut VM, arg: u64) {
    unsafe { ARG = arg as usize }
    unsafe { WIDE = vec![character(2, false), character(3, true), character(4, false)] }
    start(3 + arg as usize / 10, edit);
    let mut t = Term::new();
    ck(10, unsafe { crossterm::RAW });
    line(&mut t);
    ck(11, m().done.len() + m().over as usize == 1);
    drop(t);
    ck(12, !unsafe { crossterm::RAW });
    reach(1);
}

fn quick(i: usize) -> Key {
    let c = i as u32;
    let k = if i == 0 { unsafe { ARG % 6 } } else { choice(6) };
    match k {
        0 => fixed((b'a' + i as u8) as char),
        1 => fixed(std::char::from_u32(0xe0 + c).unwrap()),
        2 => fixed(std::char::from_u32(0x1f600 + c).unwrap()),
        3 => Key::Back,
        4 => Key::Left,
        _ => Key::Right,
    }
}
/// More strokes, of fewer keys.
pub extern "C" fn h_c27_strokes(_: *mut VM, arg: u64) {
    unsafe { ARG = arg as usize }
    start(6 + arg as usize / 6, quick);
    let mut t = Term::new();
    line(&mut t);
    reach(1);
}

// -- Several --

fn recall(i: usize) -> Key {
    let a = unsafe { ARG };
    let k = match i {
        0 => a % 6,
        1 => a / 6 % 6,
        _ => choice(6),
    };
    match k {
        0 => fixed((b'a' + i as u8) as char),
        1 => Key::Back,
        2 => Key::Up,
        3 => Key::Down,
        4 => Key::Left,
        _ => Key::Enter,
    }
}
/// Lines recalled and edited.
pub extern "C" fn h_c27_recall(_: *mut VM, arg: u64) {
    let a = arg as usize % 36;
    unsafe { ARG = a }
    let n = arg as usize / 36;
    start(0, none);
    // lines there are
    let mut t = Term::new();
    for i in 0..range(0, 2) {
        m().left = 2;
        m().strokes = 0;
        m().keys = [first, second][i];
        line(&mut t);
    }
    m().keys = recall;
    m().strokes = 0;
    m().left = 6 + n;
    while m().left > 0 {
        line(&mut t);
    }
    // as left behind
    m().keys = up;
    let n = m().old.len();
    m().left = n + 2;
    line(&mut t);
    reach(1);
}
fn first(i: usize) -> Key {
    [character(1, false), character(2, false)][i].clone()
}
fn second(i: usize) -> Key {
    [fixed('p'), fixed('é')][i].clone()
}
fn up(_: usize) -> Key {
    Key::Up
}

// -- The program --

static mut LOG: Vec<usize> = Vec::new();
fn note(vm: &mut VM) {
    let n = vm.s_stack().pop() as usize;
    unsafe { LOG.push(n) }
}
const WORDS: [&str; 6] = ["k", "j", "kj", "jk", "kk", "jj"];
fn program(i: usize) -> Key {
    let a = unsafe { ARG };
    match if i == 0 { a % 7 } else { choice(7) } {
        0 => fixed('k'),
        1 => fixed('j'),
        2 => fixed(' '),
        3 => Key::Back,
        4 => Key::Left,
        5 => Key::Up,
        _ => Key::Enter,
    }
}
fn bye(i: usize) -> Key {
    fixed(['b', 'y', 'e'][i])
}
fn eof(i: usize) -> Key {
    [fixed('k'), Key::Eof][i].clone()
}
fn fail(i: usize) -> Key {
    [fixed('j'), Key::Fail, fixed('k'), Key::Enter, fixed('j'), Key::Eof][i].clone()
}
static mut END: usize = 0;
fn first_lines(i: usize) -> Key {
    let k = program(i);
    if m().left == 0 {
        // how it ends, in a line of its own
        unsafe {
            END += 1;
        }
    }
    k
}
fn session_key(i: usize) -> Key {
    let n = unsafe { N };
    if i < n {
        return program(i);
    }
    if i == n {
        return Key::Enter;
    }
    match unsafe { END } {
        0 => {
            if i < n + 4 {
                bye(i - n - 1)
            } else {
                Key::Enter
            }
        }
        1 => eof(i - n - 1),
        _ => fail(i - n - 1),
    }
}
static mut N: usize = 0;

/// What is typed is evaluated, line by line; and the terminal is put back.
pub extern "C" fn h_c27_session(vm: *mut VM, arg: u64) {
    let mut vm = unsafe { Box::from_raw(vm) };
    unsafe {
        ARG = arg as usize;
        LOG = vec![];
        N = 4 + arg as usize / 21;
        END = arg as usize / 7 % 3;
    }
    vm.add_primitive("note", note);
    vm.load_str(": k 1 note ; : j 2 note ; : kj 3 note ; : jk 4 note ; : kk 5 note ; : jj 6 note ;");
    ck(90, vm.last_error().is_none());
    start(100, session_key);
    m().look = false;
    ck(20, unsafe { crossterm::RAW });
    // as main does
    let cold = vm.find("COLD").expect("COLD");
    vm.execute_word(cold);
    vm.run();
    vm.flush();
    ck(21, unsafe { crossterm::RAW });
    // what was to be done
    let mut want = vec![];
    for l in m().done.iter() {
        let l = flat(l);
        let mut word = vec![];
        for c in l.iter().chain(b" ") {
            if *c != b' ' {
                word.push(*c);
                continue;
            }
            if !word.is_empty() {
                match WORDS.iter().position(|w| w.as_bytes() == &word[..]) {
                    Some(w) => want.push(w + 1),
                    // an error, or the end
                    None => break,
                }
            }
            word.clear();
        }
    }
    ck(22, unsafe { LOG == want });
    ck(23, (unsafe { END } == 0) | m().over);
    drop(vm);
    ck(24, !unsafe { crossterm::RAW });
    reach(1);
}
trait Flush {
    fn flush(&mut self);
}
impl Flush for VM {
    fn flush(&mut self) {
        rtforth::output::Output::flush_output(self)
    }
}

/// Lines of earlier sessions.
pub extern "C" fn h_c27_file(_: *mut VM, arg: u64) {
    start(0, none);
    let n = [0, 1, 2, 31, 32, 33, 40][arg as usize % 7];
    let how = arg as usize / 7;
    let mut text = vec![];
    let mut want: Vec<Vec<Ch>> = vec![];
    let end = choice(2);
    for i in 0..n {
        let l = format!("{}é{}", i, if i % 3 == 0 { " k" } else { "" });
        text.extend_from_slice(l.as_bytes());
        if i + 1 < n || end == 0 {
            text.extend_from_slice(if how == 1 { b"\r\n" } else { b"\n" });
        }
        want.push(l.chars().map(|c| utf8(c as u32)).collect());
    }
    if how != 2 {
        os().arm(&[("cache/history.txt", text)]);
    } else {
        want.clear()
    }
    if how == 3 {
        unsafe { directories::NONE = true }
        want.clear()
    }
    while want.len() > 32 {
        want.remove(0);
    }
    m().old = want;
    let mut t = Term::new();
    // all the way up, and down again
    let k = m().old.len();
    m().keys = up;
    m().strokes = 0;
    m().left = choice(2) * (k + 1);
    line(&mut t);
    for _ in 0..choice(3) {
        m().keys = second;
        m().strokes = 0;
        m().left = 2;
        line(&mut t);
    }
    os().shorts = choice(2);
    let before = os().nodes.len();
    drop(t);
    ck(30, !unsafe { crossterm::RAW });
    // the last 32 lines are kept
    let mut keep: Vec<u8> = vec![];
    let from = if m().old.len() > 32 { m().old.len() - 32 } else { 0 };
    for l in m().old[from..].iter() {
        keep.extend_from_slice(&flat(l));
        keep.push(b'\n');
    }
    if how == 3 {
        ck(31, os().nodes.len() == before);
    } else {
        ck(32, os().nodes.len() == 1 && os().nodes[0].name == b"cache/history.txt");
        ck(33, beq(&os().nodes[0].data, &keep));
        ck(34, os().opened() == 0);
    }
    reach(1);
}
