//! Stand-in for the terminal: keys come from the harness, what is drawn goes to
//! standard output in a form the harness can tell from text (0xFF is in no text).
use std::io;

pub static mut RAW: bool = false;
pub static mut SWITCHES: usize = 0;
pub static mut KEY: fn() -> io::Result<event::Event> = nokey;
fn nokey() -> io::Result<event::Event> {
    Err(io::Error::from(io::ErrorKind::Other))
}

pub type Result<T> = io::Result<T>;
pub type ErrorKind = io::Error;

pub trait Command {
    fn put(&self, w: &mut dyn io::Write) -> io::Result<()>;
}

#[macro_export]
macro_rules! queue {
    ($w:expr $(, $c:expr)* $(,)?) => {{
        let w = &mut $w;
        let r: std::io::Result<()> = (|| {
            $( $crate::Command::put(&$c, w)?; )*
            Ok(())
        })();
        r
    }};
}
#[macro_export]
macro_rules! execute {
    ($w:expr $(, $c:expr)* $(,)?) => {{
        let r = $crate::queue!($w $(, $c)*);
        r.and_then(|_| std::io::Write::flush(&mut $w))
    }};
}
pub trait QueueableCommand: io::Write + Sized {
    fn queue(&mut self, c: impl Command) -> io::Result<&mut Self> {
        c.put(self)?;
        Ok(self)
    }
}
impl<W: io::Write> QueueableCommand for W {}
pub trait ExecutableCommand: io::Write + Sized {
    fn execute(&mut self, c: impl Command) -> io::Result<&mut Self> {
        c.put(self)?;
        self.flush()?;
        Ok(self)
    }
}
impl<W: io::Write> ExecutableCommand for W {}

fn put(w: &mut dyn io::Write, k: u8, n: u16) -> io::Result<()> {
    w.write_all(&[0xFF, k, n as u8, (n >> 8) as u8])
}

pub mod cursor {
    use super::*;
    pub fn position() -> io::Result<(u16, u16)> {
        Ok((3, 7))
    }
    macro_rules! commands {
        ($($n:ident($($a:ident),*) $k:literal $x:expr;)*) => {
            $(#[derive(Clone, Copy)]
            pub struct $n($(pub commands!(@ $a)),*);
            impl Command for $n {
                #[allow(unused_variables)]
                fn put(&self, w: &mut dyn io::Write) -> io::Result<()> {
                    let f: fn(&$n) -> u16 = $x;
                    super::put(w, $k, f(self))
                }
            })*
        };
        (@ $a:ident) => { u16 };
    }
    commands! {
        MoveTo(a, b) b'M' |m| m.0;
        MoveToColumn(a) b'M' |m| m.0;
        MoveLeft(a) b'L' |m| m.0;
        MoveRight(a) b'R' |m| m.0;
    }
    macro_rules! plain {
        ($($n:ident)*) => { $(#[derive(Clone, Copy)] pub struct $n;
            impl Command for $n {
                fn put(&self, _: &mut dyn io::Write) -> io::Result<()> {
                    Ok(())
                }
            })*
        };
    }
    plain! { Hide Show }
}

pub mod style {
    use super::*;
    pub struct Print<T: std::fmt::Display>(pub T);
    impl<T: std::fmt::Display> Command for Print<T> {
        fn put(&self, w: &mut dyn io::Write) -> io::Result<()> {
            write!(w, "{}", self.0)
        }
    }
}

pub mod terminal {
    use super::*;
    pub fn enable_raw_mode() -> io::Result<()> {
        unsafe {
            RAW = true;
            SWITCHES += 1;
        }
        Ok(())
    }
    pub fn disable_raw_mode() -> io::Result<()> {
        unsafe {
            RAW = false;
            SWITCHES += 1;
        }
        Ok(())
    }
    pub fn is_raw_mode_enabled() -> io::Result<bool> {
        Ok(unsafe { RAW })
    }
    pub fn size() -> io::Result<(u16, u16)> {
        Ok((80, 25))
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum ClearType {
        All,
        Purge,
        FromCursorDown,
        FromCursorUp,
        CurrentLine,
        UntilNewLine,
    }
    #[derive(Clone, Copy)]
    pub struct Clear(pub ClearType);
    impl Command for Clear {
        fn put(&self, w: &mut dyn io::Write) -> io::Result<()> {
            super::put(w, b'C', self.0 as u16)
        }
    }
}

pub mod event {
    use super::*;
    pub fn read() -> io::Result<Event> {
        unsafe { KEY() }
    }
    pub fn poll(_: std::time::Duration) -> io::Result<bool> {
        Ok(true)
    }
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub enum Event {
        FocusGained,
        FocusLost,
        Key(KeyEvent),
        Mouse(MouseEvent),
        Paste(String),
        Resize(u16, u16),
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct MouseEvent {
        pub column: u16,
        pub row: u16,
        pub modifiers: KeyModifiers,
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum KeyEventKind {
        Press,
        Repeat,
        Release,
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct KeyEvent {
        pub code: KeyCode,
        pub modifiers: KeyModifiers,
        pub kind: KeyEventKind,
    }
    impl KeyEvent {
        pub const fn new(code: KeyCode, modifiers: KeyModifiers) -> KeyEvent {
            KeyEvent { code, modifiers, kind: KeyEventKind::Press }
        }
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum KeyCode {
        Backspace,
        Enter,
        Left,
        Right,
        Up,
        Down,
        Home,
        End,
        PageUp,
        PageDown,
        Tab,
        BackTab,
        Delete,
        Insert,
        F(u8),
        Char(char),
        Null,
        Esc,
        CapsLock,
        ScrollLock,
        NumLock,
        PrintScreen,
        Pause,
        Menu,
        KeypadBegin,
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct KeyModifiers(u8);
    impl KeyModifiers {
        pub const NONE: KeyModifiers = KeyModifiers(0);
        pub const SHIFT: KeyModifiers = KeyModifiers(1);
        pub const CONTROL: KeyModifiers = KeyModifiers(2);
        pub const ALT: KeyModifiers = KeyModifiers(4);
        pub const SUPER: KeyModifiers = KeyModifiers(8);
        pub const HYPER: KeyModifiers = KeyModifiers(16);
        pub const META: KeyModifiers = KeyModifiers(32);
        pub const fn bits(&self) -> u8 {
            self.0
        }
        pub const fn empty() -> KeyModifiers {
            KeyModifiers(0)
        }
        pub const fn is_empty(&self) -> bool {
            self.0 == 0
        }
        pub const fn from_bits_truncate(b: u8) -> KeyModifiers {
            KeyModifiers(b & 63)
        }
        pub const fn contains(&self, o: KeyModifiers) -> bool {
            self.0 & o.0 == o.0
        }
        pub const fn intersects(&self, o: KeyModifiers) -> bool {
            self.0 & o.0 != 0
        }
    }
    impl std::ops::BitOr for KeyModifiers {
        type Output = KeyModifiers;
        fn bitor(self, o: KeyModifiers) -> KeyModifiers {
            KeyModifiers(self.0 | o.0)
        }
    }
    impl std::ops::BitAnd for KeyModifiers {
        type Output = KeyModifiers;
        fn bitand(self, o: KeyModifiers) -> KeyModifiers {
            KeyModifiers(self.0 & o.0)
        }
    }
}
