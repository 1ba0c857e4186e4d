//! The operating system, as far as files go: the system calls behind
//! std::fs::File, with every outcome they may have.  Armed by a harness; it
//! stands between the real standard library and a small file system in memory,
//! in both builds, so nothing here touches a real file.
use crate::sym::*;
use libc::{c_char, c_int, c_void};

pub const FD: i32 = 100;

pub struct Node {
    pub name: Vec<u8>,
    pub linked: bool,
    pub data: Vec<u8>,
    /// In an abstract file only the size is kept, and what was transferred.
    pub size: u64,
}
pub struct Open {
    pub node: usize,
    pub pos: u64,
    pub rd: bool,
    pub wr: bool,
    pub open: bool,
}
pub struct Os {
    pub armed: bool,
    /// Files of any size, whose contents are whatever is transferred.
    pub vague: bool,
    /// Every name opens the first file.
    pub anyname: bool,
    pub nodes: Vec<Node>,
    pub fds: Vec<Open>,
    /// How many calls may still fail.
    pub faults: usize,
    /// How many calls may still be interrupted by a signal.
    pub signals: usize,
    /// How many transfers may still be short.
    pub shorts: usize,
    pub failed: bool,
    pub interrupted: bool,
    pub calls: usize,
    pub closes: usize,
    /// The names given, last one last.
    pub paths: Vec<Vec<u8>>,
    pub flags: i32,
    /// Transfers: file, position, length, first and last byte, where to.
    pub moved: Vec<(usize, u64, u64, u8, u8)>,
    /// What is written to standard output is kept.
    pub show: bool,
    pub screen: Vec<u8>,
}
pub static mut OS: Os = Os {
    armed: false,
    vague: false,
    anyname: false,
    nodes: vec![],
    fds: vec![],
    faults: 0,
    signals: 0,
    shorts: 0,
    failed: false,
    interrupted: false,
    calls: 0,
    closes: 0,
    paths: vec![],
    flags: 0,
    moved: vec![],
    show: false,
    screen: vec![],
};
pub fn os() -> &'static mut Os {
    unsafe { &mut OS }
}
impl Os {
    /// Starts with the files named.
    pub fn arm(&mut self, files: &[(&str, Vec<u8>)]) {
        self.armed = true;
        for (n, d) in files {
            self.nodes.push(Node {
                name: n.as_bytes().to_vec(),
                linked: true,
                size: d.len() as u64,
                data: d.clone(),
            });
        }
    }
    /// Forgets what happened so far.
    pub fn calm(&mut self) {
        self.failed = false;
        self.interrupted = false;
        self.calls = 0;
        self.closes = 0;
        self.moved.clear();
        self.paths.clear();
    }
    /// No more faults.
    pub fn settle(&mut self) {
        self.faults = 0;
        self.signals = 0;
        self.shorts = 0;
    }
    fn size(&self, n: usize) -> u64 {
        if self.vague {
            self.nodes[n].size
        } else {
            self.nodes[n].data.len() as u64
        }
    }
    pub fn opened(&self) -> usize {
        let mut n = 0;
        for f in self.fds.iter() {
            n += f.open as usize
        }
        n
    }
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// Whether this call fails, by an error or a signal.
fn fails() -> bool {
    let o = os();
    o.calls += 1;
    if o.signals > 0 && flag() {
        o.signals -= 1;
        o.interrupted = true;
        set_errno(libc::EINTR);
        return true;
    }
    if o.faults > 0 && flag() {
        o.faults -= 1;
        o.failed = true;
        let e = any8();
        assume((e != 0) & (e != libc::EINTR as u8) & (e < 134));
        set_errno(e as i32);
        return true;
    }
    false
}
fn err(e: i32) -> i64 {
    os().failed = true;
    set_errno(e);
    -1
}
fn mine(fd: c_int) -> bool {
    os().armed && fd >= FD
}
fn alive(fd: c_int) -> bool {
    let i = (fd - FD) as usize;
    i < os().fds.len() && os().fds[i].open
}
unsafe fn text(p: *const c_char) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while *p.add(i) != 0 {
        v.push(*p.add(i) as u8);
        i += 1;
    }
    v
}

#[cfg(feature = "native")]
macro_rules! real {
    ($n:ident $(, $a:expr)*) => { libc::syscall(libc::$n $(, $a)*) };
}
#[cfg(not(feature = "native"))]
macro_rules! real {
    ($n:ident $(, $a:expr)*) => {{ $( let _ = $a; )* set_errno(libc::EBADF); -1 }};
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if !os().armed {
        return real!(SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int;
    }
    let name = text(path);
    os().paths.push(name.clone());
    os().flags = flags;
    if fails() {
        return -1;
    }
    let o = os();
    let mut node = None;
    if o.anyname {
        node = Some(0);
    } else {
        for i in 0..o.nodes.len() {
            if o.nodes[i].linked && o.nodes[i].name == name {
                node = Some(i);
            }
        }
    }
    let node = match node {
        Some(n) => {
            if flags & libc::O_EXCL != 0 {
                return err(libc::EEXIST) as c_int;
            }
            n
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return err(libc::ENOENT) as c_int;
            }
            o.nodes.push(Node {
                name,
                linked: true,
                data: vec![],
                size: 0,
            });
            o.nodes.len() - 1
        }
    };
    if flags & libc::O_TRUNC != 0 {
        o.nodes[node].data.clear();
        o.nodes[node].size = 0;
    }
    let acc = flags & libc::O_ACCMODE;
    o.fds.push(Open {
        node,
        pos: 0,
        rd: acc != libc::O_WRONLY,
        wr: acc != libc::O_RDONLY,
        open: true,
    });
    FD + o.fds.len() as c_int - 1
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !mine(fd) {
        return real!(SYS_close, fd) as c_int;
    }
    // closing what is not open might close somebody else's file
    ck(971, alive(fd));
    os().closes += 1;
    os().fds[(fd - FD) as usize].open = false;
    0
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
    if !mine(fd) {
        return real!(SYS_read, fd, p, n) as isize;
    }
    if !alive(fd) || !os().fds[(fd - FD) as usize].rd {
        return err(libc::EBADF) as isize;
    }
    if fails() {
        return -1;
    }
    let o = os();
    let f = (fd - FD) as usize;
    let node = o.fds[f].node;
    let pos = o.fds[f].pos;
    let size = o.size(node);
    let p = p as *mut u8;
    if o.vague {
        let left = if pos < size { size - pos } else { 0 };
        // up to three bytes, or all of them; the bytes in between are as they are
        let k = match choice(5) {
            4 => n as u64,
            k => k as u64,
        };
        assume((k <= n as u64) & (k <= left));
        if k == 0 {
            assume((n == 0) | (left == 0));
            return 0;
        }
        let (a, b) = (any8(), any8());
        *p = a;
        *p.add(k as usize - 1) = b;
        o.moved.push((f, pos, k, *p, b));
        o.fds[f].pos = pos + k;
        return k as isize;
    }
    let left = if pos < size { (size - pos) as usize } else { 0 };
    let mut k = if left < n { left } else { n };
    if k > 1 && o.shorts > 0 {
        let s = range(1, k);
        if s < k {
            o.shorts -= 1
        }
        k = s;
    }
    for i in 0..k {
        *p.add(i) = o.nodes[node].data[pos as usize + i];
    }
    o.fds[f].pos = pos + k as u64;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    if fd == 1 && os().show {
        os().screen.extend_from_slice(std::slice::from_raw_parts(p as *const u8, n));
        return n as isize;
    }
    if !mine(fd) {
        #[cfg(feature = "native")]
        return real!(SYS_write, fd, p, n) as isize;
        #[cfg(not(feature = "native"))]
        return n as isize;
    }
    if !alive(fd) || !os().fds[(fd - FD) as usize].wr {
        return err(libc::EBADF) as isize;
    }
    if fails() {
        return -1;
    }
    let o = os();
    let f = (fd - FD) as usize;
    let node = o.fds[f].node;
    let pos = o.fds[f].pos;
    let p = p as *const u8;
    if o.vague {
        let k = if o.shorts > 0 {
            match choice(5) {
                4 => n as u64,
                k => {
                    o.shorts -= 1;
                    k as u64
                }
            }
        } else {
            n as u64
        };
        assume(k <= n as u64);
        if k == 0 {
            if n > 0 {
                // nothing was taken: no progress can be made
                o.failed = true;
            }
            return 0;
        }
        o.moved.push((f, pos, k, *p, *p.add(k as usize - 1)));
        o.fds[f].pos = pos.wrapping_add(k);
        if pos.wrapping_add(k) > o.nodes[node].size {
            o.nodes[node].size = pos.wrapping_add(k);
        }
        return k as isize;
    }
    let mut k = n;
    if k > 1 && o.shorts > 0 {
        let s = range(1, k);
        if s < k {
            o.shorts -= 1
        }
        k = s;
    }
    for i in 0..k {
        let at = pos as usize + i;
        while o.nodes[node].data.len() <= at {
            o.nodes[node].data.push(0);
        }
        o.nodes[node].data[at] = *p.add(i);
    }
    o.fds[f].pos = pos + k as u64;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if !mine(fd) {
        return real!(SYS_lseek, fd, off, whence) as i64;
    }
    if !alive(fd) {
        return err(libc::EBADF);
    }
    if fails() {
        return -1;
    }
    let o = os();
    let f = (fd - FD) as usize;
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => o.fds[f].pos as i64,
        _ => o.size(o.fds[f].node) as i64,
    };
    let to = base.wrapping_add(off);
    if (to < 0) | ((off > 0) & (to < base)) {
        return err(libc::EINVAL);
    }
    o.fds[f].pos = to as u64;
    to
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if !mine(fd) {
        return real!(SYS_ftruncate, fd, len) as c_int;
    }
    if !alive(fd) {
        return err(libc::EBADF) as c_int;
    }
    if !os().fds[(fd - FD) as usize].wr {
        return err(libc::EINVAL) as c_int;
    }
    if fails() {
        return -1;
    }
    if len < 0 {
        return err(libc::EINVAL) as c_int;
    }
    let o = os();
    let node = o.fds[(fd - FD) as usize].node;
    if o.vague {
        o.nodes[node].size = len as u64;
    } else {
        o.nodes[node].data.resize(len as usize, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !mine(fd) {
        return real!(SYS_fsync, fd) as c_int;
    }
    if fails() {
        return -1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut libc::statx) -> c_int {
    if !os().armed || (fd < FD && !path.is_null() && *path != 0) {
        return real!(SYS_statx, fd, path, flags, mask, buf) as c_int;
    }
    if path.is_null() || buf.is_null() {
        // std asks whether the call exists at all
        set_errno(libc::EFAULT);
        return -1;
    }
    if !alive(fd) {
        return err(libc::EBADF) as c_int;
    }
    if fails() {
        return -1;
    }
    let o = os();
    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
    (*buf).stx_mask = libc::STATX_BASIC_STATS;
    (*buf).stx_mode = libc::S_IFREG as u16 | 0o644;
    (*buf).stx_nlink = 1;
    (*buf).stx_size = o.size(o.fds[(fd - FD) as usize].node);
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    if !mine(fd) {
        return real!(SYS_fstat, fd, buf) as c_int;
    }
    if !alive(fd) {
        return err(libc::EBADF) as c_int;
    }
    if fails() {
        return -1;
    }
    let o = os();
    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*buf).st_mode = libc::S_IFREG | 0o644;
    (*buf).st_size = o.size(o.fds[(fd - FD) as usize].node) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: u32) -> c_int {
    if !os().armed {
        return real!(SYS_mkdir, path, mode) as c_int;
    }
    if fails() {
        return -1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if !os().armed {
        return real!(SYS_unlink, path) as c_int;
    }
    let name = text(path);
    os().paths.push(name.clone());
    if fails() {
        return -1;
    }
    let o = os();
    for n in o.nodes.iter_mut() {
        if n.linked && (o.anyname || n.name == name) {
            n.linked = false;
            return 0;
        }
    }
    err(libc::ENOENT) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_int) -> c_int {
    if !mine(fd) {
        return real!(SYS_fcntl, fd, cmd, arg) as c_int;
    }
    if !alive(fd) {
        set_errno(libc::EBADF);
        return -1;
    }
    0
}
