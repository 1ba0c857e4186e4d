//! C19: file words, for every outcome of the operating system.
use crate::os::*;
use crate::util::*;

/// Writes `s` into the data space at `at`.
fn put(at: usize, s: &[u8]) {
    for i in 0..s.len() {
        poke8(at + i, s[i]);
    }
}
/// `name` `fam` word ( c-addr u fam -- fileid ior )
fn open(vm: &mut VM, word: &str, at: usize, name: &str, fam: isize) -> (isize, isize) {
    put(at, name.as_bytes());
    sset(vm, &[at as isize, name.len() as isize, fam]);
    call(vm, word);
    ck(80, vm.s_stack().len() == 2);
    let r = (sget(vm, 0), sget(vm, 1));
    vm.s_stack().reset();
    r
}
/// ( .. fileid -- results ), all of them.
fn apply(vm: &mut VM, word: &str, args: &[isize], results: usize) -> Vec<isize> {
    let w = xt(vm, word);
    apply_xt(vm, w, args, results)
}
fn apply_xt(vm: &mut VM, word: usize, args: &[isize], results: usize) -> Vec<isize> {
    sset(vm, args);
    call_xt(vm, word);
    ck(81, quiet(vm));
    ck(82, vm.s_stack().len() as usize == results);
    let v = vm.s_stack().as_slice().to_vec();
    vm.s_stack().reset();
    v
}
/// Files 1 and 3 open for reading and writing, 2 closed; any position, any size.
/// Where names are put.
fn stage(vm: &mut VM) -> usize {
    let at = start(vm) + 0xe000;
    let o = os();
    o.arm(&[("a", vec![]), ("b", vec![]), ("c", vec![])]);
    o.vague = true;
    ck(90, open(vm, "open-file", at, "a", 2) == (1, 0));
    ck(91, open(vm, "open-file", at, "b", 2) == (2, 0));
    ck(92, open(vm, "open-file", at, "c", 2) == (3, 0));
    let r = apply(vm, "close-file", &[2], 1);
    ck(93, r[0] == 0);
    ck(94, o.opened() == 2);
    for i in [0, 2] {
        o.nodes[i].size = any64();
        let p = any64();
        assume(p >> 63 == 0);
        o.fds[i].pos = p;
    }
    o.calm();
    at
}
/// The kernel's view of an open file.
fn view(i: usize) -> (bool, u64, u64) {
    let o = os();
    (o.fds[i].open, o.fds[i].pos, o.nodes[o.fds[i].node].size)
}
fn ask(vm: &mut VM) -> [usize; 2] {
    [xt(vm, "file-position"), xt(vm, "file-size")]
}
/// Both files answer with what the kernel knows, whatever was done.
fn sound(vm: &mut VM, w: [usize; 2]) {
    os().settle();
    for (id, i) in [(1, 0), (3, 2)] {
        let (is, pos, size) = view(i);
        let r = apply_xt(vm, w[0], &[id], 3);
        ck(95, (r[2] == 0) == is);
        ck(96, !is | ((r[0] == pos as isize) & (r[1] == 0)));
        let r = apply_xt(vm, w[1], &[id], 3);
        ck(97, (r[2] == 0) == (is & (size >> 63 == 0)));
        ck(98, (r[2] != 0) | ((r[0] == size as isize) & (r[1] == 0)));
    }
}

/// Words that take a file identifier and at most a number.
pub extern "C" fn h_c19_id(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    stage(vm);
    let after = ask(vm);
    let o = os();
    o.faults = 1;
    o.signals = 1;
    let u = cell();
    let id = cell();
    let was = [view(0), view(2)];
    let known = (id == 1) | (id == 3);
    let k = if id == 1 { 0 } else { 1 };
    let oth = 1 - k;
    let f = [0, 2];
    match arg {
        0 => {
            let r = apply(vm, "file-size", &[u, id], 4);
            ck(1, r[0] == u);
            if known {
                let size = was[k].2;
                let fine = !o.failed & !o.interrupted;
                ck(2, !(fine & (size >> 63 == 0)) | (r[3] == 0));
                ck(3, (r[3] != 0) | ((r[1] == size as isize) & (r[2] == 0) & (size >> 63 == 0)));
                ck(4, !fine | (size >> 63 == 0) | (r[3] == code(RESULT_OUT_OF_RANGE)));
                ck(5, !o.failed | (r[3] != 0));
            } else {
                ck(6, (r[3] != 0) & (o.calls == 0));
            }
            ck(7, (view(0) == was[0]) & (view(2) == was[1]));
        }
        1 => {
            let r = apply(vm, "file-position", &[u, id], 4);
            ck(1, r[0] == u);
            if known {
                let fine = !o.failed & !o.interrupted;
                ck(2, !fine | (r[3] == 0));
                ck(3, (r[3] != 0) | ((r[1] == was[k].1 as isize) & (r[2] == 0)));
                ck(5, !o.failed | (r[3] != 0));
            } else {
                ck(6, (r[3] != 0) & (o.calls == 0));
            }
            ck(7, (view(0) == was[0]) & (view(2) == was[1]));
        }
        2 => {
            let r = apply(vm, "close-file", &[u, id], 2);
            ck(1, r[0] == u);
            ck(2, (r[1] == 0) == known);
            if known {
                ck(3, !o.fds[f[k]].open & (o.opened() == 1) & (o.closes == 1));
                ck(7, view(f[oth]) == was[oth]);
                // dead
                for w in ["file-size", "file-position"] {
                    let r = apply(vm, w, &[id], 3);
                    ck(8, r[2] != 0);
                }
                let r = apply(vm, "close-file", &[id], 1);
                ck(9, (r[0] != 0) & (o.closes == 1));
            } else {
                ck(6, (o.calls == 0) & (o.closes == 0));
            }
        }
        3 | 4 => {
            let (lo, hi) = (cell(), cell());
            let w = ["resize-file", "reposition-file"][arg as usize - 3];
            let r = apply(vm, w, &[u, lo, hi, id], 2);
            ck(1, r[0] == u);
            let valid = known & (lo >= 0) & (hi == 0);
            if valid {
                let fine = !o.failed & !o.interrupted;
                ck(2, !fine | (r[1] == 0));
                ck(5, !o.failed | (r[1] != 0));
                let now = view(f[k]);
                if r[1] == 0 {
                    if arg == 3 {
                        ck(3, now.2 == lo as u64);
                    } else {
                        ck(3, (now.1 == lo as u64) & (now.2 == was[k].2));
                    }
                } else {
                    ck(4, now == was[k]);
                }
                ck(7, view(f[oth]) == was[oth]);
            } else {
                ck(6, (r[1] != 0) & (o.calls == 0));
                ck(8, !known | (r[1] == code(INVALID_NUMERIC_ARGUMENT)));
                ck(7, (view(0) == was[0]) & (view(2) == was[1]));
            }
        }
        _ => end(),
    }
    ck(10, o.fds.len() == 3);
    sound(vm, after);
    reach(1);
}

/// read-file and write-file anywhere, of any length.
pub extern "C" fn h_c19_move(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    stage(vm);
    let after = ask(vm);
    let o = os();
    let reads = arg % 2 == 0;
    o.faults = 1;
    o.signals = 1;
    o.shorts = 2;
    let (lo, hi) = (start(vm), limit(vm));
    let was = [view(0), view(2)];
    let u = cell();
    let a = cell() as usize;
    let n = cell() as usize;
    let inside = (a >= lo) & (a <= hi) & (n <= hi.wrapping_sub(a));
    let f = [0, 2];
    if arg < 2 {
        // a sound area, of a file that is open
        let k = choice(2);
        let id = [1, 3][k];
        assume(inside);
        assume(was[k].1 < 1 << 62);
        let oth = 1 - k;
        // some byte of memory
        let q = cell() as usize;
        assume((q >= lo) & (q < hi));
        let v = peek8(q);
        let r = apply(vm, ["read-file", "write-file"][arg as usize], &[u, a as isize, n as isize, id], 2 + reads as usize);
        ck(1, r[0] == u);
        let now = view(f[k]);
        // what the kernel was told in the end
        let mut t = 0;
        let mut next = was[k].1;
        for m in o.moved.iter() {
            ck(2, m.0 == f[k]);
            ck(3, m.1 == next);
            ck(4, m.3 == peek8(a.wrapping_add(t as usize)));
            t += m.2;
            ck(5, m.4 == peek8(a.wrapping_add(t as usize - 1)));
            next = m.1 + m.2;
        }
        ck(6, (t <= n as u64) & (now.1 == next));
        let fine = !o.failed & !o.interrupted;
        if reads {
            ck(7, (r[2] == 0) | (!fine & (t == 0)));
            ck(8, !o.failed | (r[2] != 0));
            ck(9, r[1] == t as isize);
            // nothing at all only at the end of the file
            ck(10, (r[2] != 0) | (t > 0) | (n == 0) | (was[k].1 >= was[k].2));
            ck(11, now.2 == was[k].2);
            let off = q.wrapping_sub(a);
            ck(12, (off < t as usize) | (peek8(q) == v));
        } else {
            ck(7, (r[1] == 0) | !fine);
            ck(8, !o.failed | (r[1] != 0));
            ck(9, (r[1] != 0) | (t == n as u64));
            ck(12, peek8(q) == v);
        }
        ck(13, view(f[oth]) == was[oth]);
    } else {
        // anything else
        let id = cell();
        let known = (id == 1) | (id == 3);
        assume(!(inside & known));
        let r = apply(vm, ["read-file", "write-file"][arg as usize - 2], &[u, a as isize, n as isize, id], 2 + reads as usize);
        ck(1, (r[0] == u) & (r[r.len() - 1] != 0));
        ck(14, o.calls == 0);
        ck(13, (view(0) == was[0]) & (view(2) == was[1]));
    }
    ck(15, (o.fds.len() == 3) & (o.opened() == 2));
    sound(vm, after);
    reach(1);
}

/// open-file, create-file and delete-file: any name.
pub extern "C" fn h_c19_name(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let at = stage(vm);
    let after = ask(vm);
    let o = os();
    o.anyname = true;
    o.faults = 1;
    o.signals = 1;
    let was = [view(0), view(2)];
    let w = ["open-file", "create-file", "delete-file"][arg as usize % 3];
    let del = arg % 3 == 2;
    let args = if del { 2 } else { 3 };
    let u = cell();
    let fam = cell();
    let (mut a, mut n) = (at, 0);
    let (lo, hi) = (start(vm), limit(vm));
    let mut legal = true;
    match arg / 3 {
        0 => {
            // short names, of any bytes
            n = choice(4);
            for i in 0..n {
                poke8(at + i, any8());
                legal &= peek8(at + i) != 0;
            }
        }
        1 => {
            // around the longest
            n = range(255, 258);
            for i in 0..n {
                poke8(at + i, b'x' + (i % 3) as u8);
            }
            legal = n <= 256;
        }
        2 => {
            // up to the end of the data space, and beyond
            n = range(0, 3);
            let d = range(0, 4);
            a = hi - 3 + d;
            for i in 0..n {
                if a + i < hi {
                    poke8(a + i, b'x');
                }
            }
            legal = a + n <= hi;
        }
        _ => {
            // not in the data space
            a = cell() as usize;
            n = cell() as usize;
            assume(!((a >= lo) & (a <= hi) & (n <= hi.wrapping_sub(a))));
            legal = false;
        }
    }
    let v = [u, a as isize, n as isize, fam];
    let r = apply(vm, w, &v[..1 + args], if del { 2 } else { 3 });
    ck(1, r[0] == u);
    let ior = r[r.len() - 1];
    let fine = !o.failed & !o.interrupted;
    let mode = if del { true } else if arg % 3 == 1 { (fam == 1) | (fam == 2) } else { (fam >= 0) & (fam <= 2) };
    if legal & mode {
        // an interrupted call may be repeated
        ck(2, (o.paths.len() >= 1) & (o.paths.len() <= 2));
        for p in o.paths.iter() {
            ck(3, p.len() == n);
            for i in 0..n {
                ck(4, p[i] == peek8(a + i));
            }
        }
        ck(5, !fine | (ior == 0));
        ck(6, !o.failed | (ior != 0));
    } else {
        ck(7, (ior != 0) & o.paths.is_empty());
    }
    if del {
        ck(8, o.nodes[0].linked == (ior != 0));
        ck(9, (o.fds.len() == 3) & (o.opened() == 2));
    } else if ior == 0 {
        // a new one
        ck(10, (r[1] > 0) & (r[1] != 1) & (r[1] != 3));
        ck(11, (o.fds.len() == 4) & (o.opened() == 3));
        ck(12, (o.fds[3].rd == (fam != 1)) & (o.fds[3].wr == (fam != 0)));
        ck(13, (o.flags & libc::O_TRUNC != 0) == (arg % 3 == 1));
        ck(14, (o.flags & libc::O_CREAT != 0) == (arg % 3 == 1));
        ck(15, o.flags & (libc::O_APPEND | libc::O_EXCL) == 0);
        let p = any64();
        assume(p >> 63 == 0);
        o.fds[3].pos = p;
        o.settle();
        let s = apply(vm, "file-position", &[r[1]], 3);
        ck(16, (s[0] == p as isize) & (s[1] == 0) & (s[2] == 0));
    } else {
        ck(17, o.opened() == 2);
    }
    ck(18, (view(0).0, view(0).1) == (was[0].0, was[0].1));
    ck(19, view(2) == was[1]);
    sound(vm, after);
    reach(1);
}

/// An open file as the program knows it.
#[derive(Clone, Copy)]
struct Mine {
    id: isize,
    file: usize,
    pos: usize,
    rd: bool,
    wr: bool,
}

struct World {
    names: [&'static str; 3],
    there: [bool; 3],
    /// which data a name leads to
    is: [usize; 3],
    data: Vec<Vec<u8>>,
    mine: Vec<Mine>,
    at: usize,
}

fn world(vm: &mut VM) -> World {
    let at = start(vm) + 0xe000;
    let a = vec![any8(), any8(), any8()];
    let b = vec![any8(), any8()];
    os().arm(&[("a", a.clone()), ("b", b.clone())]);
    World {
        names: ["a", "b", "c"],
        there: [true, true, false],
        is: [0, 1, 9],
        data: vec![a, b],
        mine: vec![],
        at,
    }
}

impl World {
    /// One operation; what it must do, it does.
    fn step(&mut self, vm: &mut VM, op: usize) {
        let at = self.at;
        if op < 9 {
            // open or create
            let n = [0, 0, 1, 2, 2, 0, 1, 0, 1][op];
            let fam = [0, 2, 1, 0, 2, 1, 2, 1, 0][op];
            let new = [false, false, false, false, true, true, true, false, false][op];
            let (id, ior) = open(vm, if new { "create-file" } else { "open-file" }, at, self.names[n], fam);
            ck(20, quiet(vm));
            ck(21, (ior == 0) == (new | self.there[n]));
            if ior == 0 {
                ck(22, id > 0);
                for m in self.mine.iter() {
                    ck(23, m.id != id);
                }
                if !self.there[n] {
                    self.there[n] = true;
                    self.is[n] = self.data.len();
                    self.data.push(vec![]);
                }
                if new {
                    self.data[self.is[n]].clear();
                }
                self.mine.push(Mine {
                    id,
                    file: self.is[n],
                    pos: 0,
                    rd: fam != 1,
                    wr: fam != 0,
                });
            }
            return;
        }
        if op < 11 {
            let n = op - 9;
            put(at, self.names[n].as_bytes());
            let r = apply(vm, "delete-file", &[at as isize, 1], 1);
            ck(24, (r[0] == 0) == self.there[n]);
            self.there[n] = false;
            return;
        }
        let id = 1 + (op - 11) as isize % 3;
        let mut i = self.mine.len();
        for j in 0..self.mine.len() {
            if self.mine[j].id == id {
                i = j
            }
        }
        let ok = i < self.mine.len();
        let m = if ok {
            self.mine[i]
        } else {
            Mine {
                id,
                file: 0,
                pos: 0,
                rd: false,
                wr: false,
            }
        };
        match (op - 11) / 3 {
            0 => {
                let r = apply(vm, "close-file", &[id], 1);
                ck(25, (r[0] == 0) == ok);
                if ok {
                    self.mine.remove(i);
                }
            }
            1 => {
                let old = [any8(), any8(), any8()];
                put(at, &old);
                let r = apply(vm, "read-file", &[at as isize, 2, id], 2);
                ck(26, (r[1] == 0) == (ok & m.rd));
                if r[1] == 0 {
                    let d = &self.data[m.file];
                    let left = if m.pos < d.len() { d.len() - m.pos } else { 0 };
                    let k = if left < 2 { left } else { 2 };
                    ck(27, r[0] == k as isize);
                    for j in 0..3 {
                        ck(28, peek8(at + j) == if j < k { d[m.pos + j] } else { old[j] });
                    }
                    self.mine[i].pos += k;
                }
            }
            2 => {
                let new = [any8(), any8()];
                put(at, &new);
                let r = apply(vm, "write-file", &[at as isize, 2, id], 1);
                ck(29, (r[0] == 0) == (ok & m.wr));
                if r[0] == 0 {
                    let d = &mut self.data[m.file];
                    while d.len() < m.pos + 2 {
                        d.push(0)
                    }
                    d[m.pos] = new[0];
                    d[m.pos + 1] = new[1];
                    self.mine[i].pos += 2;
                }
            }
            3 => {
                let r = apply(vm, "reposition-file", &[1, 0, id], 1);
                ck(30, (r[0] == 0) == ok);
                if ok {
                    self.mine[i].pos = 1;
                }
            }
            4 => {
                let r = apply(vm, "resize-file", &[1, 0, id], 1);
                ck(31, (r[0] == 0) == (ok & m.wr));
                if r[0] == 0 {
                    self.data[m.file].resize(1, 0);
                }
            }
            _ => {
                let r = apply(vm, "resize-file", &[4, 0, id], 1);
                ck(32, (r[0] == 0) == (ok & m.wr));
                if r[0] == 0 {
                    self.data[m.file].resize(4, 0);
                }
            }
        }
    }
    /// All that can be seen is as it should be.
    fn check(&self, vm: &mut VM) {
        let o = os();
        ck(40, o.opened() == self.mine.len());
        for id in 1..6 {
            let mut m = None;
            for x in self.mine.iter() {
                if x.id == id {
                    m = Some(*x)
                }
            }
            let p = apply(vm, "file-position", &[id], 3);
            let s = apply(vm, "file-size", &[id], 3);
            match m {
                Some(m) => {
                    ck(41, (p[0] == m.pos as isize) & (p[1] == 0) & (p[2] == 0));
                    ck(42, (s[0] == self.data[m.file].len() as isize) & (s[1] == 0) & (s[2] == 0));
                }
                None => ck(43, (p[2] != 0) & (s[2] != 0)),
            }
        }
        for i in 0..3 {
            let mut found = false;
            for n in o.nodes.iter() {
                if n.linked && n.name == self.names[i].as_bytes() {
                    found = true;
                    ck(44, beq(&n.data, &self.data[self.is[i]]));
                }
            }
            ck(45, found == self.there[i]);
        }
    }
}

/// Short histories of two or three files.
fn history(vm: &mut VM, ops: &[usize]) {
    let mut w = world(vm);
    for op in ops {
        w.step(vm, *op);
    }
    w.check(vm);
    reach(1);
}
/// All histories of three operations, by the first two of them.
pub extern "C" fn h_c19_three(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let a = arg as usize % 9;
    let b = choice(29);
    let c = choice(29);
    history(vm, &[a, b, c]);
}
pub extern "C" fn h_c19_four(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let a = arg as usize % 9;
    let b = arg as usize / 9;
    let c = choice(29);
    let d = choice(29);
    history(vm, &[a, b, c, d]);
}
/// Longer ones: files open, work on them.
pub extern "C" fn h_c19_work(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let o = [[1, 4, 7], [4, 1, 8], [1, 1, 5], [2, 0, 1]][arg as usize / 18];
    let a = 11 + arg as usize % 18;
    let b = choice(29);
    let c = 11 + choice(18);
    history(vm, &[o[0], o[1], o[2], a, b, c]);
}
/// One operation of a history fails, or is cut short.
pub extern "C" fn h_c19_fault(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let mut w = world(vm);
    let o = [[1, 4], [4, 1], [6, 7]][arg as usize / 29];
    w.step(vm, o[0]);
    w.step(vm, o[1]);
    let c = choice(29);
    w.step(vm, c);
    // the same operations, while the kernel refuses
    let op = arg as usize % 29;
    os().calm();
    os().faults = 1;
    let at = w.at;
    put(at, b"b");
    let n = match op {
        0..=8 => {
            let (_, ior) = open(vm, ["open-file", "create-file"][(op > 4) as usize], at, "b", [1, 2][op % 2]);
            ior
        }
        9 | 10 => apply(vm, "delete-file", &[at as isize, 1], 1)[0],
        _ => {
            let id = 1 + (op - 11) as isize % 3;
            match (op - 11) / 3 {
                0 => end(),
                1 => apply(vm, "read-file", &[at as isize, 2, id], 2)[1],
                2 => apply(vm, "write-file", &[at as isize, 2, id], 1)[0],
                3 => apply(vm, "reposition-file", &[0, 0, id], 1)[0],
                _ => apply(vm, "resize-file", &[2, 0, id], 1)[0],
            }
        }
    };
    if !os().failed {
        end()
    }
    ck(50, n != 0);
    os().settle();
    // nothing happened
    w.check(vm);
    let d = choice(29);
    w.step(vm, d);
    w.check(vm);
    reach(1);
}

/// The files of a task are its own.
pub extern "C" fn h_c19_tasks(vm: *mut VM, arg: u64) {
    let vm = unsafe { &mut *vm };
    let at = start(vm) + 0xe000;
    os().arm(&[("a", vec![1, 2, 3]), ("b", vec![4, 5])]);
    let t = 1 + arg as usize % 4;
    let mut ids = vec![];
    for (task, name) in [(0, "a"), (t, "b"), (t, "a"), (0, "b")] {
        vm.set_current_task(task);
        let (id, ior) = open(vm, "open-file", at, name, 2);
        ck(1, ior == 0);
        ids.push((task, id, ids.len()));
    }
    // each at a place of its own
    for (task, id, n) in ids.iter() {
        vm.set_current_task(*task);
        let r = apply(vm, "reposition-file", &[10 + *n as isize, 0, *id], 1);
        ck(2, r[0] == 0);
    }
    for (task, id, n) in ids.iter() {
        vm.set_current_task(*task);
        let r = apply(vm, "file-position", &[*id], 3);
        ck(3, (r[2] == 0) & (r[0] == 10 + *n as isize));
    }
    // closing any of them closes nothing else
    let c = choice(4);
    let (task, id, _) = ids[c];
    vm.set_current_task(task);
    let r = apply(vm, "close-file", &[id], 1);
    ck(4, (r[0] == 0) & (os().opened() == 3) & !os().fds[c].open);
    for (task, id, n) in ids.iter() {
        vm.set_current_task(*task);
        let r = apply(vm, "file-position", &[*id], 3);
        ck(5, (r[2] == 0) == (*n != c));
        ck(6, (*n == c) | (r[0] == 10 + *n as isize));
    }
    // a task without files has none
    vm.set_current_task(1 + t % 4);
    let x = cell();
    let r = apply(vm, "file-position", &[x], 3);
    ck(7, r[2] != 0);
    reach(1);
}
