#![allow(static_mut_refs)]
mod exec;
mod expr;
mod ir;
mod mem;
mod domain;
mod solver;

use crate::exec::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn close(fd: i32) -> i32;
    fn getpid() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn poll(p: *mut u8, n: u64, t: i32) -> i32;
}
const O_CLOEXEC: i32 = 0o2000000;

struct Tokens {
    r: i32,
    w: i32,
}
impl Tokens {
    fn put(&self) {
        unsafe {
            write(self.w, b"t".as_ptr(), 1);
        }
    }
    fn get(&self) {
        let mut b = [0u8; 1];
        unsafe {
            while read(self.r, b.as_mut_ptr(), 1) != 1 {}
        }
    }
    fn try_get(&self) -> bool {
        // the pipe is shared: poll, then read; a lost race would block, so the
        // read end is non-blocking
        let mut b = [0u8; 1];
        unsafe { read(self.r, b.as_mut_ptr(), 1) == 1 }
    }
    fn wait_get(&self) {
        #[repr(C)]
        struct Pfd {
            fd: i32,
            ev: i16,
            rev: i16,
        }
        loop {
            if self.try_get() {
                return;
            }
            let mut p = Pfd { fd: self.r, ev: 1, rev: 0 };
            unsafe {
                poll(&mut p as *mut Pfd as *mut u8, 1, 200);
            }
        }
    }
}

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => r.push_str(&format!("\\u{:04x}", (c as u32) & 0xffff)),
            c => r.push(c),
        }
    }
    r
}

static mut SEQ: u32 = 0;

fn start_mark(out: &str) -> String {
    let id = unsafe {
        SEQ += 1;
        format!("{}-{}", getpid(), SEQ)
    };
    std::fs::write(format!("{}/{}.start", out, id), "").unwrap();
    id
}

/// One JSON object with everything this process found.
fn write_result(ex: &mut Exec, out: &str, id: &str, job: &str, t0: Instant) {
    let s = &ex.solver.stats;
    let mut j = String::from("{");
    j.push_str(&format!("\"job\":\"{}\",", esc(job)));
    j.push_str(&format!(
        "\"paths\":{},\"infeasible\":{},\"obligations\":{},\"trivial\":{},\"insts\":{},\"forks\":{},",
        ex.paths, ex.infeasible, ex.obligations, ex.trivially, ex.insts, ex.forks
    ));
    j.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"lemmas\":{},\"errors\":{},\"tables\":{},\"solver_us\":{},\"wall_ms\":{},",
        s.queries, s.sat, s.unsat, s.unknown, s.fallback, s.lemmas, s.errors, ex.solver.dom.decided, s.time_us, t0.elapsed().as_millis()
    ));
    let v: Vec<String> = ex
        .violations
        .iter()
        .map(|(k, r)| format!("{{\"key\":\"{}\",\"replay\":\"{}\"}}", esc(k), esc(r)))
        .collect();
    j.push_str(&format!("\"violations\":[{}],", v.join(",")));
    ex.inconclusive.sort();
    ex.inconclusive.dedup();
    let v: Vec<String> = ex.inconclusive.iter().take(20).map(|k| format!("\"{}\"", esc(k))).collect();
    j.push_str(&format!("\"inconclusive\":[{}],", v.join(",")));
    let v: Vec<String> = ex.samples.iter().map(|k| format!("\"{}\"", esc(k))).collect();
    j.push_str(&format!("\"samples\":[{}],", v.join(",")));
    let v: Vec<String> = ex.reached.iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect();
    j.push_str(&format!("\"reached\":{{{}}},", v.join(",")));
    let v: Vec<String> = ex.notes.iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect();
    j.push_str(&format!("\"notes\":{{{}}},", v.join(",")));
    let mut names: Vec<String> = ex
        .covered
        .iter()
        .map(|&f| {
            let d = &ex.m.fns[f as usize];
            if d.pretty.is_empty() {
                d.name.clone()
            } else {
                d.pretty.clone()
            }
        })
        .collect();
    names.sort();
    let v: Vec<String> = names.iter().map(|k| format!("\"{}\"", esc(k))).collect();
    j.push_str(&format!("\"functions\":[{}]}}", v.join(",")));
    std::fs::write(format!("{}/{}.tmp", out, id), j).unwrap();
    std::fs::rename(format!("{}/{}.tmp", out, id), format!("{}/{}.res", out, id)).unwrap();
}

fn clear_stats(ex: &mut Exec) {
    ex.paths = 0;
    ex.infeasible = 0;
    ex.obligations = 0;
    ex.trivially = 0;
    ex.reached.clear();
    ex.inconclusive.clear();
    ex.insts = 0;
    ex.forks = 0;
    ex.violations.clear();
    ex.samples.clear();
    ex.covered.clear();
    ex.notes.clear();
    ex.solver.detach();
}

fn explore(ex: &mut Exec, out: &str, id0: String, job: &str, tok: Option<&Tokens>) {
    let mut id = id0;
    let mut t0 = Instant::now();
    let mut since = 0u32;
    while let Some(mut st) = ex.work.pop() {
        let e = ex.run_path(&mut st);
        ex.finish(st, e);
        since += 1;
        if ex.inconclusive.len() > 200 {
            break;
        }
        if let Some(d) = ex.deadline {
            if Instant::now() > d {
                if !ex.work.is_empty() {
                    ex.inconclusive.push(format!("limit: time, {} states left", ex.work.len()));
                }
                break;
            }
        }
        if let Some(tk) = tok {
            while ex.work.len() >= 2 && (since > 3 || t0.elapsed() > Duration::from_millis(300)) && tk.try_get() {
                // give the older half away
                let k = (ex.work.len() + 1) / 2;
                // the child announces itself before the parent goes on
                let cid = start_mark(out);
                let pid = unsafe { fork() };
                if pid == 0 {
                    ex.work.truncate(k);
                    clear_stats(ex);
                    id = cid;
                    t0 = Instant::now();
                    since = 0;
                    break;
                } else {
                    ex.work.drain(..k);
                }
            }
        }
    }
    ex.solver.kill();
    write_result(ex, out, &id, job, t0);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let ll = get("--ll").expect("--ll FILE");
    let out = get("--out").unwrap_or("/tmp/symex-out".into());
    let jobs: usize = get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let time: u64 = get("--time").and_then(|s| s.parse().ok()).unwrap_or(600);
    let hard: u64 = get("--hard").and_then(|s| s.parse().ok()).unwrap_or(60);
    let soft: u64 = get("--soft").and_then(|s| s.parse().ok()).unwrap_or(1500);
    let verbose = args.iter().any(|a| a == "-v");
    let t_start = Instant::now();
    expr::init();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let text: &'static str = Box::leak(text.into_boxed_str());
    let m = Module::load(text);
    let mut ex = Exec::new(m);
    ex.verbose = verbose;
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();

    // concrete start-up
    let mem = ex.initial_mem();
    let mut st = ex.start_state("h_init", vec![], mem);
    ex.max_steps = u64::MAX;
    let e = ex.run_path(&mut st);
    let vm = match e {
        End::Done => match &st.top.regs[0] {
            V::C(k) => *k,
            _ => panic!("h_init"),
        },
        e => {
            eprintln!("symex: start-up failed: {:?}", e);
            for l in ex.stack_trace(&st) {
                eprintln!("   {}", l);
            }
            std::process::exit(3);
        }
    };
    let init_insts = ex.insts;
    if verbose || args.iter().any(|a| a == "--stat") {
        eprintln!(
            "start-up: {} instructions, {} ms, {} heap objects",
            init_insts,
            t_start.elapsed().as_millis(),
            st.mem.heap.len
        );
    }
    let base = st.mem.clone();
    ex.max_steps = get("--steps").and_then(|s| s.parse().ok()).unwrap_or(30_000_000);
    ex.covered.clear();
    ex.insts = 0;
    ex.solver.hard_s = hard;
    ex.solver.soft_ms = soft;
    ex.deadline = Some(t_start + Duration::from_secs(time));
    ex.solver.deadline = ex.deadline;

    let mut list: Vec<(String, u64)> = vec![];
    if let Some(f) = get("--list") {
        for l in std::fs::read_to_string(f).unwrap().lines() {
            let mut p = l.split_whitespace();
            if let Some(n) = p.next() {
                list.push((n.to_string(), p.next().and_then(|x| x.parse().ok()).unwrap_or(0)));
            }
        }
    }
    if let Some(h) = get("--run") {
        let mut p = h.split(':');
        let n = p.next().unwrap().to_string();
        list.push((n, p.next().and_then(|x| x.parse().ok()).unwrap_or(0)));
    }
    let start_args = |arg: u64| vec![V::C(vm), V::C(arg as u128)];

    if args.iter().any(|a| a == "--single") {
        for (h, a) in &list {
            let st = ex.start_state(h, start_args(*a), base.clone());
            ex.name = h.clone();
            ex.work.push(st);
            let id = start_mark(&out);
            explore(&mut ex, &out, id, &format!("{} {}", h, a), None);
        }
        println!(
            "paths {} infeasible {} obligations {} trivial {} insts {} forks {} queries {} ({} ms solver) lemmas {} fallback {}",
            ex.paths, ex.infeasible, ex.obligations, ex.trivially, ex.insts, ex.forks,
            ex.solver.stats.queries, ex.solver.stats.time_us / 1000, ex.solver.stats.lemmas, ex.solver.stats.fallback
        );
        for (k, v) in &ex.violations {
            println!("VIOL {}\n{}", k, v);
        }
        for k in &ex.inconclusive {
            println!("INCONCLUSIVE {}", k);
        }
        println!("reached {:?} notes {:?}", ex.reached, ex.notes);
        let mut s: Vec<_> = ex.fork_sites.iter().collect();
        s.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in s.iter().take(15) {
            println!("  forks {} at {} block {} ip {}", v, ex.m.fns[k.0 as usize].pretty, k.1, k.2);
        }
        return;
    }

    unsafe {
        let mut p = [0i32; 2];
        pipe2(p.as_mut_ptr(), O_CLOEXEC | 0o4000);
        let tok = Tokens { r: p[0], w: p[1] };
        for _ in 0..jobs {
            tok.put();
        }
        let mut q = [0i32; 2];
        pipe2(q.as_mut_ptr(), O_CLOEXEC);
        let mut kids = vec![];
        for (h, a) in &list {
            tok.wait_get();
            let id = start_mark(&out);
            let pid = fork();
            if pid == 0 {
                close(q[0]);
                ex.solver.detach();
                let st = ex.start_state(h, start_args(*a), base.clone());
                ex.name = h.clone();
                ex.work.push(st);
                explore(&mut ex, &out, id, &format!("{} {}", h, a), Some(&tok));
                tok.put();
                _exit(0);
            }
            kids.push(pid);
        }
        close(q[1]);
        let mut b = [0u8; 16];
        while read(q[0], b.as_mut_ptr(), 16) > 0 {}
        for k in kids {
            let mut s = 0;
            waitpid(k, &mut s, 0);
        }
    }
    // every started process must have reported
    let mut lost = 0;
    let mut parts: Vec<String> = vec![];
    let mut names: BTreeMap<String, ()> = BTreeMap::new();
    for e in std::fs::read_dir(&out).unwrap() {
        let p = e.unwrap().path();
        names.insert(p.to_string_lossy().to_string(), ());
    }
    for p in names.keys() {
        if let Some(b) = p.strip_suffix(".start") {
            let r = format!("{}.res", b);
            if let Ok(s) = std::fs::read_to_string(&r) {
                parts.push(s);
            } else {
                lost += 1;
            }
        }
    }
    let j = format!(
        "{{\"init_insts\":{},\"lost\":{},\"wall_s\":{:.3},\"parts\":[\n{}\n]}}\n",
        init_insts,
        lost,
        t_start.elapsed().as_secs_f64(),
        parts.join(",\n")
    );
    std::fs::write(format!("{}/result.json", out), j).unwrap();
}
