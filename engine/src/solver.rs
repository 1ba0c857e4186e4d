//! SMT solver driver: one long-lived incremental z3 process whose assertion
//! stack follows the path condition, plus a one-shot portfolio for the queries
//! it cannot decide in time.

use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub lemmas: u64,
    pub errors: u64,
    pub time_us: u64,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

pub struct Solver {
    p: Option<Proc>,
    defined: HashSet<Ex>,
    declared_vars: HashSet<u32>,
    declared_arrs: HashSet<u32>,
    declared_ufs: HashSet<u32>,
    stack: Vec<Ex>,
    leaves: HashMap<Ex, Rc<Vec<Ex>>>,
    pub stats: Stats,
    pub soft_ms: u64,
    pub hard_s: u64,
    buf: String,
    lemma_set: HashSet<Ex>,
    pub lemmas_of: HashMap<u32, Vec<Ex>>,
    tag: String,
    pub deadline: Option<Instant>,
    pub dom: crate::domain::Domains,
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            p: None,
            defined: HashSet::new(),
            declared_vars: HashSet::new(),
            declared_arrs: HashSet::new(),
            declared_ufs: HashSet::new(),
            stack: vec![],
            leaves: HashMap::new(),
            stats: Stats::default(),
            soft_ms: 1500,
            hard_s: 60,
            buf: String::new(),
            lemma_set: HashSet::new(),
            lemmas_of: HashMap::new(),
            tag: String::new(),
            deadline: None,
            dom: Default::default(),
        }
    }

    /// Forget the process (after fork the child must not share the pipe).
    pub fn detach(&mut self) {
        if let Some(p) = self.p.take() {
            std::mem::forget(p);
        }
        self.reset_state();
        self.stats = Stats::default();
        self.dom.decided = 0;
    }

    fn reset_state(&mut self) {
        self.defined.clear();
        self.declared_vars.clear();
        self.declared_arrs.clear();
        self.declared_ufs.clear();
        self.stack.clear();
        self.buf.clear();
    }

    pub fn kill(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
        self.reset_state();
    }

    fn start(&mut self) {
        self.reset_state();
        let mut child = Command::new("z3-new")
            .args(["-in", "-smt2", "memory_max_size=3000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3-new");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        self.p = Some(Proc { child, inp, out });
        self.buf.push_str("(set-option :global-declarations true)\n");
        self.buf.push_str(&format!("(set-option :timeout {})\n", self.soft_ms));
        self.tag = String::new();
    }

    /// Leaves (variables, array selects, uninterpreted applications) of a term.
    pub fn leaves(&mut self, e: Ex) -> Rc<Vec<Ex>> {
        if let Some(l) = self.leaves.get(&e) {
            return l.clone();
        }
        let mut seen = HashSet::new();
        let mut out = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if x != e {
                if let Some(l) = self.leaves.get(&x) {
                    for &y in l.iter() {
                        if seen.insert(y | 0x8000_0000) {
                            out.push(y);
                        }
                    }
                    continue;
                }
            }
            let n = node(x);
            match n.op {
                Op::Var | Op::Sel | Op::Uf => {
                    if seen.insert(x | 0x8000_0000) {
                        out.push(x);
                    }
                }
                _ => {}
            }
            st.extend(kids(n));
        }
        let r = Rc::new(out);
        self.leaves.insert(e, r.clone());
        r
    }

    fn define_into(
        e: Ex,
        defined: &mut HashSet<Ex>,
        dv: &mut HashSet<u32>,
        da: &mut HashSet<u32>,
        du: &mut HashSet<u32>,
        buf: &mut String,
    ) {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            let n = node(x);
            if n.op == Op::Const || defined.contains(&x) {
                st.pop();
                continue;
            }
            let ks = kids(n);
            let mut ready = true;
            for k in ks {
                if node(k).op != Op::Const && !defined.contains(&k) {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            defined.insert(x);
            match n.op {
                Op::Var => {
                    if dv.insert(n.k as u32) {
                        buf.push_str(&format!("(declare-fun v{} () {})\n", n.k, sort(n.w)));
                    }
                }
                _ => {
                    if n.op == Op::Sel && da.insert(n.k as u32) {
                        buf.push_str(&format!(
                            "(declare-fun A{} ((_ BitVec 64)) (_ BitVec 8))\n",
                            n.k
                        ));
                    }
                    if n.op == Op::Uf && du.insert(n.k as u32) {
                        buf.push_str(&format!(
                            "(declare-fun f_{} ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))\n",
                            UF_NAMES[n.k as usize]
                        ));
                    }
                    buf.push_str(&format!("(define-fun e{} () {} {})\n", x, sort(n.w), body(x)));
                }
            }
        }
    }

    fn define(&mut self, e: Ex) {
        Self::define_into(
            e,
            &mut self.defined,
            &mut self.declared_vars,
            &mut self.declared_arrs,
            &mut self.declared_ufs,
            &mut self.buf,
        );
    }

    fn flush(&mut self) -> bool {
        if let Ok(f) = std::env::var("SYMEX_DUMP") {
            let path = format!("{}.{}", f, std::process::id());
            if let Ok(mut o) = std::fs::OpenOptions::new().create(true).append(true).open(path) {
                let _ = o.write_all(self.buf.as_bytes());
            }
        }
        let p = self.p.as_mut().unwrap();
        let ok = p.inp.write_all(self.buf.as_bytes()).and_then(|_| p.inp.flush()).is_ok();
        self.buf.clear();
        ok
    }

    fn read_line(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.p.as_mut().unwrap().out.read_line(&mut s) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(s),
        }
    }

    fn read_sexp(&mut self) -> Option<String> {
        let mut r = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.read_line()?;
            for c in l.bytes() {
                match c {
                    b'(' => depth += 1,
                    b')' => depth -= 1,
                    _ => {}
                }
            }
            r.push_str(&l);
            if depth <= 0 {
                return Some(r);
            }
        }
    }

    /// Satisfiability of the conjunction of `pc` and `extra`.
    pub fn check(&mut self, pc: &[Ex], extra: Ex) -> Res {
        let t0 = Instant::now();
        let r = self.check0(pc, extra);
        self.stats.time_us += t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }

    fn check0(&mut self, pc: &[Ex], extra: Ex) -> Res {
        if let Some(k) = is_const(extra) {
            if k == 0 {
                return Res::Unsat;
            }
        }
        loop {
            if self.p.is_none() || self.defined.len() > 400_000 {
                self.kill();
                self.start();
            }
            // sync the stack
            let mut common = 0;
            while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] {
                common += 1;
            }
            let drop = self.stack.len() - common;
            if drop > 0 {
                self.buf.push_str(&format!("(pop {})\n", drop));
                self.stack.truncate(common);
            }
            for &c in &pc[common..] {
                self.define(c);
                self.buf.push_str("(push 1)\n(assert ");
                self.buf.push_str(&term(c));
                self.buf.push_str(")\n");
                self.stack.push(c);
            }
            let lemmas = self.relevant_lemmas(pc, extra);
            self.define(extra);
            for &l in &lemmas {
                self.define(l);
            }
            self.buf.push_str("(push 1)\n(assert ");
            self.buf.push_str(&term(extra));
            self.buf.push_str(")\n");
            for &l in &lemmas {
                self.buf.push_str(&format!("(assert {})\n", term(l)));
            }
            self.buf.push_str("(check-sat)\n");
            if !self.flush() {
                self.kill();
                return self.oneshot(pc, extra, None);
            }
            let mut ans = match self.read_line() {
                None => {
                    self.kill();
                    return self.oneshot(pc, extra, None);
                }
                Some(l) => l.trim().to_string(),
            };
            if ans.starts_with("(error") {
                self.stats.errors += 1;
                eprintln!("symex: solver error: {}", ans);
                self.kill();
                return Res::Unknown;
            }
            let res;
            if ans == "sat" {
                let leaves = self.query_leaves(pc, extra);
                match self.get_model(&leaves) {
                    Some(m) => {
                        self.buf.push_str("(pop 1)\n");
                        if self.refine(&leaves, &m) {
                            continue;
                        }
                        res = Res::Sat(m);
                        return res;
                    }
                    None => {
                        self.kill();
                        ans = "unknown".into();
                    }
                }
            }
            if ans == "unsat" {
                self.buf.push_str("(pop 1)\n");
                return Res::Unsat;
            }
            // unknown / timeout
            if self.p.is_some() {
                self.buf.push_str("(pop 1)\n");
            }
            self.stats.fallback += 1;
            return self.oneshot(pc, extra, None);
        }
    }

    fn query_leaves(&mut self, pc: &[Ex], extra: Ex) -> Vec<Ex> {
        let mut seen = HashSet::new();
        let mut out = vec![];
        for &c in pc.iter().chain(std::iter::once(&extra)) {
            for &l in self.leaves(c).iter() {
                if seen.insert(l) {
                    out.push(l);
                }
            }
        }
        out
    }

    fn relevant_lemmas(&mut self, pc: &[Ex], extra: Ex) -> Vec<Ex> {
        if self.lemmas_of.is_empty() {
            return vec![];
        }
        let leaves = self.query_leaves(pc, extra);
        let mut r = vec![];
        for l in leaves {
            if node(l).op == Op::Sel {
                if let Some(ls) = self.lemmas_of.get(&l) {
                    r.extend(ls.iter().cloned());
                }
            }
        }
        r
    }

    fn refine(&mut self, leaves: &[Ex], m: &Model) -> bool {
        let mut mm = Model { vars: m.vars.clone(), sels: m.sels.clone(), ufs: m.ufs.clone(), ..Default::default() };
        let mut any = false;
        for &l in leaves {
            let n = node(l);
            if n.op != Op::Sel {
                continue;
            }
            let arr = n.k as u32;
            let kn = match cx().arrs[arr as usize].known.clone() {
                Some(k) => k,
                None => continue,
            };
            let idx = mm.eval(n.a) as u64;
            let got = match m.sels.get(&(arr, idx)) {
                Some(&v) => v,
                None => continue,
            };
            if let Some(e) = kn(idx) {
                if mm.eval(e) != got {
                    // around the witnessed index, state the known contents
                    for d in 0..16u64 {
                        let i = (idx & !7).wrapping_add(d).wrapping_sub(0);
                        if let Some(e) = kn(i) {
                            let guard = eq(n.a, konst(i as u128, 64));
                            let lem = or1(not1(guard), eq(l, e));
                            if self.lemma_set.insert(lem) {
                                self.lemmas_of.entry(l).or_default().push(lem);
                                self.stats.lemmas += 1;
                                any = true;
                            }
                        }
                    }
                }
            }
        }
        any
    }

    fn get_model(&mut self, leaves: &[Ex]) -> Option<Model> {
        let mut names: Vec<(String, Ex, u8)> = vec![];
        let mut q = String::from("(get-value (");
        let mut add = |e: Ex, role: u8| {
            let t = term(e);
            q.push_str(&t);
            q.push(' ');
            names.push((t, e, role));
        };
        for &l in leaves {
            let n = node(l);
            match n.op {
                Op::Var => add(l, 0),
                Op::Sel => {
                    add(l, 1);
                    if is_const(n.a).is_none() {
                        add(n.a, 2);
                    }
                }
                Op::Uf => {
                    add(l, 3);
                    if is_const(n.a).is_none() {
                        add(n.a, 2);
                    }
                    if is_const(n.b).is_none() {
                        add(n.b, 2);
                    }
                }
                _ => {}
            }
        }
        let mut m = Model::default();
        if names.is_empty() {
            return Some(m);
        }
        q.push_str("))\n");
        self.buf.push_str(&q);
        if !self.flush() {
            return None;
        }
        let s = self.read_sexp()?;
        if s.starts_with("(error") {
            self.stats.errors += 1;
            eprintln!("symex: get-value: {}", s);
            return None;
        }
        let vals = parse_values(&s);
        fill_model(&mut m, leaves, &vals);
        Some(m)
    }

    /// Decide in fresh solver processes run side by side.
    pub fn oneshot(&mut self, pc: &[Ex], extra: Ex, hard: Option<u64>) -> Res {
        let mut hard = hard.unwrap_or(self.hard_s);
        if let Some(d) = self.deadline {
            let left = d.saturating_duration_since(Instant::now()).as_secs();
            hard = hard.min(left.max(1));
        }
        loop {
            let lemmas = self.relevant_lemmas(pc, extra);
            let leaves = self.query_leaves(pc, extra);
            let mut buf = String::new();
            let (mut a, mut b, mut c, mut d) =
                (HashSet::new(), HashSet::new(), HashSet::new(), HashSet::new());
            let mut has_fp = false;
            for &x in pc.iter().chain(std::iter::once(&extra)).chain(lemmas.iter()) {
                Self::define_into(x, &mut a, &mut b, &mut c, &mut d, &mut buf);
            }
            for &x in a.iter() {
                if (node(x).op as u8) >= (Op::FAdd as u8) && node(x).op != Op::Uf {
                    has_fp = true;
                }
            }
            for &x in pc.iter().chain(std::iter::once(&extra)).chain(lemmas.iter()) {
                buf.push_str(&format!("(assert {})\n", term(x)));
            }
            buf.push_str("(check-sat)\n");
            let mut gv = String::from("(get-value (");
            let mut cnt = 0;
            for &l in &leaves {
                gv.push_str(&term(l));
                gv.push(' ');
                cnt += 1;
                let n = node(l);
                if n.op == Op::Sel || n.op == Op::Uf {
                    for k in kids(n) {
                        if is_const(k).is_none() {
                            gv.push_str(&term(k));
                            gv.push(' ');
                        }
                    }
                }
            }
            gv.push_str("))\n");
            if cnt > 0 {
                buf.push_str(&gv);
            }
            let mut cmds: Vec<(&str, Vec<String>, String)> = vec![
                (
                    "z3-new",
                    vec!["-in".into(), "-smt2".into(), format!("-T:{}", hard), "memory_max_size=4000".into()],
                    buf.clone(),
                ),
                (
                    "z3",
                    vec!["-in".into(), "-smt2".into(), format!("-T:{}", hard), "memory_max_size=4000".into()],
                    buf.clone(),
                ),
            ];
            if !has_fp {
                cmds.push((
                    "cvc5",
                    vec!["--lang=smt2".into(), "--produce-models".into(), format!("--tlimit={}", hard * 1000)],
                    format!("(set-logic ALL)\n{}", buf),
                ));
                cmds.push((
                    "cvc5",
                    vec![
                        "--lang=smt2".into(),
                        "--produce-models".into(),
                        "--solve-bv-as-int=sum".into(),
                        format!("--tlimit={}", hard * 1000),
                    ],
                    format!("(set-logic ALL)\n{}", buf),
                ));
            }
            let mut procs = vec![];
            let (tx, rx) = std::sync::mpsc::channel::<(usize, String)>();
            for (i, (c, args, input)) in cmds.into_iter().enumerate() {
                let ch = Command::new(c)
                    .args(&args)
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn();
                if let Ok(mut ch) = ch {
                    let mut inp = ch.stdin.take().unwrap();
                    let mut out = ch.stdout.take().unwrap();
                    let tx = tx.clone();
                    std::thread::spawn(move || {
                        let _ = inp.write_all(input.as_bytes());
                        std::mem::drop(inp);
                        let mut s = String::new();
                        use std::io::Read;
                        let _ = out.read_to_string(&mut s);
                        let _ = tx.send((i, s));
                    });
                    procs.push(ch);
                }
            }
            std::mem::drop(tx);
            let mut left = procs.len();
            let mut verdict = None;
            let t0 = Instant::now();
            while left > 0 && t0.elapsed() < Duration::from_secs(hard + 5) {
                match rx.recv_timeout(Duration::from_millis(500)) {
                    Ok((i, s)) => {
                        left -= 1;
                        let first = s.lines().next().unwrap_or("").trim().to_string();
                        if first == "sat" || first == "unsat" {
                            if first == "sat" && i == 3 {
                                continue; // models of the integer encoding are not used
                            }
                            verdict = Some((first, s));
                            break;
                        }
                    }
                    Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
                    Err(_) => break,
                }
            }
            for p in procs.iter_mut() {
                let _ = p.kill();
                let _ = p.wait();
            }
            match verdict {
                Some((v, _)) if v == "unsat" => return Res::Unsat,
                Some((_, s)) => {
                    let mut m = Model::default();
                    if cnt > 0 {
                        let rest = &s[s.find('\n').unwrap_or(0)..];
                        if rest.contains("(error") {
                            return Res::Unknown;
                        }
                        let vals = parse_values(rest);
                        fill_model(&mut m, &leaves, &vals);
                    }
                    if self.refine(&leaves, &m) {
                        continue;
                    }
                    return Res::Sat(m);
                }
                None => return Res::Unknown,
            }
        }
    }
}

fn fill_model(m: &mut Model, leaves: &[Ex], vals: &HashMap<String, u128>) {
    let get = |e: Ex| -> Option<u128> {
        match is_const(e) {
            Some(k) => Some(k),
            None => vals.get(&term(e)).cloned(),
        }
    };
    for &l in leaves {
        let n = node(l);
        match n.op {
            Op::Var => {
                if let Some(v) = get(l) {
                    m.vars.insert(n.k as u32, v);
                }
            }
            Op::Sel => {
                if let (Some(v), Some(i)) = (get(l), get(n.a)) {
                    m.sels.insert((n.k as u32, i as u64), v);
                }
            }
            Op::Uf => {
                if let (Some(v), Some(x), Some(y)) = (get(l), get(n.a), get(n.b)) {
                    m.ufs.insert((n.k as u32, x, y), v);
                }
            }
            _ => {}
        }
    }
}

fn parse_values(s: &str) -> HashMap<String, u128> {
    // ((name value) ...), value: #x.. #b.. true false (_ bvN w)
    let mut r = HashMap::new();
    let toks: Vec<String> = {
        let mut v = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            match c {
                '(' | ')' => {
                    if !cur.is_empty() {
                        v.push(std::mem::take(&mut cur));
                    }
                    v.push(c.to_string());
                }
                c if c.is_whitespace() => {
                    if !cur.is_empty() {
                        v.push(std::mem::take(&mut cur));
                    }
                }
                c => cur.push(c),
            }
        }
        v
    };
    let mut i = 0;
    while i + 2 < toks.len() {
        if toks[i] == "(" && toks[i + 1] != "(" && toks[i + 1] != ")" && toks[i + 1] != "_" {
            let name = toks[i + 1].clone();
            let v = &toks[i + 2];
            let val = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()
            } else if let Some(h) = v.strip_prefix("#b") {
                u128::from_str_radix(h, 2).ok()
            } else if v == "true" {
                Some(1)
            } else if v == "false" {
                Some(0)
            } else if v == "(" && toks.get(i + 3).map(|x| x == "_").unwrap_or(false) {
                toks.get(i + 4).and_then(|x| x.strip_prefix("bv")).and_then(|x| x.parse().ok())
            } else {
                None
            };
            if let Some(v) = val {
                r.insert(name, v);
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    r
}
