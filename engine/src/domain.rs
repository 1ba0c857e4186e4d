//! Finite domains: branch conditions over one or two byte-sized variables are
//! decided with complete tables of their values, without asking the solver.

use crate::expr::*;
use crate::solver::{Res, Solver};
use std::collections::HashMap;
use std::rc::Rc;

/// Values `e` takes when its variables run through `cols` (one column per
/// variable, all of length n). None: not a table-sized term.
fn table(e: Ex, cols: &HashMap<u32, Rc<Vec<u128>>>, n: usize) -> Option<Rc<Vec<u128>>> {
    let mut memo: HashMap<Ex, Rc<Vec<u128>>> = HashMap::new();
    let mut stack = vec![e];
    while let Some(&t) = stack.last() {
        if memo.contains_key(&t) {
            stack.pop();
            continue;
        }
        let nd = node(t);
        let ks = kids(nd);
        let mut ready = true;
        for &k in &ks {
            if node(k).op != Op::Const && !memo.contains_key(&k) {
                stack.push(k);
                ready = false;
            }
        }
        if !ready {
            continue;
        }
        stack.pop();
        if memo.len() > 400 {
            return None;
        }
        let g = |x: Ex, i: usize| -> u128 {
            let nn = node(x);
            if nn.op == Op::Const {
                nn.k
            } else {
                memo[&x][i]
            }
        };
        let mut v = Vec::with_capacity(n);
        match nd.op {
            Op::Const => v.resize(n, nd.k),
            Op::Var => {
                memo.insert(t, cols.get(&(nd.k as u32))?.clone());
                continue;
            }
            Op::Ite => {
                for i in 0..n {
                    v.push(if g(nd.a, i) == 1 { g(nd.b, i) } else { g(nd.c, i) })
                }
            }
            Op::Concat => {
                let s = w(nd.b);
                for i in 0..n {
                    v.push((g(nd.a, i) << s) | g(nd.b, i))
                }
            }
            Op::Extract => {
                let m = mask(nd.w);
                for i in 0..n {
                    v.push((g(nd.a, i) >> nd.k) & m)
                }
            }
            Op::ZExt => {
                for i in 0..n {
                    v.push(g(nd.a, i))
                }
            }
            Op::SExt => {
                let (s, m) = (w(nd.a), mask(nd.w));
                for i in 0..n {
                    v.push((sx(g(nd.a, i), s) as u128) & m)
                }
            }
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::And | Op::Or | Op::Xor
            | Op::Shl | Op::LShr | Op::AShr | Op::Eq | Op::Ult | Op::Slt => {
                let s = w(nd.a);
                for i in 0..n {
                    v.push(bin_concrete(nd.op, s, g(nd.a, i), g(nd.b, i)))
                }
            }
            _ => return None,
        }
        memo.insert(t, Rc::new(v));
    }
    memo.get(&e).cloned()
}

#[derive(Default)]
pub struct Domains {
    /// condition over one variable -> the values that satisfy it
    sets: HashMap<Ex, Option<[u128; 2]>>,
    pub decided: u64,
}

fn var_of(l: Ex) -> Option<(u32, u8)> {
    let n = node(l);
    if n.op == Op::Var && n.w <= 8 {
        Some((n.k as u32, n.w))
    } else {
        None
    }
}

impl Domains {
    fn set_of(&mut self, c: Ex, x: u32, wd: u8) -> Option<[u128; 2]> {
        if let Some(s) = self.sets.get(&c) {
            return *s;
        }
        let n = 1usize << wd;
        let mut cols = HashMap::new();
        cols.insert(x, Rc::new((0..n as u128).collect::<Vec<_>>()));
        let r = table(c, &cols, n).map(|t| {
            let mut s = [0u128; 2];
            for i in 0..n {
                if t[i] == 1 {
                    s[i >> 7] |= 1 << (i & 127);
                }
            }
            s
        });
        self.sets.insert(c, r);
        r
    }
}

impl Solver {
    /// Decide `pc` and `extra` where a model of `pc` is at hand.
    pub fn check_from(&mut self, pc: &[Ex], extra: Ex, model: &Model) -> Res {
        if let Some(r) = self.presolve(pc, extra, model) {
            self.dom.decided += 1;
            return r;
        }
        self.check(pc, extra)
    }

    fn presolve(&mut self, pc: &[Ex], extra: Ex, model: &Model) -> Option<Res> {
        if is_const(extra).is_some() {
            return None;
        }
        let ls = self.leaves(extra);
        if ls.is_empty() || ls.len() > 24 {
            return None;
        }
        let mut vars = vec![];
        for &l in ls.iter() {
            if node(l).op != Op::Uf {
                vars.push(var_of(l)?);
            }
        }
        let many = vars.len() != ls.len() || vars.len() > 3;
        // the values each variable may still have
        let mut doms: Vec<Vec<u128>> = vec![];
        let mut conds: Vec<Ex> = vec![extra];
        let mut sets: Vec<[u128; 2]> = vars
            .iter()
            .map(|&(_, wd)| if wd == 8 { [u128::MAX; 2] } else { [mask(1 << wd), 0] })
            .collect();
        for &c in pc {
            let cl = self.leaves(c);
            if cl.is_empty() || cl.len() > ls.len() || !cl.iter().all(|l| ls.contains(l)) {
                continue;
            }
            if cl.len() == 1 {
                if node(cl[0]).op == Op::Uf {
                    continue;
                }
                let (x, wd) = var_of(cl[0]).unwrap();
                let i = vars.iter().position(|v| v.0 == x).unwrap();
                match self.dom.set_of(c, x, wd) {
                    Some(s) => {
                        sets[i][0] &= s[0];
                        sets[i][1] &= s[1];
                    }
                    None => conds.push(c),
                }
            } else {
                conds.push(c);
            }
        }
        if vars.len() == 1 {
            if let Some(s) = self.dom.set_of(extra, vars[0].0, vars[0].1) {
                sets[0][0] &= s[0];
                sets[0][1] &= s[1];
                conds.remove(0);
            }
        }
        let mut n = 1usize;
        for (i, s) in sets.iter().enumerate() {
            let mut d = vec![];
            for v in 0..(1usize << vars[i].1) {
                if s[v >> 7] >> (v & 127) & 1 == 1 {
                    d.push(v as u128);
                }
            }
            n = n.saturating_mul(d.len());
            doms.push(d);
        }
        if n == 0 {
            return Some(Res::Unsat);
        }
        if n > if many { 16 } else if vars.len() == 1 { 256 } else { 1500 } {
            return None;
        }
        let mut cols = HashMap::new();
        let mut rep = 1;
        for (i, d) in doms.iter().enumerate() {
            let mut c = Vec::with_capacity(n);
            while c.len() < n {
                for &v in d {
                    for _ in 0..rep {
                        c.push(v);
                    }
                }
            }
            rep *= d.len();
            cols.insert(vars[i].0, Rc::new(c));
        }
        let mut ok = vec![true; n];
        for &c in &conds {
            match table(c, &cols, n) {
                Some(t) => {
                    for i in 0..n {
                        ok[i] &= t[i] == 1;
                    }
                }
                None if n <= 16 => {
                    for i in 0..n {
                        let mut m = Model::default();
                        for &(x, _) in &vars {
                            m.vars.insert(x, cols[&x][i]);
                        }
                        ok[i] &= m.eval(c) == 1;
                    }
                }
                None => return None,
            }
        }
        let mut tried = 0;
        let count = ok.iter().filter(|&&b| b).count();
        if count == 0 {
            return Some(Res::Unsat);
        }
        let step = (count / 4).max(1);
        let mut seen = 0;
        for i in 0..n {
            if !ok[i] {
                continue;
            }
            seen += 1;
            if (seen - 1) % step != 0 {
                continue;
            }
            let mut m = Model { vars: model.vars.clone(), sels: model.sels.clone(), ufs: model.ufs.clone(), ..Default::default() };
            for &(x, _) in &vars {
                m.vars.insert(x, cols[&x][i]);
            }
            if m.eval(extra) == 1 && pc.iter().all(|&c| m.eval(c) == 1) {
                return Some(Res::Sat(m));
            }
            tried += 1;
            if tried >= 4 {
                break;
            }
        }
        None
    }
}
