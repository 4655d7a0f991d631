#![allow(dead_code)]
use std::{cell::RefCell, io, rc::Rc};

use starlit::{lit::Lit, proof::Proof, solver::Solver};

pub fn lit(n: isize) -> Lit {
    Lit::from_dimacs(n)
}

pub fn lits(c: &[isize]) -> Vec<Lit> {
    c.iter().map(|&n| lit(n)).collect()
}

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        ((self.0 >> 11) % n as u64) as usize
    }
}

/// Random formula with clauses of the given length.
pub fn random(seed: u64, vars: usize, clauses: usize, len: usize) -> Vec<Vec<isize>> {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..10 {
        r.next(2);
    }
    (0..clauses)
        .map(|_| {
            let mut c: Vec<isize> = vec![];
            while c.len() < len {
                let v = 1 + r.next(vars) as isize;
                if c.iter().all(|&x| x.abs() != v) {
                    c.push(if r.next(2) == 0 { v } else { -v });
                }
            }
            c
        })
        .collect()
}

/// Pigeon hole formula.
pub fn php(n: isize) -> Vec<Vec<isize>> {
    let v = |p: isize, h: isize| p * n + h + 1;
    let mut out = vec![];
    for p in 0..n + 1 {
        out.push((0..n).map(|h| v(p, h)).collect());
    }
    for h in 0..n {
        for p in 0..n + 1 {
            for q in 0..p {
                out.push(vec![-v(p, h), -v(q, h)]);
            }
        }
    }
    out
}

/// Whether the values the solver reports satisfy all clauses.
pub fn satisfied(s: &Solver, cs: &[Vec<isize>]) -> bool {
    cs.iter().all(|c| c.iter().any(|&x| s.value(lit(x)) == Some(true)))
}

/// Satisfiability by a simple complete search.
pub fn brute(cs: &[Vec<isize>], vars: usize) -> bool {
    fn go(cs: &[Vec<isize>], val: &mut Vec<i8>) -> bool {
        let mut trail = vec![];
        loop {
            let mut unit = None;
            for c in cs {
                let mut free = 0;
                let mut last = 0;
                let mut sat = false;
                for &x in c {
                    let v = val[x.unsigned_abs()];
                    if v == 0 {
                        if last != x {
                            free += 1;
                        }
                        last = x;
                    } else if (v > 0) == (x > 0) {
                        sat = true;
                    }
                }
                if !sat && free == 0 {
                    for v in trail {
                        val[v] = 0;
                    }
                    return false;
                }
                if !sat && free == 1 {
                    unit = Some(last);
                    break;
                }
            }
            match unit {
                Some(x) => {
                    val[x.unsigned_abs()] = if x > 0 { 1 } else { -1 };
                    trail.push(x.unsigned_abs());
                }
                None => break,
            }
        }
        let free = (1..val.len()).find(|&v| val[v] == 0);
        let r = match free {
            None => true,
            Some(v) => [1i8, -1].iter().any(|&b| {
                val[v] = b;
                let r = go(cs, val);
                val[v] = 0;
                r
            }),
        };
        for v in trail {
            val[v] = 0;
        }
        r
    }
    go(cs, &mut vec![0; vars + 1])
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Add(Vec<isize>),
    Del(Vec<isize>),
}

/// Collects proof steps.
#[derive(Clone, Default)]
pub struct Log(pub Rc<RefCell<Vec<Step>>>);

impl Proof for Log {
    fn add_clause(&mut self, c: &[Lit]) {
        self.0.borrow_mut().push(Step::Add(c.iter().map(|l| l.dimacs()).collect()));
    }
    fn delete_clause(&mut self, c: &[Lit]) {
        self.0.borrow_mut().push(Step::Del(c.iter().map(|l| l.dimacs()).collect()));
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn sorted(c: &[isize]) -> Vec<isize> {
    let mut c = c.to_vec();
    c.sort();
    c
}

/// Whether the clause follows by unit propagation.
pub fn rup(db: &[Vec<isize>], c: &[isize], vars: usize) -> bool {
    let mut val = vec![0i8; vars + 1];
    for &x in c {
        val[x.unsigned_abs()] = if x > 0 { -1 } else { 1 };
    }
    loop {
        let mut any = false;
        for c in db {
            let mut free = 0;
            let mut last = 0;
            let mut sat = false;
            for &x in c {
                let v = val[x.unsigned_abs()];
                if v == 0 {
                    if last != x {
                        free += 1;
                    }
                    last = x;
                } else if (v > 0) == (x > 0) {
                    sat = true;
                }
            }
            if sat {
                continue;
            }
            if free == 0 {
                return true;
            }
            if free == 1 {
                val[last.unsigned_abs()] = if last > 0 { 1 } else { -1 };
                any = true;
            }
        }
        if !any {
            return false;
        }
    }
}

/// Checks a proof; `Ok(true)` if it ends in the empty clause.
pub fn check(cs: &[Vec<isize>], steps: &[Step], vars: usize) -> Result<bool, String> {
    let mut db: Vec<Vec<isize>> = cs.to_vec();
    let mut empty = false;
    for (i, s) in steps.iter().enumerate() {
        match s {
            Step::Add(c) => {
                if !rup(&db, c, vars) {
                    return Err(format!("step {}: {:?} does not follow", i, c));
                }
                empty |= c.is_empty();
                db.push(c.clone());
            }
            Step::Del(c) => {
                let k = sorted(c);
                match db.iter().rposition(|d| sorted(d) == k) {
                    Some(j) => {
                        db.remove(j);
                    }
                    None => return Err(format!("step {}: {:?} is not there", i, c)),
                }
            }
        }
    }
    Ok(empty)
}

/// Solves the formula with a recorded proof, checks verdict, model and proof.
pub fn audit(cs: &[Vec<isize>], vars: usize) -> Result<bool, String> {
    let mut s = Solver::default();
    s.ctx.logger.set_log_level(None);
    let log = Log::default();
    s.write_proof(Box::new(log.clone()));
    for c in cs {
        s.add_clause(&lits(c));
    }
    let r = s.solve();
    if r && !satisfied(&s, cs) {
        return Err("the model does not satisfy the formula".into());
    }
    let done = check(cs, &log.0.borrow(), vars)?;
    if !r && !done && !cs.iter().any(|c| c.is_empty()) {
        return Err("the proof does not end in the empty clause".into());
    }
    Ok(r)
}
