//! Exhaustive enumeration of grammars by size.
use crate::gram::G;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Space {
    pub atoms: Vec<G>,
    pub max_arity: usize,
    pub max_fix: usize,
    /// Exclude `(a . b) . c` style direct nesting in first position and nested alternations.
    pub flat: bool,
}

pub struct Enum {
    pub space: Space,
    memo: HashMap<(usize, usize), Rc<Vec<G>>>,
}

impl Enum {
    pub fn new(space: Space) -> Self {
        Enum { space, memo: HashMap::new() }
    }

    /// All grammars with exactly `n` nodes and at most `d` free variables.
    pub fn terms(&mut self, n: usize, d: usize) -> Rc<Vec<G>> {
        if let Some(v) = self.memo.get(&(n, d)) {
            return v.clone();
        }
        let mut out = Vec::new();
        if n == 1 {
            out.extend(self.space.atoms.iter().cloned());
            out.extend((0..d).map(G::Ref));
        }
        if n >= 3 {
            let mut seqs = Vec::new();
            self.seqs(n - 1, d, self.space.max_arity, &mut Vec::new(), &mut seqs);
            for s in &seqs {
                if !(self.space.flat && s.iter().any(|g| matches!(g, G::Cat(_)))) {
                    out.push(G::Cat(s.clone()));
                }
            }
            for s in seqs {
                if !(self.space.flat && s.iter().any(|g| matches!(g, G::Alt(_)))) {
                    out.push(G::Alt(s));
                }
            }
        }
        if n >= 2 && d < self.space.max_fix {
            let b = self.terms(n - 1, d + 1);
            out.extend(b.iter().map(|g| G::Fix(Box::new(g.clone()))));
        }
        let v = Rc::new(out);
        self.memo.insert((n, d), v.clone());
        v
    }

    fn seqs(&mut self, n: usize, d: usize, left: usize, pre: &mut Vec<G>, out: &mut Vec<Vec<G>>) {
        // `pre` so far, `n` nodes to distribute over at most `left` more parts
        if left == 0 {
            return;
        }
        if pre.len() >= 1 {
            for g in self.terms(n, d).iter() {
                let mut s = pre.clone();
                s.push(g.clone());
                out.push(s);
            }
        }
        for k in 1..n {
            for g in self.terms(k, d).iter() {
                pre.push(g.clone());
                self.seqs(n - k, d, left - 1, pre, out);
                pre.pop();
            }
        }
    }
}

/// Letters must first occur in the order of `letters` (one representative per renaming).
pub fn canonical(g: &G, letters: &[char]) -> bool {
    fn go(g: &G, letters: &[char], next: &mut usize) -> bool {
        match g {
            G::Lit(s) => s.chars().all(|c| match letters.iter().position(|l| *l == c) {
                None => true,
                Some(p) if p < *next => true,
                Some(p) if p == *next => {
                    *next += 1;
                    true
                }
                Some(_) => false,
            }),
            G::Cat(v) | G::Alt(v) => v.iter().all(|g| go(g, letters, next)),
            G::Fix(b) => go(b, letters, next),
            _ => true,
        }
    }
    go(g, letters, &mut 0)
}

/// All closed grammars with at most `n` nodes, one per renaming of letters.
pub fn closed(space: Space, n: usize, letters: &[char]) -> Vec<G> {
    let mut e = Enum::new(space);
    let mut out = Vec::new();
    for k in 1..=n {
        out.extend(e.terms(k, 0).iter().filter(|g| canonical(g, letters)).cloned());
    }
    out
}
