//! Grammar programs with functions, lets and labels; call-by-name reference semantics.
use crate::gram::{quote, G};
use std::collections::HashMap;
use std::rc::Rc;

/// Terms with De Bruijn variables. A `Lam` of n parameters binds the last one as index 0.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum U {
    Eps,
    Lit(String),
    Var(usize),
    Cat(Vec<U>),
    Alt(Vec<U>),
    Fix(Box<U>),
    Call(Box<U>, Vec<U>),
    Lam(usize, Box<U>),
    Lab(Box<U>, String),
}

/// `let` statements (each sees the ones before it) and the goal.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Prog {
    pub lets: Vec<U>,
    pub goal: U,
}

pub fn v(i: usize) -> U {
    U::Var(i)
}
pub fn ulit(s: &str) -> U {
    U::Lit(s.into())
}
pub fn ufix(u: U) -> U {
    U::Fix(Box::new(u))
}
pub fn lam(n: usize, u: U) -> U {
    U::Lam(n, Box::new(u))
}
pub fn call(h: U, a: Vec<U>) -> U {
    U::Call(Box::new(h), a)
}
pub fn ucat(p: Vec<U>) -> U {
    U::Cat(p)
}
pub fn ualt(p: Vec<U>) -> U {
    U::Alt(p)
}
pub fn lab(u: U, l: &str) -> U {
    U::Lab(Box::new(u), l.into())
}

/// How to print binder names: innermost binder last.
pub struct Names {
    pub let_name: fn(usize) -> String,
    pub param: fn(usize) -> String,
}

pub const PLAIN: Names = Names { let_name: |k| format!("f{}", k), param: |d| format!("x{}", d) };

impl U {
    pub fn size(&self) -> usize {
        1 + match self {
            U::Eps | U::Lit(_) | U::Var(_) => 0,
            U::Cat(p) | U::Alt(p) => p.iter().map(U::size).sum(),
            U::Fix(b) | U::Lam(_, b) | U::Lab(b, _) => b.size(),
            U::Call(h, a) => h.size() + a.iter().map(U::size).sum::<usize>(),
        }
    }

    /// `prec`: 0 expression, 1 alternation, 2 part of an alternation, 3 part of a sequence, 4 term.
    fn text(&self, scope: &mut Vec<String>, names: &Names, prec: usize, out: &mut String) {
        let own = match self {
            U::Eps | U::Lit(_) | U::Var(_) | U::Fix(_) => 4,
            U::Call(..) => 3,
            U::Cat(_) => 2,
            U::Lab(..) => 1,
            U::Alt(_) => 1,
            U::Lam(..) => 0,
        };
        // a label is one alternative; an alternation inside an alternation needs parentheses
        let open = match self {
            U::Lab(..) => prec > 2,
            U::Alt(_) => prec > 1,
            U::Cat(_) => prec > 2,
            _ => prec > own,
        };
        if open {
            out.push('(');
        }
        match self {
            U::Eps => out.push('_'),
            U::Lit(s) => out.push_str(&quote(s)),
            U::Var(i) => match scope.len().checked_sub(1 + i) {
                Some(k) => out.push_str(&scope[k]),
                None => out.push_str("undeclared"),
            },
            U::Cat(p) => {
                for (k, u) in p.iter().enumerate() {
                    if k > 0 {
                        out.push_str(" . ");
                    }
                    u.text(scope, names, 3, out);
                }
            }
            U::Alt(p) => {
                for (k, u) in p.iter().enumerate() {
                    if k > 0 {
                        out.push_str(" | ");
                    }
                    u.text(scope, names, 2, out);
                }
            }
            U::Lab(u, l) => {
                // a label applies to a sequence (or anything tighter)
                u.text(scope, names, if matches!(**u, U::Lab(..)) { 3 } else { 2 }, out);
                out.push_str(" : ");
                out.push_str(l);
            }
            U::Fix(b) => {
                out.push('!');
                b.text(scope, names, 4, out);
            }
            U::Call(h, a) => {
                h.text(scope, names, 4, out);
                for u in a {
                    out.push(' ');
                    u.text(scope, names, 4, out);
                }
            }
            U::Lam(n, b) => {
                out.push('/');
                let l = scope.len();
                for k in 0..*n {
                    scope.push((names.param)(l + k));
                    if k > 0 {
                        out.push(' ');
                    }
                    out.push_str(&scope[l + k]);
                }
                out.push_str("/ ");
                b.text(scope, names, 1, out);
                scope.truncate(l);
            }
        }
        if open {
            out.push(')');
        }
    }
}

impl Prog {
    pub fn goal(goal: U) -> Prog {
        Prog { lets: vec![], goal }
    }

    pub fn text(&self) -> String {
        self.text_with(&PLAIN)
    }

    pub fn text_with(&self, names: &Names) -> String {
        let mut scope = Vec::new();
        let mut out = String::new();
        for (k, u) in self.lets.iter().enumerate() {
            let name = (names.let_name)(k);
            out.push_str("let ");
            out.push_str(&name);
            // odd ones are written as a lambda, even ones with parameters
            if let (U::Lam(n, b), 0) = (u, k % 2) {
                let l = scope.len();
                for i in 0..*n {
                    scope.push((names.param)(l + i));
                    out.push(' ');
                    out.push_str(&scope[l + i]);
                }
                out.push_str(" = ");
                b.text(&mut scope, names, 0, &mut out);
                scope.truncate(l);
            } else {
                out.push_str(" = ");
                u.text(&mut scope, names, 0, &mut out);
            }
            out.push_str("; ");
            scope.push(name);
        }
        out.push_str("match ");
        self.goal.text(&mut scope, names, 0, &mut out);
        out.push(';');
        out
    }
}

// ------------------------------------------------------------------ semantics

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Mistake {
    NotAFunction,
    ArgCount(usize, usize),
    LambdaAsGrammar,
    FixOfNonFunction,
    FixOfManyParameters,
}

pub enum Slot {
    Thunk(Rc<U>, Env),
    FixVar(usize),
}

#[derive(Clone)]
pub struct Env(Option<Rc<(Slot, Env)>>);

impl Env {
    pub fn empty() -> Env {
        Env(None)
    }
    fn push(&self, s: Slot) -> Env {
        Env(Some(Rc::new((s, self.clone()))))
    }
    fn get(&self, i: usize) -> Option<&Slot> {
        let mut e = self;
        for _ in 0..i {
            e = &e.0.as_ref()?.1;
        }
        e.0.as_ref().map(|p| &p.0)
    }
}

enum Val {
    Gram(G),
    Fun(usize, Rc<U>, Env),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Stop {
    /// does not terminate (within the budget)
    Fuel,
    Mistake(Mistake),
    /// a variable without binder
    Unbound,
}

pub struct Eval {
    fuel: usize,
    depth: usize,
    /// mistakes that do not stop expansion
    pub later: Vec<Mistake>,
}

impl Eval {
    fn eval(&mut self, u: &Rc<U>, env: &Env, depth: usize) -> Result<Val, Stop> {
        if self.fuel == 0 || self.depth > 200 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        self.depth += 1;
        let r = self.go(u, env, depth);
        self.depth -= 1;
        r
    }

    fn gram(&mut self, u: &U, env: &Env, depth: usize) -> Result<G, Stop> {
        match self.eval(&Rc::new(u.clone()), env, depth)? {
            Val::Gram(g) => Ok(g),
            Val::Fun(..) => {
                self.later.push(Mistake::LambdaAsGrammar);
                Ok(G::Eps)
            }
        }
    }

    fn go(&mut self, u: &Rc<U>, env: &Env, depth: usize) -> Result<Val, Stop> {
        Ok(Val::Gram(match &**u {
            U::Eps => G::Eps,
            U::Lit(s) => G::Lit(s.clone()),
            U::Var(i) => match env.get(*i).ok_or(Stop::Unbound)? {
                Slot::FixVar(l) => G::Ref(depth - 1 - l),
                Slot::Thunk(u, e) => {
                    let (u, e) = (u.clone(), e.clone());
                    return self.eval(&u, &e, depth);
                }
            },
            U::Cat(p) => G::Cat(p.iter().map(|u| self.gram(u, env, depth)).collect::<Result<_, _>>()?),
            U::Alt(p) => G::Alt(p.iter().map(|u| self.gram(u, env, depth)).collect::<Result<_, _>>()?),
            U::Lab(u, _) => return self.eval(&Rc::new((**u).clone()), env, depth),
            U::Lam(n, b) => return Ok(Val::Fun(*n, Rc::new((**b).clone()), env.clone())),
            U::Fix(f) => match self.eval(&Rc::new((**f).clone()), env, depth)? {
                Val::Fun(1, b, e) => {
                    let e = e.push(Slot::FixVar(depth));
                    let body = self.gram(&b, &e, depth + 1)?;
                    G::Fix(Box::new(body))
                }
                Val::Fun(n, b, e) => {
                    self.later.push(Mistake::FixOfManyParameters);
                    // an implementation may expand the body before it notices
                    let e = (0..n).fold(e, |e, k| e.push(Slot::FixVar(depth + k)));
                    self.gram(&b, &e, depth + n)?;
                    G::Eps
                }
                Val::Gram(_) => {
                    self.later.push(Mistake::FixOfNonFunction);
                    G::Eps
                }
            },
            U::Call(h, a) => match self.eval(&Rc::new((**h).clone()), env, depth)? {
                Val::Gram(_) => return Err(Stop::Mistake(Mistake::NotAFunction)),
                Val::Fun(n, b, e) => {
                    if n != a.len() {
                        return Err(Stop::Mistake(Mistake::ArgCount(n, a.len())));
                    }
                    let mut e = e;
                    for x in a {
                        e = e.push(Slot::Thunk(Rc::new(x.clone()), env.clone()));
                    }
                    return self.eval(&b, &e, depth);
                }
            },
        }))
    }
}

/// Full expansion. `Ok((g, mistakes))`: `g` is meaningful when there are no mistakes.
pub fn expand(p: &Prog, fuel: usize) -> Result<(G, Vec<Mistake>), Stop> {
    let mut ev = Eval { fuel, depth: 0, later: vec![] };
    let mut env = Env::empty();
    for l in &p.lets {
        env = env.push(Slot::Thunk(Rc::new(l.clone()), env.clone()));
    }
    let g = ev.gram(&p.goal, &env, 0)?;
    Ok((g, ev.later))
}

// ---------------------------------------------------------------- enumeration

#[derive(Clone)]
pub struct TermSpace {
    pub atoms: Vec<U>,
    pub cat: bool,
    pub alt: bool,
    pub fix: bool,
    pub lams: Vec<usize>,
    pub calls: Vec<usize>,
    pub labs: Vec<String>,
}

pub struct TermEnum {
    pub space: TermSpace,
    memo: HashMap<(usize, usize), Rc<Vec<U>>>,
}

impl TermEnum {
    pub fn new(space: TermSpace) -> Self {
        TermEnum { space, memo: HashMap::new() }
    }

    /// All terms of exactly `n` nodes with variables below `d`.
    pub fn terms(&mut self, n: usize, d: usize) -> Rc<Vec<U>> {
        if let Some(v) = self.memo.get(&(n, d)) {
            return v.clone();
        }
        let mut out = Vec::new();
        if n == 1 {
            out.extend(self.space.atoms.iter().cloned());
            out.extend((0..d).map(U::Var));
        }
        if n >= 2 {
            for k in self.space.lams.clone() {
                for b in self.terms(n - 1, d + k).iter() {
                    out.push(lam(k, b.clone()));
                }
            }
            for l in self.space.labs.clone() {
                for b in self.terms(n - 1, d).iter() {
                    out.push(lab(b.clone(), &l));
                }
            }
            if self.space.fix {
                for b in self.terms(n - 1, d).iter() {
                    out.push(ufix(b.clone()));
                }
            }
        }
        for s in self.splits(n.saturating_sub(1), 2, d) {
            if self.space.cat {
                out.push(ucat(s.clone()));
            }
            if self.space.alt {
                out.push(ualt(s));
            }
        }
        for k in self.space.calls.clone() {
            for mut s in self.splits(n.saturating_sub(1), k + 1, d) {
                let h = s.remove(0);
                out.push(call(h, s));
            }
        }
        let r = Rc::new(out);
        self.memo.insert((n, d), r.clone());
        r
    }

    /// All sequences of `k` terms with `n` nodes in total.
    pub fn splits(&mut self, n: usize, k: usize, d: usize) -> Vec<Vec<U>> {
        if k == 1 {
            return if n == 0 { vec![] } else { self.terms(n, d).iter().map(|u| vec![u.clone()]).collect() };
        }
        let mut out = Vec::new();
        for i in 1..n {
            let heads = self.terms(i, d);
            let tails = self.splits(n - i, k - 1, d);
            for h in heads.iter() {
                for t in &tails {
                    let mut s = vec![h.clone()];
                    s.extend(t.iter().cloned());
                    out.push(s);
                }
            }
        }
        out
    }

    pub fn up_to(&mut self, n: usize, d: usize) -> Vec<U> {
        (1..=n).flat_map(|k| self.terms(k, d).to_vec()).collect()
    }
}

/// Simple types for generating well-formed programs only.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    G,
    Fun(Vec<Ty>, Box<Ty>),
}

pub struct TypedEnum {
    pub atoms: Vec<U>,
    /// function types that applied or passed functions may have
    pub funs: Vec<Ty>,
    memo: HashMap<(usize, Ty, Vec<Ty>), Rc<Vec<U>>>,
}

impl TypedEnum {
    pub fn new(atoms: Vec<U>, funs: Vec<Ty>) -> Self {
        TypedEnum { atoms, funs, memo: HashMap::new() }
    }

    /// Terms of exactly `n` nodes of type `t`; `ctx` is outermost first.
    pub fn terms(&mut self, n: usize, t: &Ty, ctx: &[Ty]) -> Rc<Vec<U>> {
        let key = (n, t.clone(), ctx.to_vec());
        if let Some(v) = self.memo.get(&key) {
            return v.clone();
        }
        let mut out = Vec::new();
        if n == 1 {
            if *t == Ty::G {
                out.extend(self.atoms.iter().cloned());
            }
            for (i, c) in ctx.iter().rev().enumerate() {
                if c == t {
                    out.push(U::Var(i));
                }
            }
        }
        if n >= 2 {
            if let Ty::Fun(ps, r) = t {
                let mut c = ctx.to_vec();
                c.extend(ps.iter().cloned());
                for b in self.terms(n - 1, r, &c).iter() {
                    out.push(lam(ps.len(), b.clone()));
                }
            }
            if *t == Ty::G {
                for f in self.terms(n - 1, &Ty::Fun(vec![Ty::G], Box::new(Ty::G)), ctx).iter() {
                    out.push(ufix(f.clone()));
                }
                for s in self.seq(n - 1, &[Ty::G, Ty::G], ctx) {
                    out.push(ucat(s));
                }
            }
            for f in self.funs.clone() {
                if let Ty::Fun(ps, r) = &f {
                    if **r == *t {
                        let mut sig = vec![f.clone()];
                        sig.extend(ps.iter().cloned());
                        for mut s in self.seq(n - 1, &sig, ctx) {
                            let h = s.remove(0);
                            out.push(call(h, s));
                        }
                    }
                }
            }
        }
        let r = Rc::new(out);
        self.memo.insert(key, r.clone());
        r
    }

    fn seq(&mut self, n: usize, sig: &[Ty], ctx: &[Ty]) -> Vec<Vec<U>> {
        if sig.len() == 1 {
            return if n == 0 { vec![] } else { self.terms(n, &sig[0], ctx).iter().map(|u| vec![u.clone()]).collect() };
        }
        let mut out = Vec::new();
        for i in 1..n {
            let hs = self.terms(i, &sig[0], ctx);
            if hs.is_empty() {
                continue;
            }
            let ts = self.seq(n - i, &sig[1..], ctx);
            for h in hs.iter() {
                for t in &ts {
                    let mut s = vec![h.clone()];
                    s.extend(t.iter().cloned());
                    out.push(s);
                }
            }
        }
        out
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn capture() {
        // let f x y = !(/z/ x . z . y); match !(/w/ f w "a");
        let p = Prog {
            lets: vec![lam(2, ufix(lam(1, ucat(vec![v(2), v(0), v(1)]))))],
            goal: ufix(lam(1, call(v(1), vec![v(0), ulit("a")]))),
        };
        assert_eq!(p.text(), "let f0 x0 x1 = !(/x2/ x0 . x2 . x1); match !(/x1/ f0 x1 \"a\");");
        let (g, m) = expand(&p, 1000).unwrap();
        assert!(m.is_empty());
        assert_eq!(g.to_ser(), "(! (! (. $1 $0 \"a\")))");
        let w = Prog::goal(call(lam(1, call(v(0), vec![v(0)])), vec![lam(1, call(v(0), vec![v(0)]))]));
        assert_eq!(expand(&w, 1000), Err(Stop::Fuel));
    }
}

// ---------------------------------------------------------------- from syntax

/// A program read by the reference reader; `None` if a name is not bound. Labels are dropped.
pub fn from_node(n: &crate::syntax::Node) -> Option<Prog> {
    use crate::syntax::{Expr, Node};
    fn go(n: &Node, scope: &mut Vec<String>) -> Option<U> {
        let mut all = |v: &Vec<Node>, scope: &mut Vec<String>| v.iter().map(|n| go(n, scope)).collect::<Option<Vec<U>>>();
        Some(match &n.expr {
            Expr::Eps => U::Eps,
            Expr::Lit(s) => ulit(s),
            Expr::Var(x) => U::Var(scope.iter().rev().position(|y| y == x)?),
            Expr::Cat(v) => U::Cat(all(v, scope)?),
            Expr::Alt(v) => U::Alt(all(v, scope)?),
            Expr::Fix(b) => ufix(go(b, scope)?),
            Expr::Call(v) => {
                let mut v = all(v, scope)?;
                let h = v.remove(0);
                call(h, v)
            }
            Expr::Lam(a, b) => {
                let l = scope.len();
                scope.extend(a.iter().cloned());
                let b = go(b, scope);
                scope.truncate(l);
                lam(a.len(), b?)
            }
            Expr::Let(..) => return None,
        })
    }
    let mut scope = Vec::new();
    let mut lets = Vec::new();
    let mut n = n;
    while let Expr::Let(x, b, body) = &n.expr {
        lets.push(go(b, &mut scope)?);
        scope.push(x.clone());
        n = body;
    }
    Some(Prog { lets, goal: go(n, &mut scope)? })
}

/// Whether expanding the program, or any of its definitions, ends within the budget.
pub fn ends(p: &Prog, fuel: usize) -> bool {
    let stuck = |lets: &[U], goal: &U| expand(&Prog { lets: lets.to_vec(), goal: goal.clone() }, fuel) == Err(Stop::Fuel);
    !stuck(&p.lets, &p.goal) && (0..p.lets.len()).all(|k| !stuck(&p.lets[..k], &p.lets[k]))
}
