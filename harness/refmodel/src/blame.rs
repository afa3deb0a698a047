//! C21: which places of a program text are at fault.
use crate::gram::{self, quote, Bad, G};
use crate::term::{Names, Prog, U};
use std::rc::Rc;

/// A half-open range of characters.
pub type R = (usize, usize);

/// Source terms; every node knows where it is written.
#[derive(Debug)]
pub struct S {
    pub at: R,
    /// ranges that also count as "this node": with its label, or the statement it is the goal of
    pub wider: Vec<R>,
    pub e: SE,
}
#[derive(Debug)]
pub enum SE {
    Eps,
    Lit(String),
    Var(usize),
    /// parts and the separators between them
    Cat(Vec<Rc<S>>, Vec<R>),
    Alt(Vec<Rc<S>>, Vec<R>),
    Fix(Rc<S>),
    Call(Rc<S>, Vec<Rc<S>>),
    Lam(usize, Rc<S>),
}

impl S {
    fn all(&self) -> Vec<R> {
        std::iter::once(self.at).chain(self.wider.iter().copied()).collect()
    }
}

struct Pr<'a> {
    out: String,
    n: usize,
    gap: &'a str,
    names: &'a Names,
    scope: Vec<String>,
}

impl Pr<'_> {
    fn w(&mut self, s: &str) -> R {
        let a = self.n;
        self.out.push_str(s);
        self.n += s.chars().count();
        (a, self.n)
    }
    fn gap(&mut self) {
        let g = self.gap.to_string();
        self.w(&g);
    }
    fn put(&mut self, u: &U, prec: usize) -> S {
        let open = match u {
            U::Eps | U::Lit(_) | U::Var(_) | U::Fix(_) => false,
            U::Call(..) => prec > 3,
            U::Cat(_) | U::Lab(..) => prec > 2,
            U::Alt(_) => prec > 1,
            U::Lam(..) => prec > 0,
        };
        if open {
            self.w("(");
        }
        let from = self.n;
        let mut wider = vec![];
        let e = match u {
            U::Eps => {
                self.w("_");
                SE::Eps
            }
            U::Lit(s) => {
                self.w(&quote(s));
                SE::Lit(s.clone())
            }
            U::Var(i) => {
                let s = self.scope[self.scope.len() - 1 - i].clone();
                self.w(&s);
                SE::Var(*i)
            }
            U::Cat(v) | U::Alt(v) => {
                let cat = matches!(u, U::Cat(_));
                let (mut ps, mut seps) = (vec![], vec![]);
                for (k, p) in v.iter().enumerate() {
                    if k > 0 {
                        self.gap();
                        let r = self.w(if cat { "." } else { "|" });
                        seps.push(r);
                        self.gap();
                    }
                    ps.push(Rc::new(self.put(p, if cat { 3 } else { 2 })));
                }
                if cat {
                    SE::Cat(ps, seps)
                } else {
                    SE::Alt(ps, seps)
                }
            }
            U::Fix(b) => {
                self.w("!");
                SE::Fix(Rc::new(self.put(b, 4)))
            }
            U::Call(h, a) => {
                let h = Rc::new(self.put(h, 4));
                let mut v = vec![];
                for x in a {
                    self.gap();
                    v.push(Rc::new(self.put(x, 4)));
                }
                SE::Call(h, v)
            }
            U::Lam(n, b) => {
                let l = self.scope.len();
                self.w("/");
                for k in 0..*n {
                    let s = (self.names.param)(l + k);
                    if k > 0 {
                        self.gap();
                    }
                    self.w(&s);
                    self.scope.push(s);
                }
                self.w("/");
                self.gap();
                let b = self.put(b, 1);
                self.scope.truncate(l);
                SE::Lam(*n, Rc::new(b))
            }
            U::Lab(b, l) => {
                let mut s = self.put(b, if matches!(**b, U::Lab(..)) { 3 } else { 2 });
                self.gap();
                self.w(":");
                self.gap();
                self.w(l);
                s.wider.push((from, self.n));
                if open {
                    self.w(")");
                }
                return s;
            }
        };
        let at = (from, self.n);
        if open {
            self.w(")");
            wider.push((from - 1, self.n));
        }
        S { at, wider, e }
    }
}

pub struct Source {
    pub text: String,
    pub lets: Vec<Rc<S>>,
    pub goal: Rc<S>,
    /// the goal statement
    pub goal_at: R,
}

/// Prints the program with `gap` between tokens that are usually separated by a blank.
pub fn source(p: &Prog, names: &Names, gap: &str) -> Source {
    let mut o = Pr { out: String::new(), n: 0, gap, names, scope: vec![] };
    let mut lets = vec![];
    for (k, u) in p.lets.iter().enumerate() {
        let name = (names.let_name)(k);
        o.w("let ");
        o.w(&name);
        if let (U::Lam(n, b), 0) = (u, k % 2) {
            let l = o.scope.len();
            for i in 0..*n {
                o.gap();
                let s = (names.param)(l + i);
                o.w(&s);
                o.scope.push(s);
            }
            o.w(" = ");
            let b = o.put(b, 0);
            o.scope.truncate(l);
            lets.push(Rc::new(S { at: b.at, wider: vec![], e: SE::Lam(*n, Rc::new(b)) }));
        } else {
            o.w(" = ");
            lets.push(Rc::new(o.put(u, 0)));
        }
        o.w(";");
        o.gap();
        o.scope.push(name);
    }
    let a = o.n;
    o.w("match ");
    let mut goal = o.put(&p.goal, 0);
    o.w(";");
    let goal_at = (a, o.n);
    goal.wider.push(goal_at);
    Source { text: o.out, lets, goal: Rc::new(goal), goal_at }
}

/// Expanded grammar with the places its pieces come from.
#[derive(Clone, Debug)]
enum PG {
    Eps,
    Lit(String),
    Ref(usize, Vec<R>),
    Cat(Vec<PG>, Vec<R>),
    Alt(Vec<PG>, Vec<R>),
    Fix(Box<PG>),
}
impl PG {
    fn plain(&self) -> G {
        match self {
            PG::Eps => G::Eps,
            PG::Lit(s) => G::Lit(s.clone()),
            PG::Ref(i, _) => G::Ref(*i),
            PG::Cat(v, _) => G::Cat(v.iter().map(PG::plain).collect()),
            PG::Alt(v, _) => G::Alt(v.iter().map(PG::plain).collect()),
            PG::Fix(b) => G::Fix(Box::new(b.plain())),
        }
    }
    fn at<'a>(&'a self, path: &[usize]) -> &'a PG {
        match (self, path) {
            (g, []) => g,
            (PG::Cat(v, _), [k, r @ ..]) | (PG::Alt(v, _), [k, r @ ..]) => v[*k].at(r),
            (PG::Fix(b), [_, r @ ..]) => b.at(r),
            _ => unreachable!(),
        }
    }
}

enum Slot {
    Thunk(Rc<S>, Env),
    FixVar(usize),
}
#[derive(Clone)]
struct Env(Option<Rc<(Slot, Env)>>);
impl Env {
    fn push(&self, s: Slot) -> Env {
        Env(Some(Rc::new((s, self.clone()))))
    }
    fn get(&self, i: usize) -> &Slot {
        let mut e = self;
        for _ in 0..i {
            e = &e.0.as_ref().unwrap().1;
        }
        &e.0.as_ref().unwrap().0
    }
}
enum Val {
    Gram(PG),
    Fun(usize, Rc<S>, Env),
}

/// A place at fault.
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Fault {
    NotAFunction,
    Count(usize, usize),
    FunctionAsGrammar,
    FixOfOther,
    CatFirstNullable,
    CatOverlap,
    AltBothNullable,
    AltOverlap,
    Guarded(String),
}

struct Ev<'a> {
    fuel: usize,
    depth: usize,
    faults: Vec<(Fault, Vec<R>)>,
    text: &'a [char],
}

impl Ev<'_> {
    fn blame(&mut self, f: Fault, s: &S) {
        self.faults.push((f, s.all()));
    }
    fn gram(&mut self, s: &Rc<S>, env: &Env, d: usize) -> Option<PG> {
        match self.eval(s, env, d)? {
            Val::Gram(g) => Some(g),
            Val::Fun(..) => {
                self.blame(Fault::FunctionAsGrammar, s);
                Some(PG::Eps)
            }
        }
    }
    fn eval(&mut self, s: &Rc<S>, env: &Env, d: usize) -> Option<Val> {
        if self.fuel == 0 || self.depth > 200 {
            return None;
        }
        self.fuel -= 1;
        self.depth += 1;
        let r = self.go(s, env, d);
        self.depth -= 1;
        r
    }
    fn go(&mut self, s: &Rc<S>, env: &Env, d: usize) -> Option<Val> {
        Some(Val::Gram(match &s.e {
            SE::Eps => PG::Eps,
            SE::Lit(l) => PG::Lit(l.clone()),
            SE::Var(i) => match env.get(*i) {
                Slot::FixVar(l) => PG::Ref(d - 1 - l, s.all()),
                Slot::Thunk(t, e) => {
                    let (t, e) = (t.clone(), e.clone());
                    return self.eval(&t, &e, d);
                }
            },
            SE::Cat(v, r) => PG::Cat(v.iter().map(|p| self.gram(p, env, d)).collect::<Option<_>>()?, r.clone()),
            SE::Alt(v, r) => PG::Alt(v.iter().map(|p| self.gram(p, env, d)).collect::<Option<_>>()?, r.clone()),
            SE::Lam(n, b) => return Some(Val::Fun(*n, b.clone(), env.clone())),
            SE::Fix(f) => match self.eval(f, env, d)? {
                Val::Fun(1, b, e) => {
                    let e = e.push(Slot::FixVar(d));
                    PG::Fix(Box::new(self.gram(&b, &e, d + 1)?))
                }
                Val::Fun(n, b, e) => {
                    self.blame(Fault::FixOfOther, s);
                    let e = (0..n).fold(e, |e, k| e.push(Slot::FixVar(d + k)));
                    self.gram(&b, &e, d + n)?;
                    PG::Eps
                }
                Val::Gram(_) => {
                    self.blame(Fault::FixOfOther, s);
                    PG::Eps
                }
            },
            SE::Call(h, a) => match self.eval(h, env, d)? {
                Val::Gram(_) => {
                    self.blame(Fault::NotAFunction, s);
                    PG::Eps
                }
                Val::Fun(n, b, mut e) => {
                    if n != a.len() {
                        self.blame(Fault::Count(n, a.len()), s);
                        return Some(Val::Gram(PG::Eps));
                    }
                    for x in a {
                        e = e.push(Slot::Thunk(x.clone(), env.clone()));
                    }
                    // the result of an application is written where the application is
                    return Some(match self.eval(&b, &e, d)? {
                        Val::Gram(PG::Ref(i, mut r)) => {
                            r.extend(s.all());
                            Val::Gram(PG::Ref(i, r))
                        }
                        v => v,
                    });
                }
            },
        }))
    }
}

/// Every fault of the program with the ranges that show it; `None` if expansion does not end
/// within the budget. With faults in the use of functions, only those.
pub fn faults(src: &Source, fuel: usize) -> Option<Vec<(Fault, Vec<R>)>> {
    let text: Vec<char> = src.text.chars().collect();
    let mut ev = Ev { fuel, depth: 0, faults: vec![], text: &text };
    let mut env = Env(None);
    for l in &src.lets {
        env = env.push(Slot::Thunk(l.clone(), env.clone()));
    }
    let g = ev.gram(&src.goal, &env, 0)?;
    if !ev.faults.is_empty() {
        return Some(ev.faults);
    }
    let mut out = Vec::new();
    for b in gram::check(&g.plain()) {
        let seps = |path: &[usize]| match g.at(path) {
            PG::Cat(_, r) | PG::Alt(_, r) => r.clone(),
            _ => unreachable!(),
        };
        out.push(match &b {
            Bad::CatFirstNullable { path } => (Fault::CatFirstNullable, vec![seps(path)[0]]),
            Bad::CatOverlap { path, at } => (Fault::CatOverlap, vec![seps(path)[at - 1]]),
            Bad::AltBothNullable { path, at } => (Fault::AltBothNullable, vec![seps(path)[at - 1]]),
            Bad::AltOverlap { path, at } => (Fault::AltOverlap, vec![seps(path)[at - 1]]),
            Bad::Guarded { path } => match g.at(path) {
                PG::Ref(_, r) => (Fault::Guarded(ev.text[r[0].0..r[0].1].iter().collect()), r.clone()),
                _ => unreachable!(),
            },
        });
    }
    Some(out)
}
