//! C03: labelled grammars, the names of their parts, and the tree each text should give.
use crate::gram::G;
use crate::shard::{ObsFn, Shard};
use crate::term::{Names, Prog, U};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

/// A name and how strong it is: label 3, definition 2, variable 1.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Nm {
    pub kind: u8,
    pub s: String,
}

pub fn merge(a: Option<Nm>, b: Option<Nm>) -> Option<Nm> {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => Some(if a.kind >= b.kind { a } else { b }),
    }
}

/// Expanded grammar; every node carries its name.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct N {
    pub name: Option<Nm>,
    pub e: E,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum E {
    Eps,
    Lit(String),
    Ref(usize),
    Cat(Vec<N>),
    Alt(Vec<N>),
    Fix(Box<N>),
}

impl N {
    pub fn plain(&self) -> G {
        match &self.e {
            E::Eps => G::Eps,
            E::Lit(s) => G::Lit(s.clone()),
            E::Ref(i) => G::Ref(*i),
            E::Cat(v) => G::Cat(v.iter().map(N::plain).collect()),
            E::Alt(v) => G::Alt(v.iter().map(N::plain).collect()),
            E::Fix(b) => G::Fix(Box::new(b.plain())),
        }
    }
}

// ------------------------------------------------- expansion, keeping names

/// Program terms with the names the text gives them.
#[derive(Debug)]
struct S {
    name: Option<Nm>,
    e: SE,
}
#[derive(Debug)]
enum SE {
    Eps,
    Lit(String),
    Var(usize),
    Cat(Vec<Rc<S>>),
    Alt(Vec<Rc<S>>),
    Fix(Rc<S>),
    Call(Rc<S>, Vec<Rc<S>>),
    Lam(Vec<String>, Rc<S>),
}

fn named(u: &U, scope: &mut Vec<String>, names: &Names) -> S {
    let list = |v: &Vec<U>, scope: &mut Vec<String>| v.iter().map(|u| Rc::new(named(u, scope, names))).collect::<Vec<_>>();
    let mut name = None;
    let e = match u {
        U::Eps => SE::Eps,
        U::Lit(s) => SE::Lit(s.clone()),
        U::Var(i) => {
            name = Some(Nm { kind: 1, s: scope[scope.len() - 1 - i].clone() });
            SE::Var(*i)
        }
        U::Cat(v) => SE::Cat(list(v, scope)),
        U::Alt(v) => SE::Alt(list(v, scope)),
        U::Fix(b) => SE::Fix(Rc::new(named(b, scope, names))),
        U::Call(h, a) => SE::Call(Rc::new(named(h, scope, names)), list(a, scope)),
        U::Lam(n, b) => {
            let l = scope.len();
            for k in 0..*n {
                scope.push((names.param)(l + k));
            }
            let ps = scope[l..].to_vec();
            let b = named(b, scope, names);
            scope.truncate(l);
            SE::Lam(ps, Rc::new(b))
        }
        U::Lab(b, l) => {
            let mut s = named(b, scope, names);
            s.name = merge(Some(Nm { kind: 3, s: l.clone() }), s.name);
            return s;
        }
    };
    S { name, e }
}

enum Slot {
    Thunk(Rc<S>, Option<Nm>, Env),
    FixVar(usize),
}
#[derive(Clone)]
struct Env(Option<Rc<(Slot, Env)>>);
impl Env {
    fn push(&self, s: Slot) -> Env {
        Env(Some(Rc::new((s, self.clone()))))
    }
    fn get(&self, i: usize) -> &Slot {
        let mut e = self;
        for _ in 0..i {
            e = &e.0.as_ref().unwrap().1;
        }
        &e.0.as_ref().unwrap().0
    }
}
enum Val {
    Gram(E),
    Fun(Vec<String>, Rc<S>, Env),
}
struct Eval(usize, usize);

impl Eval {
    fn gram(&mut self, s: &Rc<S>, env: &Env, depth: usize) -> Option<N> {
        match self.eval(s, s.name.clone(), env, depth)? {
            (name, Val::Gram(e)) => Some(N { name, e }),
            _ => None,
        }
    }
    fn eval(&mut self, s: &Rc<S>, name: Option<Nm>, env: &Env, depth: usize) -> Option<(Option<Nm>, Val)> {
        if self.0 == 0 || self.1 > 200 {
            return None;
        }
        self.0 -= 1;
        self.1 += 1;
        let r = self.go(s, name, env, depth);
        self.1 -= 1;
        r
    }
    fn go(&mut self, s: &Rc<S>, name: Option<Nm>, env: &Env, depth: usize) -> Option<(Option<Nm>, Val)> {
        Some((
            name.clone(),
            Val::Gram(match &s.e {
                SE::Eps => E::Eps,
                SE::Lit(l) => E::Lit(l.clone()),
                SE::Var(i) => match env.get(*i) {
                    Slot::FixVar(l) => E::Ref(depth - 1 - l),
                    Slot::Thunk(t, given, e) => {
                        let (t, e, n) = (t.clone(), e.clone(), merge(given.clone(), name));
                        return self.eval(&t, n, &e, depth);
                    }
                },
                SE::Cat(v) => E::Cat(v.iter().map(|p| self.gram(p, env, depth)).collect::<Option<_>>()?),
                SE::Alt(v) => E::Alt(v.iter().map(|p| self.gram(p, env, depth)).collect::<Option<_>>()?),
                SE::Lam(ps, b) => return Some((name, Val::Fun(ps.clone(), b.clone(), env.clone()))),
                SE::Fix(f) => match self.eval(f, f.name.clone(), env, depth)? {
                    (_, Val::Fun(ps, b, e)) if ps.len() == 1 => {
                        let e = e.push(Slot::FixVar(depth));
                        E::Fix(Box::new(self.gram(&b, &e, depth + 1)?))
                    }
                    _ => return None,
                },
                SE::Call(h, a) => {
                    let (hn, f) = self.eval(h, h.name.clone(), env, depth)?;
                    let (ps, b, mut e) = match f {
                        Val::Fun(ps, b, e) if ps.len() == a.len() => (ps, b, e),
                        _ => return None,
                    };
                    for (x, p) in a.iter().zip(&ps) {
                        let given = merge(x.name.clone(), Some(Nm { kind: 1, s: p.clone() }));
                        e = e.push(Slot::Thunk(x.clone(), given, env.clone()));
                    }
                    let (bn, v) = self.eval(&b, b.name.clone(), &e, depth)?;
                    return Some((merge(merge(name, hn), bn), v));
                }
            }),
        ))
    }
}

/// The expanded grammar with the names of all its parts; `None` if the program is ill formed or
/// its expansion does not end within the budget.
pub fn expand(p: &Prog, names: &Names, fuel: usize) -> Option<N> {
    let mut scope = Vec::new();
    let mut env = Env(None);
    for (k, l) in p.lets.iter().enumerate() {
        let s = named(l, &mut scope, names);
        let n = (names.let_name)(k);
        env = env.push(Slot::Thunk(Rc::new(s), Some(Nm { kind: 2, s: n.clone() }), env.clone()));
        scope.push(n);
    }
    let g = named(&p.goal, &mut scope, names);
    Eval(fuel, 0).gram(&Rc::new(g), &env, 0)
}

// ------------------------------------------------------------- names of parts

/// Lower-case words of a name made of ASCII letters, digits and underscores.
fn words(s: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur = String::new();
    let c: Vec<char> = s.chars().collect();
    for i in 0..c.len() {
        if c[i] == '_' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            continue;
        }
        if c[i].is_uppercase() && i > 0 && c[i - 1].is_lowercase() && !cur.is_empty() {
            out.push(std::mem::take(&mut cur));
        }
        cur.extend(c[i].to_lowercase());
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

pub fn snake(s: &str) -> String {
    words(s).join("_")
}

pub fn camel(s: &str) -> String {
    words(s)
        .iter()
        .map(|w| {
            let mut c = w.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>()).unwrap_or_default() + c.as_str()
        })
        .collect()
}

/// Names of the parts: `None` for a sequence none of whose parts has a name.
pub fn part_names(parts: &[N], alt: bool) -> Option<Vec<String>> {
    if !alt && parts.iter().all(|p| p.name.is_none()) {
        return None;
    }
    let mut seen: HashMap<String, usize> = HashMap::new();
    Some(
        parts
            .iter()
            .enumerate()
            .map(|(i, p)| match &p.name {
                None => format!("{}{}", if alt { "Branch" } else { "part" }, i + 1),
                Some(n) => {
                    let s = if alt { camel(&n.s) } else { snake(&n.s) };
                    let k = seen.entry(s.clone()).or_insert(0);
                    *k += 1;
                    format!("{}{}", s, k)
                }
            })
            .collect(),
    )
}

/// False if two parts of one node get the same name.
pub fn distinct(n: &N) -> bool {
    match &n.e {
        E::Eps | E::Lit(_) | E::Ref(_) => true,
        E::Fix(b) => distinct(b),
        E::Cat(v) | E::Alt(v) => {
            let mut names = part_names(v, matches!(n.e, E::Alt(_))).unwrap_or_default();
            let k = names.len();
            names.sort();
            names.dedup();
            names.len() == k && v.iter().all(distinct)
        }
    }
}

/// An alternation of single-character literals only (or such a literal).
pub fn single_chars(n: &N) -> bool {
    match &n.e {
        E::Lit(s) => s.chars().count() == 1,
        E::Alt(v) => v.iter().all(single_chars),
        _ => false,
    }
}

// ---------------------------------------------------------------------- trees

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum T {
    /// a literal (reference side) or a unit type (parser side)
    Leaf(String),
    Eps,
    Tup(Vec<T>),
    Rec(Vec<(String, T)>),
    Var(String, Box<T>),
}

impl T {
    pub fn show(&self, o: &mut String) {
        match self {
            T::Leaf(s) => o.push_str(&crate::report::json(s)),
            T::Eps => o.push('_'),
            T::Tup(v) => {
                o.push('(');
                for (i, t) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    t.show(o);
                }
                o.push(')');
            }
            T::Rec(v) => {
                o.push('{');
                for (i, (n, t)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    o.push_str(n);
                    o.push_str(": ");
                    t.show(o);
                }
                o.push('}');
            }
            T::Var(n, t) => {
                o.push_str(n);
                o.push('(');
                t.show(o);
                o.push(')');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.show(&mut o);
        o
    }
}

/// All ways the grammar derives a prefix of `s`, with the tree. `env`: enclosing fixed points.
fn derive(n: &N, env: &[&N], s: &[char], limit: &mut usize) -> Vec<(usize, T)> {
    if *limit == 0 {
        return vec![];
    }
    *limit -= 1;
    match &n.e {
        E::Eps => vec![(0, T::Eps)],
        E::Lit(l) => {
            let l2: Vec<char> = l.chars().collect();
            if s.starts_with(&l2) {
                vec![(l2.len(), T::Leaf(l.clone()))]
            } else {
                vec![]
            }
        }
        E::Ref(i) => {
            let k = env.len() - 1 - i;
            derive(env[k], &env[..k + 1], s, limit)
        }
        E::Fix(b) => {
            let mut e = env.to_vec();
            e.push(b);
            derive(b, &e, s, limit)
        }
        E::Alt(v) => {
            let names = part_names(v, true).unwrap();
            let mut out = Vec::new();
            for (p, name) in v.iter().zip(names) {
                for (k, t) in derive(p, env, s, limit) {
                    out.push((k, T::Var(name.clone(), Box::new(t))));
                }
            }
            out
        }
        E::Cat(v) => {
            let mut all: Vec<(usize, Vec<T>)> = vec![(0, vec![])];
            for p in v {
                let mut next = Vec::new();
                for (k, ts) in all {
                    for (j, t) in derive(p, env, &s[k..], limit) {
                        let mut ts = ts.clone();
                        ts.push(t);
                        next.push((k + j, ts));
                    }
                }
                all = next;
            }
            let names = part_names(v, false);
            all.into_iter()
                .map(|(k, ts)| {
                    (
                        k,
                        match &names {
                            None => T::Tup(ts),
                            Some(ns) => T::Rec(ns.iter().cloned().zip(ts).collect()),
                        },
                    )
                })
                .collect()
        }
    }
}

/// The tree of a text, if it has exactly one.
pub fn tree(n: &N, text: &str) -> Option<T> {
    let s: Vec<char> = text.chars().collect();
    let mut limit = 20_000;
    let mut v: Vec<T> = derive(n, &[], &s, &mut limit).into_iter().filter(|(k, _)| *k == s.len()).map(|(_, t)| t).collect();
    if v.len() == 1 && limit > 0 {
        v.pop()
    } else {
        None
    }
}

// ------------------------------------------------------- judging parser output

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn skip(&mut self) {
        while self.1 < self.0.len() && self.0[self.1] == b' ' {
            self.1 += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.skip();
        if self.0.get(self.1) == Some(&c) {
            self.1 += 1;
            return true;
        }
        false
    }
    fn ident(&mut self) -> Result<String, String> {
        self.skip();
        let a = self.1;
        while self.1 < self.0.len() && (self.0[self.1].is_ascii_alphanumeric() || self.0[self.1] == b'_' || self.0[self.1] >= 128) {
            self.1 += 1;
        }
        if a == self.1 {
            return Err(format!("a name expected at byte {}", a));
        }
        Ok(String::from_utf8_lossy(&self.0[a..self.1]).into_owned())
    }
    /// Derived Debug output; a value in parentheses with one part is a variant.
    fn value(&mut self) -> Result<T, String> {
        let name = self.ident()?;
        if self.eat(b'(') {
            let mut v = vec![self.value()?];
            while self.eat(b',') {
                v.push(self.value()?);
            }
            if !self.eat(b')') {
                return Err("')' expected".into());
            }
            return Ok(if v.len() == 1 { T::Var(name, Box::new(v.pop().unwrap())) } else { T::Tup(v) });
        }
        if self.eat(b'{') {
            let mut v = Vec::new();
            loop {
                let f = self.ident()?;
                if !self.eat(b':') {
                    return Err("':' expected".into());
                }
                v.push((f, self.value()?));
                if !self.eat(b',') {
                    break;
                }
            }
            if !self.eat(b'}') {
                return Err("'}' expected".into());
            }
            return Ok(T::Rec(v));
        }
        Ok(if name == "Epsilon" { T::Eps } else { T::Leaf(name) })
    }
}

pub fn read_debug(s: &str) -> Result<T, String> {
    let mut r = Rd(s.as_bytes(), 0);
    let t = r.value()?;
    r.skip();
    if r.1 != s.len() {
        return Err(format!("unexpected {:?}", &s[r.1..]));
    }
    Ok(t)
}

/// Equal up to the type names of literals, which must stand for one literal each.
fn same(want: &T, got: &T, lits: &mut BTreeMap<String, String>) -> bool {
    match (want, got) {
        (T::Leaf(l), T::Leaf(ty)) => lits.entry(ty.clone()).or_insert_with(|| l.clone()) == l,
        (T::Eps, T::Eps) => true,
        (T::Tup(a), T::Tup(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b, lits)),
        (T::Rec(a), T::Rec(b)) => a.len() == b.len() && a.iter().zip(b).all(|((x, a), (y, b))| x == y && same(a, b, lits)),
        (T::Var(x, a), T::Var(y, b)) => x == y && same(a, b, lits),
        _ => false,
    }
}

/// `spec`: program text, then per word: text, expected tree as written by `show`, expected char.
pub fn check_tree(sh: &mut Shard, spec: &str, f: ObsFn) {
    let mut it = spec.split('\u{1}');
    let program = it.next().unwrap();
    let mut lits = BTreeMap::new();
    while let (Some(text), Some(want), Some(ch)) = (it.next(), it.next(), it.next()) {
        let input: Vec<char> = text.chars().collect();
        sh.note(text);
        let o = f(&input);
        sh.tally.traces += 1;
        sh.tally.transitions += input.len() as u64;
        sh.tally.states += 1;
        let want = read_show(want);
        let key = format!("{} on {:?}", program, text);
        let head = format!("grammar {}\n  input {:?}\n  expected tree {}", program, text, want.text());
        match &o.parse {
            Err(p) => sh.bad(&key, format!("{}\n  the parser panicked: {}", head, p)),
            Ok(r) => match &r.res {
                Err(e) => sh.bad(&key, format!("{}\n  the parser rejects the text: {:?}", head, e)),
                Ok(_) => {
                    let (debug, got_ch) = match r.debug.split_once('\u{1}') {
                        Some((d, c)) => (d, c),
                        None => (r.debug.as_str(), ""),
                    };
                    match read_debug(debug) {
                        Ok(t) if same(&want, &t, &mut lits) => {
                            if got_ch != ch {
                                sh.bad(&key, format!("{}\n  converts to the character {:?}, not {:?}", head, got_ch, ch));
                            }
                        }
                        Ok(_) => sh.bad(&key, format!("{}\n  the parser gives {}", head, debug)),
                        Err(e) => sh.bad(&key, format!("{}\n  the parser gives {} ({})", head, debug, e)),
                    }
                }
            },
        }
    }
}

/// Reads what `T::show` wrote.
fn read_show(s: &str) -> T {
    fn go(c: &[char], i: &mut usize) -> T {
        match c[*i] {
            '"' => {
                let a = *i;
                *i += 1;
                while c[*i] != '"' {
                    *i += if c[*i] == '\\' { 2 } else { 1 };
                }
                *i += 1;
                T::Leaf(crate::shard::unjson(&c[a..*i].iter().collect::<String>()))
            }
            '(' => {
                *i += 1;
                let mut v = Vec::new();
                while c[*i] != ')' {
                    v.push(go(c, i));
                    if c[*i] == ',' {
                        *i += 2;
                    }
                }
                *i += 1;
                T::Tup(v)
            }
            '{' => {
                *i += 1;
                let mut v = Vec::new();
                while c[*i] != '}' {
                    let a = *i;
                    while c[*i] != ':' {
                        *i += 1;
                    }
                    let n = c[a..*i].iter().collect();
                    *i += 2;
                    v.push((n, go(c, i)));
                    if c[*i] == ',' {
                        *i += 2;
                    }
                }
                *i += 1;
                T::Rec(v)
            }
            _ => {
                let a = *i;
                while *i < c.len() && (c[*i].is_alphanumeric() || c[*i] == '_') {
                    *i += 1;
                }
                let n: String = c[a..*i].iter().collect();
                if n == "_" {
                    return T::Eps;
                }
                *i += 1;
                let t = go(c, i);
                *i += 1;
                T::Var(n, Box::new(t))
            }
        }
    }
    go(&s.chars().collect::<Vec<_>>(), &mut 0)
}
