//! Core grammars (fully expanded), their denotation, and the typing rules.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

/// A fully expanded grammar; recursion variables are De Bruijn indices.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum G {
    Eps,
    Lit(String),
    Cat(Vec<G>),
    Alt(Vec<G>),
    Fix(Box<G>),
    Ref(usize),
}

pub fn lit(s: &str) -> G {
    G::Lit(s.to_string())
}
pub fn cat(v: Vec<G>) -> G {
    G::Cat(v)
}
pub fn alt(v: Vec<G>) -> G {
    G::Alt(v)
}
pub fn fix(g: G) -> G {
    G::Fix(Box::new(g))
}
pub fn rf(i: usize) -> G {
    G::Ref(i)
}

impl G {
    pub fn size(&self) -> usize {
        match self {
            G::Eps | G::Lit(_) | G::Ref(_) => 1,
            G::Cat(v) | G::Alt(v) => 1 + v.iter().map(G::size).sum::<usize>(),
            G::Fix(b) => 1 + b.size(),
        }
    }

    pub fn ser(&self, out: &mut String) {
        match self {
            G::Eps => out.push('e'),
            G::Lit(s) => {
                let _ = write!(out, "{:?}", s);
            }
            G::Ref(i) => {
                let _ = write!(out, "${}", i);
            }
            G::Cat(v) | G::Alt(v) => {
                out.push_str(if matches!(self, G::Cat(_)) { "(." } else { "(|" });
                for g in v {
                    out.push(' ');
                    g.ser(out);
                }
                out.push(')');
            }
            G::Fix(b) => {
                out.push_str("(! ");
                b.ser(out);
                out.push(')');
            }
        }
    }

    pub fn to_ser(&self) -> String {
        let mut s = String::new();
        self.ser(&mut s);
        s
    }

    pub fn de(s: &str) -> G {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let g = de(&c, &mut i);
        assert_eq!(i, c.len(), "trailing data in {}", s);
        g
    }

    /// Nibble text of the expression; recursion variables are named `{v}{depth}`.
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write_text(&mut s, 0, 0, "x");
        s
    }

    pub fn program(&self) -> String {
        format!("match {};", self.text())
    }

    /// `prec`: 0 anything, 1 inside `|`, 2 inside `.`, 3 term.
    pub fn write_text(&self, out: &mut String, depth: usize, prec: usize, v: &str) {
        match self {
            G::Eps => out.push('_'),
            G::Lit(s) => {
                let _ = write!(out, "{}", quote(s));
            }
            G::Ref(i) => {
                if *i < depth {
                    let _ = write!(out, "{}{}", v, depth - 1 - i);
                } else {
                    let _ = write!(out, "free{}", i - depth);
                }
            }
            G::Cat(p) => {
                if prec >= 2 {
                    out.push('(');
                }
                for (k, g) in p.iter().enumerate() {
                    if k > 0 {
                        out.push_str(" . ");
                    }
                    g.write_text(out, depth, 2, v);
                }
                if prec >= 2 {
                    out.push(')');
                }
            }
            G::Alt(p) => {
                if prec >= 1 {
                    out.push('(');
                }
                for (k, g) in p.iter().enumerate() {
                    if k > 0 {
                        out.push_str(" | ");
                    }
                    g.write_text(out, depth, 1, v);
                }
                if prec >= 1 {
                    out.push(')');
                }
            }
            G::Fix(b) => {
                let _ = write!(out, "!(/{}{}/ ", v, depth);
                b.write_text(out, depth + 1, 0, v);
                out.push(')');
            }
        }
    }

    /// Every character mentioned.
    pub fn chars(&self, out: &mut BTreeSet<char>) {
        match self {
            G::Lit(s) => out.extend(s.chars()),
            G::Cat(v) | G::Alt(v) => v.iter().for_each(|g| g.chars(out)),
            G::Fix(b) => b.chars(out),
            _ => {}
        }
    }

    pub fn closed(&self, d: usize) -> bool {
        match self {
            G::Ref(i) => *i < d,
            G::Cat(v) | G::Alt(v) => v.iter().all(|g| g.closed(d)),
            G::Fix(b) => b.closed(d + 1),
            _ => true,
        }
    }

    /// Add `by` to every free variable.
    pub fn shift(&self, d: usize, by: usize) -> G {
        match self {
            G::Ref(i) if *i >= d => G::Ref(i + by),
            G::Cat(v) => G::Cat(v.iter().map(|g| g.shift(d, by)).collect()),
            G::Alt(v) => G::Alt(v.iter().map(|g| g.shift(d, by)).collect()),
            G::Fix(b) => G::Fix(Box::new(b.shift(d + 1, by))),
            g => g.clone(),
        }
    }
}

/// A Rust string literal for `s` that both front ends can read.
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\0' => o.push_str("\\0"),
            ' '..='~' => o.push(c),
            _ => {
                let _ = write!(o, "\\u{{{:x}}}", c as u32);
            }
        }
    }
    o.push('"');
    o
}

fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i] == ' ' {
        *i += 1;
    }
}

fn de(c: &[char], i: &mut usize) -> G {
    ws(c, i);
    match c[*i] {
        'e' => {
            *i += 1;
            G::Eps
        }
        '$' => {
            *i += 1;
            let mut n = 0;
            while *i < c.len() && c[*i].is_ascii_digit() {
                n = n * 10 + c[*i].to_digit(10).unwrap() as usize;
                *i += 1;
            }
            G::Ref(n)
        }
        '"' => G::Lit(de_str(c, i)),
        '(' => {
            *i += 1;
            let k = c[*i];
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(c, i);
                if c[*i] == ')' {
                    *i += 1;
                    break;
                }
                v.push(de(c, i));
            }
            match k {
                '.' => G::Cat(v),
                '|' => G::Alt(v),
                '!' => G::Fix(Box::new(v.pop().unwrap())),
                k => panic!("bad node {}", k),
            }
        }
        k => panic!("bad serialisation {:?}", k),
    }
}

/// Reads a `{:?}`-style string literal.
pub fn de_str(c: &[char], i: &mut usize) -> String {
    assert_eq!(c[*i], '"');
    *i += 1;
    let mut s = String::new();
    loop {
        match c[*i] {
            '"' => {
                *i += 1;
                return s;
            }
            '\\' => {
                *i += 1;
                match c[*i] {
                    'n' => s.push('\n'),
                    'r' => s.push('\r'),
                    't' => s.push('\t'),
                    '0' => s.push('\0'),
                    'u' => {
                        *i += 2;
                        let mut n = 0;
                        while c[*i] != '}' {
                            n = n * 16 + c[*i].to_digit(16).unwrap();
                            *i += 1;
                        }
                        s.push(char::from_u32(n).unwrap());
                    }
                    k => s.push(k),
                }
                *i += 1;
            }
            k => {
                s.push(k);
                *i += 1;
            }
        }
    }
}

// ---------------------------------------------------------------- denotation

/// What a (sub-)grammar denotes, up to word length `n` (in characters).
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Den {
    /// The language is not empty.
    pub prod: bool,
    /// The words of length <= n.
    pub words: BTreeSet<String>,
    /// The prefixes of length <= n of words of any length.
    pub vp: BTreeSet<String>,
}

fn clen(s: &str) -> usize {
    s.chars().count()
}

fn concat(a: &BTreeSet<String>, b: &BTreeSet<String>, n: usize) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for x in a {
        let l = clen(x);
        for y in b {
            if l + clen(y) <= n {
                let mut s = x.clone();
                s.push_str(y);
                out.insert(s);
            }
        }
    }
    out
}

pub fn den(g: &G, env: &mut Vec<Den>, n: usize) -> Den {
    match g {
        G::Eps => {
            let s: BTreeSet<_> = [String::new()].into();
            Den { prod: true, words: s.clone(), vp: s }
        }
        G::Lit(s) => {
            let mut d = Den { prod: true, ..Den::default() };
            let c: Vec<char> = s.chars().collect();
            for l in 0..=c.len().min(n) {
                d.vp.insert(c[..l].iter().collect());
            }
            if c.len() <= n {
                d.words.insert(s.clone());
            }
            d
        }
        G::Ref(i) => env[env.len() - 1 - i].clone(),
        G::Alt(v) => {
            let mut d = Den::default();
            for g in v {
                let x = den(g, env, n);
                d.prod |= x.prod;
                d.words.extend(x.words);
                d.vp.extend(x.vp);
            }
            d
        }
        G::Cat(v) => {
            let mut words: BTreeSet<String> = [String::new()].into();
            let mut vp = BTreeSet::new();
            let mut prod = true;
            for g in v {
                let x = den(g, env, n);
                prod &= x.prod;
                vp.extend(concat(&words, &x.vp, n));
                words = concat(&words, &x.words, n);
            }
            if !prod {
                return Den::default();
            }
            Den { prod, words, vp }
        }
        G::Fix(b) => {
            let mut cur = Den::default();
            loop {
                env.push(cur.clone());
                let next = den(b, env, n);
                env.pop();
                if next == cur {
                    return cur;
                }
                cur = next;
            }
        }
    }
}

pub fn den0(g: &G, n: usize) -> Den {
    den(g, &mut Vec::new(), n)
}

/// Is every part of the grammar (every node, in its context) productive?
pub fn all_productive(g: &G) -> bool {
    fn go(g: &G, env: &mut Vec<bool>, check: bool, ok: &mut bool) -> bool {
        let p = match g {
            G::Eps | G::Lit(_) => true,
            G::Ref(i) => env[env.len() - 1 - i],
            G::Alt(v) => v.iter().fold(false, |a, g| go(g, env, check, ok) | a),
            G::Cat(v) => v.iter().fold(true, |a, g| go(g, env, check, ok) & a),
            G::Fix(b) => {
                let mut cur = false;
                loop {
                    env.push(cur);
                    let next = go(b, env, false, ok);
                    env.pop();
                    if next == cur {
                        break;
                    }
                    cur = next;
                }
                if check {
                    env.push(cur);
                    go(b, env, true, ok);
                    env.pop();
                }
                cur
            }
        };
        if check && !p {
            *ok = false;
        }
        p
    }
    let mut ok = true;
    go(g, &mut Vec::new(), true, &mut ok);
    ok
}

/// Number of derivations of each word of length <= n, saturating at 2.
pub fn derivations(g: &G, env: &mut Vec<BTreeMap<String, u8>>, n: usize) -> BTreeMap<String, u8> {
    fn add(m: &mut BTreeMap<String, u8>, k: String, v: u8) {
        let e = m.entry(k).or_insert(0);
        *e = (*e + v).min(2);
    }
    match g {
        G::Eps => [(String::new(), 1)].into(),
        G::Lit(s) => {
            if clen(s) <= n {
                [(s.clone(), 1)].into()
            } else {
                BTreeMap::new()
            }
        }
        G::Ref(i) => env[env.len() - 1 - i].clone(),
        G::Alt(v) => {
            let mut m = BTreeMap::new();
            for g in v {
                for (k, c) in derivations(g, env, n) {
                    add(&mut m, k, c);
                }
            }
            m
        }
        G::Cat(v) => {
            let mut m: BTreeMap<String, u8> = [(String::new(), 1)].into();
            for g in v {
                let x = derivations(g, env, n);
                let mut o = BTreeMap::new();
                for (a, ca) in &m {
                    for (b, cb) in &x {
                        if clen(a) + clen(b) <= n {
                            add(&mut o, format!("{}{}", a, b), (ca * cb).min(2));
                        }
                    }
                }
                m = o;
            }
            m
        }
        G::Fix(b) => {
            let mut cur = BTreeMap::new();
            loop {
                env.push(cur.clone());
                let next = derivations(b, env, n);
                env.pop();
                if next == cur {
                    return cur;
                }
                cur = next;
            }
        }
    }
}

/// Can some fixed point reach itself again without consuming any input?
pub fn left_recursive(g: &G) -> bool {
    // (can match the empty text, variables reachable before any input is consumed)
    fn go(g: &G, env: &mut Vec<bool>, bad: &mut bool) -> (bool, BTreeSet<usize>) {
        match g {
            G::Eps => (true, BTreeSet::new()),
            G::Lit(s) => (s.is_empty(), BTreeSet::new()),
            G::Ref(i) => (env[env.len() - 1 - i], [*i].into()),
            G::Alt(v) => v.iter().fold((false, BTreeSet::new()), |(n, mut s), g| {
                let (m, t) = go(g, env, bad);
                s.extend(t);
                (n | m, s)
            }),
            G::Cat(v) => {
                let mut null = true;
                let mut s = BTreeSet::new();
                for g in v {
                    let (m, t) = go(g, env, bad);
                    if null {
                        s.extend(t);
                    }
                    null &= m;
                }
                (null, s)
            }
            G::Fix(b) => {
                let mut cur = false;
                let s = loop {
                    env.push(cur);
                    let (next, s) = go(b, env, bad);
                    env.pop();
                    if next == cur {
                        break s;
                    }
                    cur = next;
                };
                if s.contains(&0) {
                    *bad = true;
                }
                (cur, s.into_iter().filter(|i| *i > 0).map(|i| i - 1).collect())
            }
        }
    }
    let mut bad = false;
    go(g, &mut Vec::new(), &mut bad);
    bad
}

// -------------------------------------------------------------- typing rules

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct Ty {
    pub null: bool,
    pub first: BTreeSet<char>,
    pub flast: BTreeSet<char>,
}

/// A violated rule. `path` leads to the node, `at` is the index of the later part.
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Bad {
    CatFirstNullable { path: Vec<usize> },
    CatOverlap { path: Vec<usize>, at: usize },
    AltBothNullable { path: Vec<usize>, at: usize },
    AltOverlap { path: Vec<usize>, at: usize },
    Guarded { path: Vec<usize> },
}

pub fn ty_cat(a: &Ty, b: &Ty) -> Ty {
    let mut first = a.first.clone();
    if a.null {
        first.extend(b.first.iter());
    }
    let mut flast = b.flast.clone();
    if b.null {
        flast.extend(b.first.iter());
        flast.extend(a.flast.iter());
    }
    Ty { null: a.null && b.null, first, flast }
}

/// Least types by the rules, ignoring the side conditions.
pub fn least_ty(g: &G, env: &mut Vec<Ty>) -> Ty {
    match g {
        G::Eps => Ty { null: true, ..Ty::default() },
        G::Lit(s) => Ty { null: s.is_empty(), first: s.chars().take(1).collect(), flast: BTreeSet::new() },
        G::Ref(i) => env[env.len() - 1 - i].clone(),
        G::Alt(v) => v.iter().fold(Ty::default(), |mut t, g| {
            let x = least_ty(g, env);
            t.null |= x.null;
            t.first.extend(x.first);
            t.flast.extend(x.flast);
            t
        }),
        G::Cat(v) => {
            let mut t = least_ty(&v[0], env);
            for g in &v[1..] {
                let x = least_ty(g, env);
                t = ty_cat(&t, &x);
            }
            t
        }
        G::Fix(b) => {
            let mut cur = Ty::default();
            loop {
                env.push(cur.clone());
                let next = least_ty(b, env);
                env.pop();
                if next == cur {
                    return cur;
                }
                cur = next;
            }
        }
    }
}

/// All violated rules. `env` holds each variable's type and whether it may be used here.
pub fn bad_rules(g: &G, env: &mut Vec<(Ty, bool)>, path: &mut Vec<usize>, out: &mut Vec<Bad>) {
    fn lt(g: &G, env: &[(Ty, bool)]) -> Ty {
        least_ty(g, &mut env.iter().map(|(t, _)| t.clone()).collect())
    }
    match g {
        G::Eps | G::Lit(_) => {}
        G::Ref(i) => {
            if !env[env.len() - 1 - i].1 {
                out.push(Bad::Guarded { path: path.clone() });
            }
        }
        G::Alt(v) => {
            let tys: Vec<Ty> = v.iter().map(|g| lt(g, env)).collect();
            for k in 0..v.len() {
                path.push(k);
                bad_rules(&v[k], env, path, out);
                path.pop();
                if tys[k].null && tys[..k].iter().any(|t| t.null) {
                    out.push(Bad::AltBothNullable { path: path.clone(), at: k });
                }
                if tys[..k].iter().any(|t| !t.first.is_disjoint(&tys[k].first)) {
                    out.push(Bad::AltOverlap { path: path.clone(), at: k });
                }
            }
        }
        G::Cat(v) => {
            let tys: Vec<Ty> = v.iter().map(|g| lt(g, env)).collect();
            if tys[0].null {
                out.push(Bad::CatFirstNullable { path: path.clone() });
            }
            path.push(0);
            bad_rules(&v[0], env, path, out);
            path.pop();
            let mut front = tys[0].clone();
            let flags: Vec<bool> = env.iter().map(|(_, f)| *f).collect();
            env.iter_mut().for_each(|e| e.1 = true);
            for k in 1..v.len() {
                path.push(k);
                bad_rules(&v[k], env, path, out);
                path.pop();
                if !front.flast.is_disjoint(&tys[k].first) {
                    out.push(Bad::CatOverlap { path: path.clone(), at: k });
                }
                front = ty_cat(&front, &tys[k]);
            }
            env.iter_mut().zip(flags).for_each(|(e, f)| e.1 = f);
        }
        G::Fix(b) => {
            let t = lt(g, env);
            env.push((t, false));
            path.push(0);
            bad_rules(b, env, path, out);
            path.pop();
            env.pop();
        }
    }
}

pub fn check(g: &G) -> Vec<Bad> {
    let mut out = Vec::new();
    bad_rules(g, &mut Vec::new(), &mut Vec::new(), &mut out);
    out
}

pub fn accepted(g: &G) -> bool {
    check(g).is_empty()
}

/// A well-typed grammar with what each choice needs to know.
enum Nd {
    Lit(Vec<char>),
    Cat(Vec<Nd>),
    /// first characters of each alternative, may it be empty, of any
    Alt(Vec<(BTreeSet<char>, bool, Nd)>, BTreeSet<char>),
    Fix(Box<Nd>),
    Ref(usize),
}

/// Reads texts by one character of look-ahead.
pub struct Choices(Nd);

impl Choices {
    pub fn new(g: &G) -> Option<Self> {
        fn nd(g: &G, env: &mut Vec<Ty>) -> Nd {
            match g {
                G::Eps => Nd::Lit(vec![]),
                G::Lit(s) => Nd::Lit(s.chars().collect()),
                G::Ref(i) => Nd::Ref(*i),
                G::Cat(v) => Nd::Cat(v.iter().map(|g| nd(g, env)).collect()),
                G::Alt(v) => {
                    let all = least_ty(g, env).first;
                    Nd::Alt(
                        v.iter()
                            .map(|g| {
                                let t = least_ty(g, env);
                                (t.first, t.null, nd(g, env))
                            })
                            .collect(),
                        all,
                    )
                }
                G::Fix(b) => {
                    let t = least_ty(g, env);
                    env.push(t);
                    let b = nd(b, env);
                    env.pop();
                    Nd::Fix(Box::new(b))
                }
            }
        }
        accepted(g).then(|| Choices(nd(g, &mut Vec::new())))
    }

    /// What the choice at which the text is given up can start with, and where that is.
    pub fn gives_up(&self, text: &[char]) -> Option<(usize, &BTreeSet<char>)> {
        // (fixed point's body, its environment)
        let mut envs: Vec<(&Nd, Option<usize>)> = Vec::new();
        let mut todo: Vec<(&Nd, Option<usize>)> = vec![(&self.0, None)];
        let mut p = 0;
        while let Some((n, env)) = todo.pop() {
            match n {
                Nd::Lit(s) => {
                    for c in s {
                        if text.get(p) != Some(c) {
                            return None;
                        }
                        p += 1;
                    }
                }
                Nd::Cat(v) => todo.extend(v.iter().rev().map(|n| (n, env))),
                Nd::Alt(v, all) => {
                    let way = v.iter().find(|a| text.get(p).is_some_and(|c| a.0.contains(c))).or_else(|| v.iter().find(|a| a.1));
                    match way {
                        Some(a) => todo.push((&a.2, env)),
                        None => return Some((p, all)),
                    }
                }
                Nd::Fix(b) => {
                    envs.push((b, env));
                    todo.push((b, Some(envs.len() - 1)));
                }
                Nd::Ref(i) => {
                    let mut e = env.unwrap();
                    for _ in 0..*i {
                        e = envs[e].1.unwrap();
                    }
                    todo.push((envs[e].0, Some(e)));
                }
            }
        }
        None
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn ser_roundtrip() {
        let g = fix(alt(vec![cat(vec![lit("a\"\u{e9}\n"), rf(0)]), G::Eps]));
        assert_eq!(G::de(&g.to_ser()), g);
        assert!(accepted(&g));
    }
    #[test]
    fn den_dyck() {
        let g = fix(alt(vec![G::Eps, cat(vec![lit("a"), rf(0), lit("b"), rf(0)])]));
        let d = den0(&g, 4);
        let w: Vec<&str> = d.words.iter().map(|s| s.as_str()).collect();
        assert_eq!(w, ["", "aabb", "ab", "abab"]);
        assert!(d.vp.contains("aaaa") && !d.vp.contains("ba"));
        assert!(accepted(&g) && !left_recursive(&g));
        assert!(derivations(&g, &mut vec![], 4).values().all(|c| *c == 1));
    }
    #[test]
    fn leftrec() {
        let g = fix(alt(vec![cat(vec![rf(0), lit("a")]), lit("b")]));
        assert!(left_recursive(&g) && !accepted(&g));
        let h = fix(rf(0));
        assert!(left_recursive(&h) && !accepted(&h) && !all_productive(&h));
    }
}
