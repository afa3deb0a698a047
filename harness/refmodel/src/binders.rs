//! Programs over a few names: every binder structure, resolved lexically.
use std::collections::BTreeSet;

/// Named terms.
#[derive(Clone, Debug)]
pub enum N {
    Lit,
    Var(u16),
    Cat(Vec<N>),
    Alt(Vec<N>),
    Call(Vec<N>),
    Fix(Box<N>),
    Lam(Vec<u16>, Box<N>),
    Lab(Box<N>, u16),
}

#[derive(Clone)]
pub struct NProg {
    /// (name, parameters written before the `=`, bound)
    pub lets: Vec<(u16, Vec<u16>, N)>,
    pub goal: N,
}

/// The names; none contains another.
pub fn name(x: u16) -> String {
    match x {
        0 => "qa".into(),
        1 => "qb".into(),
        2 => "qc".into(),
        _ => format!("n{:03}", x),
    }
}

impl N {
    /// Prints the term; notes every name used as a term: (start, end, declared).
    pub fn put(&self, prec: usize, out: &mut String, scope: &mut Vec<u16>, occ: &mut Vec<(usize, usize, bool)>) {
        let open = match self {
            N::Lit | N::Var(_) | N::Fix(_) => false,
            N::Call(_) => prec > 3,
            N::Cat(_) => prec > 2,
            N::Alt(_) => prec > 1,
            N::Lab(..) => prec > 2,
            N::Lam(..) => prec > 0,
        };
        if open {
            out.push('(');
        }
        let list = |v: &[N], sep: &str, p: usize, out: &mut String, scope: &mut Vec<u16>, occ: &mut Vec<(usize, usize, bool)>| {
            for (i, n) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(sep);
                }
                n.put(p, out, scope, occ);
            }
        };
        match self {
            N::Lit => out.push_str("\"l\""),
            N::Var(x) => {
                let k = out.len();
                out.push_str(&name(*x));
                occ.push((k, out.len(), scope.contains(x)));
            }
            N::Cat(v) => list(v, " . ", 3, out, scope, occ),
            N::Alt(v) => list(v, " | ", 2, out, scope, occ),
            N::Call(v) => list(v, " ", 4, out, scope, occ),
            N::Fix(b) => {
                out.push('!');
                b.put(4, out, scope, occ);
            }
            N::Lam(p, b) => {
                out.push('/');
                out.push_str(&p.iter().map(|x| name(*x)).collect::<Vec<_>>().join(" "));
                out.push_str("/ ");
                let l = scope.len();
                scope.extend(p);
                b.put(1, out, scope, occ);
                scope.truncate(l);
            }
            N::Lab(b, l) => {
                b.put(if matches!(**b, N::Lab(..)) { 3 } else { 2 }, out, scope, occ);
                out.push_str(" : ");
                out.push_str(&name(*l));
            }
        }
        if open {
            out.push(')');
        }
    }

    /// The structure with indices, or the undeclared names.
    pub fn resolve(&self, scope: &mut Vec<u16>, out: &mut String, missing: &mut BTreeSet<u16>) {
        let list = |tag: &str, v: &[N], scope: &mut Vec<u16>, out: &mut String, missing: &mut BTreeSet<u16>| {
            out.push_str(tag);
            for n in v {
                n.resolve(scope, out, missing);
                out.push(' ');
            }
            out.push(']');
        };
        match self {
            N::Lit => out.push('l'),
            N::Var(x) => match scope.iter().rev().position(|y| y == x) {
                Some(i) => out.push_str(&format!("'{}", i)),
                None => {
                    missing.insert(*x);
                }
            },
            N::Cat(v) => list("cat[", v, scope, out, missing),
            N::Alt(v) => list("alt[", v, scope, out, missing),
            N::Call(v) => list("call[", v, scope, out, missing),
            N::Fix(b) => {
                out.push('!');
                b.resolve(scope, out, missing);
            }
            N::Lam(p, b) => {
                out.push_str(&format!("lam{}.", p.len()));
                let l = scope.len();
                scope.extend(p);
                b.resolve(scope, out, missing);
                scope.truncate(l);
            }
            N::Lab(b, _) => b.resolve(scope, out, missing),
        }
    }
}

impl NProg {
    pub fn text(&self) -> String {
        self.marked().0
    }

    /// The text, and every name used as a term: (start, end, declared).
    pub fn marked(&self) -> (String, Vec<(usize, usize, bool)>) {
        let mut s = String::new();
        let mut occ = Vec::new();
        let mut scope = Vec::new();
        for (x, p, b) in &self.lets {
            s.push_str(&format!("let {}", name(*x)));
            for y in p {
                s.push(' ');
                s.push_str(&name(*y));
            }
            s.push_str(" = ");
            scope.extend(p);
            b.put(0, &mut s, &mut scope, &mut occ);
            scope.truncate(scope.len() - p.len());
            s.push_str("; ");
            scope.push(*x);
        }
        s.push_str("match ");
        self.goal.put(0, &mut s, &mut scope, &mut occ);
        s.push(';');
        (s, occ)
    }

    pub fn resolve(&self) -> (String, BTreeSet<u16>) {
        let (mut out, mut missing, mut scope) = (String::new(), BTreeSet::new(), Vec::new());
        for (x, p, b) in &self.lets {
            out.push_str("let ");
            if p.is_empty() {
                b.resolve(&mut scope, &mut out, &mut missing);
            } else {
                N::Lam(p.clone(), Box::new(b.clone())).resolve(&mut scope, &mut out, &mut missing);
            }
            out.push_str("; ");
            scope.push(*x);
        }
        self.goal.resolve(&mut scope, &mut out, &mut missing);
        (out, missing)
    }
}

/// All named terms with exactly `n` nodes. Operators and binder lists as selected.
pub struct Gen {
    names: u16,
    lams: Vec<Vec<u16>>,
    memo: Vec<Vec<N>>,
    alt: bool,
    label: bool,
}

impl Gen {
    pub fn new(names: u16, max_params: usize, alt: bool, label: bool) -> Gen {
        let mut lams = vec![];
        let mut last: Vec<Vec<u16>> = vec![vec![]];
        for _ in 0..max_params {
            last = last.iter().flat_map(|p| (0..names).map(move |x| p.iter().copied().chain([x]).collect())).collect();
            lams.extend(last.iter().cloned());
        }
        Gen { names, lams, memo: vec![vec![]], alt, label }
    }
    pub fn get(&mut self, n: usize) -> Vec<N> {
        while self.memo.len() <= n {
            let k = self.memo.len();
            let mut out = Vec::new();
            if k == 1 {
                out.push(N::Lit);
                out.extend((0..self.names).map(N::Var));
            } else {
                for b in &self.memo[k - 1] {
                    out.push(N::Fix(Box::new(b.clone())));
                    for p in &self.lams {
                        out.push(N::Lam(p.clone(), Box::new(b.clone())));
                    }
                    if self.label {
                        out.push(N::Lab(Box::new(b.clone()), 0));
                    }
                }
                for i in 1..k - 1 {
                    for a in &self.memo[i] {
                        for b in &self.memo[k - 1 - i] {
                            let v = vec![a.clone(), b.clone()];
                            out.push(N::Cat(v.clone()));
                            out.push(N::Call(v.clone()));
                            if self.alt {
                                out.push(N::Alt(v));
                            }
                        }
                    }
                }
            }
            self.memo.push(out);
        }
        self.memo[n].clone()
    }
    pub fn up_to(&mut self, n: usize) -> Vec<N> {
        (1..=n).flat_map(|k| self.get(k)).collect()
    }
}

/// Programs by number, made when asked for.
pub struct Space {
    pub name: &'static str,
    pub len: usize,
    at: Box<dyn Fn(usize) -> NProg + Send + Sync>,
}

impl Space {
    pub fn at(&self, i: usize) -> NProg {
        (self.at)(i)
    }
    fn listed(name: &'static str, v: Vec<NProg>) -> Space {
        Space { name, len: v.len(), at: Box::new(move |i| v[i].clone()) }
    }
}

/// All explored programs.
pub fn spaces(t: bool) -> Vec<Space> {
    let mut sets = Vec::new();
    let goal = |g| NProg { lets: vec![], goal: g };
    sets.push(Space::listed("goals", Gen::new(2, 2, true, false).up_to(if t { 6 } else { 5 }).into_iter().map(goal).collect()));
    sets.push(Space::listed("goals_three_names", Gen::new(3, 1, false, true).up_to(if t { 6 } else { 5 }).into_iter().map(goal).collect()));
    sets.push(Space::listed("three_parameters", Gen::new(2, 3, false, false).up_to(4).into_iter().map(goal).collect()));
    // definitions: every pair of names, 0..2 parameters, all bounds and goals
    let mut small = Gen::new(3, 1, false, false);
    let (b3, b2, g3) = (small.up_to(3), small.up_to(if t { 3 } else { 2 }), small.up_to(if t { 4 } else { 3 }));
    let params: Vec<Vec<u16>> = vec![vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![0, 0], vec![0, 1, 2]];
    let (ps, n) = (params.clone(), [2, params.len(), b3.len(), g3.len()]);
    sets.push(Space {
        name: "one_definition",
        len: n.iter().product(),
        at: Box::new(move |i| {
            let d = digits(i, &n);
            NProg { lets: vec![(d[0] as u16, ps[d[1]].clone(), b3[d[2]].clone())], goal: g3[d[3]].clone() }
        }),
    });
    let n = [2, 2, 4, 3, b2.len(), b2.len(), b2.len()];
    sets.push(Space {
        name: "two_definitions",
        len: n.iter().product(),
        at: Box::new(move |i| {
            let d = digits(i, &n);
            NProg { lets: vec![(d[0] as u16, params[d[2]].clone(), b2[d[4]].clone()), (d[1] as u16, params[d[3]].clone(), b2[d[5]].clone())], goal: b2[d[6]].clone() }
        }),
    });
    // longer chains: every assignment of names to four binders and two uses
    let mut v = Vec::new();
    for code in 0..4096u32 {
        let x = |k: u32| ((code >> k) % 2) as u16;
        v.push(NProg {
            lets: vec![
                (x(0), vec![], N::Lit),
                (x(1), vec![x(2)], N::Cat(vec![N::Var(x(3)), N::Lit])),
                (x(4), vec![x(5), x(6)], N::Fix(Box::new(N::Lam(vec![x(7)], Box::new(N::Alt(vec![N::Var(x(8)), N::Call(vec![N::Var(x(9)), N::Lit])])))))),
            ],
            goal: N::Cat(vec![N::Var(x(10)), N::Fix(Box::new(N::Lam(vec![x(11)], Box::new(N::Var(x(0))))))]),
        });
    }
    sets.push(Space::listed("chains", v));
    sets.push(Space::listed("large", large(t)));
    sets
}

/// The digits of `i` in the mixed base `n`, the last place counting ones.
fn digits(mut i: usize, n: &[usize]) -> Vec<usize> {
    let mut d: Vec<usize> = n
        .iter()
        .rev()
        .map(|b| {
            let r = i % b;
            i /= b;
            r
        })
        .collect();
    d.reverse();
    d
}

/// Many binders, with uses of the nearest, the furthest and of ones in between; undeclared names
/// at any place of a wide program.
fn large(t: bool) -> Vec<NProg> {
    let mut v = Vec::new();
    let goal = |goal| NProg { lets: vec![], goal };
    let near = |n: u16| -> Vec<u16> {
        let mut p: Vec<u16> = (0..n).filter(|i| *i < 4 || *i + 4 >= n || [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256].contains(i) || [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256].contains(&(n - 1 - i)) || *i == n / 2).collect();
        p.dedup();
        p
    };
    let mut sizes = vec![2u16, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 100];
    if t {
        sizes.extend(18..31);
        sizes.extend([127, 128, 129, 130]);
    }
    let many = [127u16, 128, 129, 255, 256, 257, 300];
    let names = |n: u16| (0..n).map(|i| 3 + i).collect::<Vec<u16>>();
    let fixes = |ps: &[u16], b: N| ps.iter().rev().fold(b, |b, x| N::Fix(Box::new(N::Lam(vec![*x], Box::new(b)))));
    for &n in sizes.iter().chain(&many) {
        let ps = names(n);
        let uses = near(n);
        let all = N::Cat(ps.iter().map(|x| N::Var(*x)).collect());
        // parameters of one function, all used, each used alone, one of them shadowing another
        v.push(goal(N::Lam(ps.clone(), Box::new(all.clone()))));
        v.push(goal(N::Call(std::iter::once(N::Lam(ps.clone(), Box::new(all.clone()))).chain(ps.iter().map(|_| N::Lit)).collect())));
        v.push(NProg { lets: vec![(0, ps.clone(), all.clone())], goal: N::Call(std::iter::once(N::Var(0)).chain(ps.iter().map(|_| N::Lit)).collect()) });
        // definitions that use the one before, the first and the last
        v.push(NProg { lets: ps.iter().enumerate().map(|(i, x)| (*x, vec![], if i == 0 { N::Lit } else { N::Cat(vec![N::Var(ps[i - 1]), N::Var(ps[0]), N::Var(ps[i / 2])]) })).collect(), goal: all.clone() });
        for &i in &uses {
            let x = ps[i as usize];
            v.push(goal(N::Lam(ps.clone(), Box::new(N::Var(x)))));
            v.push(NProg { lets: ps.iter().map(|x| (*x, vec![], N::Lit)).collect(), goal: N::Alt(vec![N::Var(x), N::Lit]) });
            // an undeclared name in the middle of many declared ones
            let with = |y: u16| (0..n).map(|j| N::Var(if j == i { y } else { ps[0] })).collect::<Vec<_>>();
            for y in [0, 2] {
                v.push(NProg { lets: vec![(ps[0], vec![], N::Lit)], goal: N::Cat(with(y)) });
                v.push(NProg { lets: vec![(ps[0], vec![], N::Lit)], goal: N::Alt(with(y)) });
                v.push(NProg { lets: vec![(ps[0], vec![], N::Lit)], goal: N::Call(with(y)) });
            }
            // a definition used before it is made; a parameter used outside
            v.push(NProg { lets: ps.iter().enumerate().map(|(j, x)| (*x, vec![], if j == i as usize { N::Var(ps[(j + 1) % n as usize]) } else { N::Lit })).collect(), goal: all.clone() });
            v.push(NProg { lets: ps.iter().enumerate().map(|(j, x)| (*x, if j == i as usize { vec![0, 1] } else { vec![] }, if j > i as usize + 1 { N::Lit } else if j > i as usize { N::Var(1) } else { N::Lit })).collect(), goal: N::Var(0) });
            // the same name again further in
            for &j in &uses {
                if i < j && n <= 66 {
                    let mut q = ps.clone();
                    q[j as usize] = x;
                    v.push(goal(N::Lam(q.clone(), Box::new(N::Cat(vec![N::Var(x), N::Var(q[0]), N::Var(q[n as usize - 1])])))));
                    v.push(NProg { lets: q.iter().map(|x| (*x, vec![], N::Lit)).collect(), goal: N::Cat(vec![N::Var(x), N::Var(q[0])]) });
                }
            }
        }
        // nested fixed points and nested functions
        if n <= 66 {
            v.push(goal(fixes(&ps, all.clone())));
            v.push(goal(ps.iter().rev().fold(all.clone(), |b, x| N::Lam(vec![*x], Box::new(b)))));
            v.push(goal(N::Cat(vec![fixes(&ps, all.clone()), N::Lit, N::Var(ps[0])])));
            for &i in &uses {
                v.push(goal(fixes(&ps, N::Alt(vec![N::Var(ps[i as usize]), N::Lit]))));
                v.push(goal(fixes(&ps, N::Alt(vec![N::Lit, N::Var(0)]))));
                // used after the inner binder of the same name has ended
                let mut q = ps.clone();
                q[n as usize - 1] = ps[i as usize];
                let inner = fixes(&q[n as usize - 1..], N::Var(ps[i as usize]));
                v.push(goal(fixes(&q[..n as usize - 1], N::Cat(vec![inner, if (i as usize) < n as usize - 1 { N::Var(ps[i as usize]) } else { N::Lit }, N::Var(ps[0])]))));
            }
        }
    }
    v
}
