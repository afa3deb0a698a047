//! Families of programs shared by several checks.
use crate::enumerate::{closed, Space};
use crate::gram::{alt, cat, fix, lit, rf, G};
use crate::term::*;

/// Every core grammar with at most `n` nodes over {empty, a, b, c}.
pub fn small(n: usize, max_fix: usize) -> Vec<G> {
    closed(
        Space {
            atoms: vec![
                G::Eps,
                G::Lit("a".into()),
                G::Lit("b".into()),
                G::Lit("c".into()),
            ],
            max_arity: 3,
            max_fix,
            flat: false,
        },
        n,
        &['a', 'b', 'c'],
    )
}

/// The enumerations take letters in one order only: the grammar with its letters in other orders,
/// and with letters that are the same but for their high bits.
pub fn renamed(g: &G) -> Vec<G> {
    fn go(g: &G, to: [char; 3]) -> G {
        let all = |v: &[G]| v.iter().map(|g| go(g, to)).collect();
        match g {
            G::Lit(s) => G::Lit(
                s.chars()
                    .map(|c| "abc".find(c).map_or(c, |i| to[i]))
                    .collect(),
            ),
            G::Cat(v) => G::Cat(all(v)),
            G::Alt(v) => G::Alt(all(v)),
            G::Fix(b) => G::Fix(Box::new(go(b, to))),
            g => g.clone(),
        }
    }
    let mut cs = std::collections::BTreeSet::new();
    g.chars(&mut cs);
    [
        ['a', 'c', 'b'],
        ['c', 'a', 'b'],
        ['\u{161}', 'a', '\u{10061}'],
    ]
    .into_iter()
    .filter(|to| cs.len() > 2 || cs.len() == 2 && to[0] > to[1])
    .map(|to| go(g, to))
    .collect()
}

/// `d` nested fixed points with the variable of level `r` inside all of them.
pub fn nested(d: usize, r: usize, style: usize) -> G {
    let l = |i: usize| crate::gram::lit(&crate::long::letter(i));
    let fix = |g| G::Fix(Box::new(g));
    let mut g = match style {
        0 | 1 => G::Cat(vec![l(0), G::Alt(vec![G::Eps, G::Ref(r)])]),
        2 => G::Cat(vec![l(0), G::Alt(vec![l(1), G::Ref(r)])]),
        // never under a guard
        _ => G::Alt(vec![l(0), G::Ref(r)]),
    };
    for i in 0..d {
        g = fix(match style {
            0 | 3 => g,
            1 => G::Alt(vec![l(d + i), g]),
            _ => G::Cat(vec![
                l(2 + i),
                G::Alt(vec![
                    g,
                    G::Cat(vec![l(d + 2 + i), G::Ref((r + i) % (d - i))]),
                ]),
            ]),
        });
    }
    g
}

/// `d` nested fixed points, the `k`th from within the only one that reads before the next, and a
/// variable that goes back to the `r`th.
pub fn guarded_once(d: usize, r: usize, k: usize) -> G {
    let l = |i: usize| crate::gram::lit(&crate::long::letter(i));
    let mut g = G::Alt(vec![l(0), G::Ref(r)]);
    for i in 0..d {
        g = G::Fix(Box::new(if i == k { G::Cat(vec![l(1), g]) } else { g }));
    }
    g
}

/// Nested as deep as the compiler, which takes time exponential in the depth, can do.
pub fn deep_nests(d: usize) -> Vec<G> {
    let mut out: Vec<G> = (11..=d)
        .flat_map(|d| (0..d).flat_map(move |r| (0..4).map(move |k| nested(d, r, k))))
        .collect();
    out.extend((11..=d).flat_map(guards));
    out
}

pub fn guards(d: usize) -> Vec<G> {
    let mut out = vec![];
    {
        for r in 0..d {
            let mut ks = vec![0, r.saturating_sub(1), r, r + 1, d - 1];
            ks.retain(|k| *k < d);
            ks.sort_unstable();
            ks.dedup();
            out.extend(ks.into_iter().map(|k| guarded_once(d, r, k)));
        }
    }
    out
}

/// A core grammar written as a program.
pub fn as_program(g: &G) -> Prog {
    fn go(g: &G) -> U {
        match g {
            G::Eps => U::Eps,
            G::Lit(s) => ulit(s),
            G::Ref(i) => U::Var(*i),
            G::Cat(v) => U::Cat(v.iter().map(go).collect()),
            G::Alt(v) => U::Alt(v.iter().map(go).collect()),
            G::Fix(b) => ufix(lam(1, go(b))),
        }
    }
    Prog::goal(go(g))
}

fn enumerate(sp: TermSpace) -> TermEnum {
    TermEnum::new(sp)
}

fn sp(
    atoms: &[&str],
    cat: bool,
    alt: bool,
    fix: bool,
    lams: &[usize],
    calls: &[usize],
) -> TermSpace {
    TermSpace {
        atoms: atoms
            .iter()
            .map(|a| if a.is_empty() { U::Eps } else { ulit(a) })
            .collect(),
        cat,
        alt,
        fix,
        lams: lams.to_vec(),
        calls: calls.to_vec(),
        labs: vec![],
    }
}

/// Function bodies and uses combined.
pub fn programs(t: bool) -> Vec<(&'static str, Vec<Prog>)> {
    let mut out = Vec::new();
    // every goal without definitions
    let mut e = enumerate(sp(&["a"], true, false, true, &[1, 2], &[1, 2]));
    out.push((
        "goals",
        e.up_to(if t { 8 } else { 7 }, 0)
            .into_iter()
            .map(Prog::goal)
            .collect(),
    ));
    let mut e = enumerate(sp(&["a", ""], false, true, true, &[1, 3], &[1, 3]));
    out.push((
        "goals_three_parameters",
        e.up_to(if t { 8 } else { 7 }, 0)
            .into_iter()
            .map(Prog::goal)
            .collect(),
    ));
    out.push(("well_formed", typed(if t { 13 } else { 11 })));
    // one definition, any goal
    let mut e = enumerate(sp(&["a"], true, false, true, &[1, 2], &[1, 2]));
    let (bs, gs) = (
        e.up_to(if t { 5 } else { 4 }, 0),
        e.up_to(if t { 6 } else { 5 }, 1),
    );
    let mut v = Vec::new();
    for b in &bs {
        for g in gs.iter().filter(|g| uses(g, 0)) {
            v.push(Prog {
                lets: vec![b.clone()],
                goal: g.clone(),
            });
        }
    }
    out.push(("one_definition", v));
    // two definitions, the second one using the first
    let bs = e.up_to(3, 0);
    let cs: Vec<U> = e.up_to(4, 1).into_iter().filter(|c| uses(c, 0)).collect();
    let gs: Vec<U> = e
        .up_to(if t { 5 } else { 4 }, 2)
        .into_iter()
        .filter(|g| uses(g, 0))
        .collect();
    let mut v = Vec::new();
    for b in &bs {
        for c in &cs {
            for g in &gs {
                v.push(Prog {
                    lets: vec![b.clone(), c.clone()],
                    goal: g.clone(),
                });
            }
        }
    }
    out.push(("two_definitions", v));
    // functions of 1..5 parameters with a fixed point inside, applied under fixed points
    let mut v = Vec::new();
    for n in 1..=5usize {
        let mut eb = enumerate(sp(&["b"], true, true, false, &[], &[]));
        // bodies over the parameters and one inner recursion variable
        let size = if n <= 2 { 5 } else { 3 };
        let inner: Vec<U> = eb
            .up_to(size, n + 1)
            .into_iter()
            .filter(|b| uses(b, 0) || n == 1)
            .collect();
        let flat: Vec<U> = eb.up_to(size, n).to_vec();
        let mut bodies: Vec<U> = flat.clone();
        bodies.extend(inner.iter().map(|b| ufix(lam(1, b.clone()))));
        bodies.extend(
            inner
                .iter()
                .map(|b| ucat(vec![ufix(lam(1, b.clone())), v_(n - 1)])),
        );
        if n > 2 {
            // every parameter used, in every rotation
            for r in 0..n {
                let p: Vec<U> = (0..n).map(|i| v_((i + r) % n)).collect();
                bodies.push(ucat(p.clone()));
                let q: Vec<U> = (0..n).map(|i| v_(1 + (i + r) % n)).chain([v_(0)]).collect();
                bodies.push(ufix(lam(1, ualt(q))));
            }
        }
        // arguments under two fixed points: index 0 and 1 are their variables, 2 is f
        let args = [
            v_(0),
            v_(1),
            ulit("a"),
            ucat(vec![v_(0), v_(1)]),
            ufix(lam(1, ucat(vec![v_(0), v_(1)]))),
        ];
        let combos: usize = args.len().pow(n as u32);
        let step = if t || n <= 2 {
            1
        } else {
            [1, 1, 1, 7, 61, 601][n]
        };
        for b in &bodies {
            for c in (0..combos).step_by(step) {
                let mut k = c;
                let mut a = Vec::new();
                for _ in 0..n {
                    a.push(args[k % args.len()].clone());
                    k /= args.len();
                }
                let app = call(v_(2), a);
                v.push(Prog {
                    lets: vec![lam(n, b.clone())],
                    goal: ufix(lam(1, ucat(vec![ulit("c"), ufix(lam(1, app))]))),
                });
            }
        }
    }
    out.push(("parameters_under_fixed_points", v));
    // higher-order and curried functions
    let mut v = Vec::new();
    let fs = [
        lam(1, ucat(vec![v_(0), ulit("a")])),
        lam(1, ufix(lam(1, ualt(vec![v_(1), v_(0)])))),
        lam(1, lam(1, ucat(vec![v_(0), v_(1)]))),
        lam(2, ucat(vec![v_(0), v_(1)])),
        lam(1, ulit("k")),
        lam(
            2,
            call(lam(1, ucat(vec![v_(0), v_(1), v_(2)])), vec![v_(1)]),
        ),
        lam(1, v_(0)),
        lam(
            1,
            lam(2, ufix(lam(1, ucat(vec![v_(3), v_(2), v_(1), v_(0)])))),
        ),
    ];
    // twice, compose, apply, flip, partially applied under a binder
    let hs = [
        lam(2, call(v_(1), vec![call(v_(1), vec![v_(0)])])),
        lam(3, call(v_(2), vec![call(v_(1), vec![v_(0)])])),
        lam(2, call(v_(1), vec![v_(0)])),
        lam(1, lam(1, call(v_(1), vec![v_(0)]))),
        lam(2, ufix(lam(1, call(v_(2), vec![ualt(vec![v_(1), v_(0)])])))),
        lam(3, call(v_(2), vec![v_(0), v_(1)])),
        lam(2, call(v_(1), vec![lam(1, ucat(vec![v_(0), v_(1)]))])),
        lam(
            1,
            call(v_(0), vec![lam(1, ucat(vec![v_(0), ulit("q")])), ulit("r")]),
        ),
    ];
    for f in &fs {
        for h in &hs {
            // scope in goal: x = 0 (fixed point), h = 1, f = 2
            let x = v_(0);
            let (f_, h_) = (v_(2), v_(1));
            let ufs: Vec<U> = vec![
                call(h_.clone(), vec![f_.clone()]),
                call(h_.clone(), vec![f_.clone(), x.clone()]),
                call(h_.clone(), vec![f_.clone(), f_.clone(), x.clone()]),
                call(h_.clone(), vec![f_.clone(), ulit("b"), x.clone()]),
                call(call(h_.clone(), vec![f_.clone()]), vec![x.clone()]),
                call(
                    h_.clone(),
                    vec![call(f_.clone(), vec![x.clone()]), ulit("b")],
                ),
                call(
                    h_.clone(),
                    vec![call(f_.clone(), vec![x.clone()]), ulit("b"), x.clone()],
                ),
                call(call(f_.clone(), vec![x.clone()]), vec![ulit("c")]),
                call(
                    call(f_.clone(), vec![x.clone()]),
                    vec![ulit("c"), x.clone()],
                ),
                call(
                    h_.clone(),
                    vec![lam(1, ucat(vec![v_(0), v_(1)])), x.clone()],
                ),
                call(
                    h_.clone(),
                    vec![
                        lam(1, ufix(lam(1, ucat(vec![v_(0), v_(1), v_(2)])))),
                        x.clone(),
                    ],
                ),
                call(
                    h_.clone(),
                    vec![
                        lam(2, ucat(vec![v_(0), v_(1), v_(2)])),
                        ulit("b"),
                        x.clone(),
                    ],
                ),
                call(h_.clone(), vec![h_.clone(), f_.clone()]),
                call(h_.clone(), vec![h_.clone(), f_.clone(), x.clone()]),
                call(call(h_.clone(), vec![h_.clone()]), vec![f_.clone()]),
                call(
                    call(h_.clone(), vec![h_.clone(), f_.clone()]),
                    vec![x.clone()],
                ),
                call(
                    h_.clone(),
                    vec![call(h_.clone(), vec![f_.clone()]), x.clone()],
                ),
            ];
            for g in ufs {
                v.push(Prog {
                    lets: vec![f.clone(), h.clone()],
                    goal: ufix(lam(1, ucat(vec![ulit("z"), g.clone()]))),
                });
                v.push(Prog {
                    lets: vec![f.clone(), h.clone()],
                    goal: ufix(lam(1, ufix(lam(1, ucat(vec![v_(1), shift(&g, 1)]))))),
                });
            }
        }
    }
    out.push(("higher_order", v));
    // chains of definitions, each using all earlier ones
    let mut v = Vec::new();
    for k in 1..=7usize {
        for kind in 0..6 {
            let mut lets = Vec::new();
            for i in 0..k {
                lets.push(match kind {
                    0 if i == 0 => ulit("a"),
                    0 => ucat(
                        (0..i)
                            .map(v_)
                            .collect::<Vec<_>>()
                            .into_iter()
                            .chain([ulit("b")])
                            .collect(),
                    ),
                    1 => lam(
                        1,
                        if i == 0 {
                            ucat(vec![v_(0), ulit("a")])
                        } else {
                            call(v_(1), vec![ucat(vec![v_(0), ulit("b")])])
                        },
                    ),
                    2 => lam(
                        2,
                        if i == 0 {
                            ucat(vec![v_(0), v_(1)])
                        } else {
                            call(v_(2), vec![v_(0), v_(1)])
                        },
                    ),
                    3 => lam(
                        2,
                        if i == 0 {
                            ufix(lam(1, ualt(vec![v_(0), v_(1), v_(2)])))
                        } else {
                            ufix(lam(1, call(v_(3), vec![v_(0), v_(1)])))
                        },
                    ),
                    4 => lam(
                        3,
                        if i == 0 {
                            ucat(vec![v_(2), v_(0), v_(1)])
                        } else {
                            call(v_(3), vec![v_(1), ucat(vec![v_(2), ulit("k")]), v_(0)])
                        },
                    ),
                    _ => lam(
                        1,
                        if i == 0 {
                            lam(1, ucat(vec![v_(0), v_(1)]))
                        } else {
                            lam(1, call(call(v_(2), vec![v_(0)]), vec![v_(1)]))
                        },
                    ),
                });
            }
            let head = v_(1);
            let goals = [
                head.clone(),
                call(head.clone(), vec![v_(0)]),
                call(head.clone(), vec![v_(0), ulit("y")]),
                call(
                    head.clone(),
                    vec![v_(0), ulit("y"), ufix(lam(1, ucat(vec![v_(0), v_(1)])))],
                ),
                call(call(head.clone(), vec![v_(0)]), vec![ulit("y")]),
            ];
            for g in goals {
                v.push(Prog {
                    lets: lets.clone(),
                    goal: ufix(lam(1, ucat(vec![ulit("m"), g.clone(), v_(0)]))),
                });
                v.push(Prog {
                    lets: lets.clone(),
                    goal: ufix(lam(1, g)),
                });
            }
        }
    }
    out.push(("chains", v));
    // labels on parts, functions, arguments and bodies
    let mut e = enumerate(TermSpace {
        labs: vec!["p".into()],
        ..sp(&["a"], true, false, true, &[1], &[1])
    });
    out.push((
        "labels",
        e.up_to(if t { 8 } else { 7 }, 0)
            .into_iter()
            .filter(has_label)
            .map(Prog::goal)
            .collect(),
    ));
    let (bs, gs) = (e.up_to(4, 0), e.up_to(4, 1));
    let mut v = Vec::new();
    for b in &bs {
        for g in gs.iter().filter(|g| uses(g, 0)) {
            if has_label(b) || has_label(g) {
                v.push(Prog {
                    lets: vec![b.clone()],
                    goal: g.clone(),
                });
            }
        }
    }
    out.push(("labels_one_definition", v));
    out.push(("many_parameters", many_parameters(t)));
    out.push(("deep", deep(t)));
    out
}

pub fn has_label(u: &U) -> bool {
    match u {
        U::Lab(..) => true,
        U::Cat(p) | U::Alt(p) => p.iter().any(has_label),
        U::Fix(b) | U::Lam(_, b) => has_label(b),
        U::Call(h, a) => has_label(h) || a.iter().any(has_label),
        _ => false,
    }
}

fn num(i: usize) -> U {
    ulit(&format!(
        "{}{}",
        char::from_u32(0x4e00 + i as u32).unwrap(),
        i
    ))
}

/// Functions of many parameters, and of many arguments.
fn many_parameters(t: bool) -> Vec<Prog> {
    let mut v = Vec::new();
    for n in if t {
        (3..=16)
            .chain([31, 32, 33, 64, 65, 257])
            .collect::<Vec<usize>>()
    } else {
        vec![3, 4, 6, 8, 9, 10, 12, 17, 33, 65]
    } {
        let mut bodies: Vec<(usize, U)> = Vec::new();
        for r in 0..n {
            bodies.push((n, v_(r)));
            bodies.push((n, ucat((0..n).map(|i| v_((i + r) % n)).collect())));
            bodies.push((
                n,
                ufix(lam(
                    1,
                    ualt(
                        (0..n)
                            .map(|i| ucat(vec![v_(1 + (i + r) % n), v_(0)]))
                            .chain([U::Eps])
                            .collect(),
                    ),
                )),
            ));
            // the parameters passed on in another order, under a binder
            bodies.push((
                n,
                call(
                    lam(n, ucat((0..n).map(v_).collect())),
                    (0..n).map(|i| v_((i * 2 + r) % n)).collect(),
                ),
            ));
            bodies.push((
                n,
                ufix(lam(
                    1,
                    call(
                        lam(2, ucat(vec![v_(1), v_(2), v_(3 + r), v_(0)])),
                        vec![v_(0), v_(1 + r)],
                    ),
                )),
            ));
            // split in two functions
            if r > 0 {
                bodies.push((r, lam(n - r, ucat((0..n).rev().map(v_).collect()))));
            }
        }
        for (m, b) in bodies {
            let arg = |i: usize| {
                if i % 4 == 3 {
                    ucat(vec![v_(0), num(i)])
                } else {
                    num(i)
                }
            };
            for given in [n - 1, n, n + 1] {
                let args: Vec<U> = (0..given).map(arg).collect();
                let app = if m < n && given == n {
                    call(call(v_(1), args[..m].to_vec()), args[m..].to_vec())
                } else {
                    call(v_(1), args)
                };
                v.push(Prog {
                    lets: vec![lam(m, b.clone())],
                    goal: ufix(lam(1, ucat(vec![ulit("c"), app]))),
                });
            }
        }
    }
    v
}

/// Long chains of definitions, functions inside functions and arguments inside arguments.
fn deep(t: bool) -> Vec<Prog> {
    let mut v = Vec::new();
    for k in if t {
        vec![8, 10, 12, 16, 17, 20, 32, 33, 40, 64]
    } else {
        vec![8, 10, 16, 20, 33]
    } {
        for j in 0..k {
            // definition j out of k, used directly, by the last one, and from under binders
            let lets: Vec<U> = (0..k).map(num).collect();
            v.push(Prog {
                lets: lets.clone(),
                goal: v_(j),
            });
            v.push(Prog {
                lets: lets.clone(),
                goal: ufix(lam(
                    1,
                    ucat(vec![
                        v_(1 + j),
                        call(
                            lam(2, ucat(vec![v_(0), v_(3 + j), v_(1)])),
                            vec![v_(0), v_(1 + (j + 1) % k)],
                        ),
                    ]),
                )),
            });
            let mut l = lets.clone();
            l.push(lam(1, ucat(vec![v_(1 + j), v_(0), v_(1 + k - 1 - j)])));
            v.push(Prog {
                lets: l,
                goal: ufix(lam(
                    1,
                    ucat(vec![
                        ulit("m"),
                        call(v_(1), vec![ucat(vec![v_(2 + j), v_(0)])]),
                    ]),
                )),
            });
            // k functions inside each other, each applied at once; parameter j used inside
            let mut g = ucat(vec![v_(j), v_(k - 1 - j), v_(k)]);
            for i in 0..k {
                g = call(
                    lam(1, g),
                    vec![if i % 3 == 2 {
                        ucat(vec![num(i), v_(0)])
                    } else {
                        num(i)
                    }],
                );
            }
            v.push(Prog {
                lets: vec![ulit("z")],
                goal: g,
            });
            // all applied at the end
            let mut g = ucat(vec![v_(j), v_(k - 1 - j), v_(k)]);
            for _ in 0..k {
                g = lam(1, g);
            }
            for i in 0..k {
                g = call(
                    g,
                    vec![if i % 3 == 2 {
                        ucat(vec![num(i), v_(0)])
                    } else {
                        num(i)
                    }],
                );
            }
            v.push(Prog {
                lets: vec![ulit("z")],
                goal: g.clone(),
            });
            v.push(Prog {
                lets: vec![],
                goal: ufix(lam(1, ucat(vec![ulit("y"), g]))),
            });
            if k > 10 {
                continue;
            }
            // fixed points inside each other, variable j passed to a function inside
            let mut g = call(v_(k), vec![v_(j)]);
            for i in 0..k {
                g = ufix(lam(1, ualt(vec![num(i), ucat(vec![num(k + i), g])])));
            }
            v.push(Prog {
                lets: vec![lam(1, ufix(lam(1, ucat(vec![ulit("b"), v_(0), v_(1)]))))],
                goal: g,
            });
        }
        // an argument inside an argument inside ...
        let mut g = v_(0);
        for _ in 0..k {
            g = call(v_(1), vec![g]);
        }
        for f in [
            ucat(vec![v_(0), ulit("a")]),
            ualt(vec![v_(0), ulit("a")]),
            v_(0),
            ufix(lam(1, ucat(vec![v_(1), v_(0)]))),
        ] {
            v.push(Prog {
                lets: vec![lam(1, f)],
                goal: ufix(lam(1, g.clone())),
            });
        }
        // a definition that doubles the one before: shared, not copied
        if k <= 10 {
            let lets: Vec<U> = (0..k)
                .map(|i| {
                    if i == 0 {
                        ulit("a")
                    } else {
                        ucat(vec![v_(0), v_(0)])
                    }
                })
                .collect();
            v.push(Prog { lets, goal: v_(0) });
        }
    }
    v
}

/// Every well-typed program with at most `n` nodes: no definition, one or two definitions.
fn typed(n: usize) -> Vec<Prog> {
    let g = Ty::G;
    let f1 = Ty::Fun(vec![Ty::G], Box::new(Ty::G));
    let f2 = Ty::Fun(vec![Ty::G, Ty::G], Box::new(Ty::G));
    let h = Ty::Fun(vec![f1.clone()], Box::new(Ty::G));
    let c = Ty::Fun(vec![Ty::G], Box::new(f1.clone()));
    let funs = vec![f1.clone(), f2.clone(), h.clone(), c.clone()];
    let mut e = TypedEnum::new(vec![ulit("a")], funs.clone());
    let mut out = Vec::new();
    for k in 1..=n {
        out.extend(e.terms(k, &g, &[]).iter().cloned().map(Prog::goal));
    }
    let all = [g.clone(), f1, f2, h, c];
    for t in &all {
        for i in 1..n {
            for j in 1..=n - i {
                let bs = e.terms(i, t, &[]);
                let gs = e.terms(j, &g, &[t.clone()]);
                for b in bs.iter() {
                    for x in gs.iter().filter(|x| uses(x, 0)) {
                        out.push(Prog {
                            lets: vec![b.clone()],
                            goal: x.clone(),
                        });
                    }
                }
            }
        }
        for u in &all {
            for i in 1..n {
                for j in 1..n - i {
                    let bs = e.terms(i, t, &[]);
                    let cs: Vec<U> = e
                        .terms(j, u, &[t.clone()])
                        .iter()
                        .filter(|c| uses(c, 0))
                        .cloned()
                        .collect();
                    if bs.is_empty() || cs.is_empty() {
                        continue;
                    }
                    for k in 1..=n - i - j {
                        let gs: Vec<U> = e
                            .terms(k, &g, &[t.clone(), u.clone()])
                            .iter()
                            .filter(|x| uses(x, 0))
                            .cloned()
                            .collect();
                        for b in bs.iter() {
                            for c in &cs {
                                for x in &gs {
                                    out.push(Prog {
                                        lets: vec![b.clone(), c.clone()],
                                        goal: x.clone(),
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

fn v_(i: usize) -> U {
    U::Var(i)
}

pub fn uses(u: &U, i: usize) -> bool {
    match u {
        U::Eps | U::Lit(_) => false,
        U::Var(j) => *j == i,
        U::Cat(p) | U::Alt(p) => p.iter().any(|u| uses(u, i)),
        U::Fix(b) | U::Lab(b, _) => uses(b, i),
        U::Lam(n, b) => uses(b, i + n),
        U::Call(h, a) => uses(h, i) || a.iter().any(|u| uses(u, i)),
    }
}

/// Add `by` to the free variables.
fn shift(u: &U, by: usize) -> U {
    fn go(u: &U, d: usize, by: usize) -> U {
        match u {
            U::Var(i) if *i >= d => U::Var(i + by),
            U::Eps | U::Lit(_) | U::Var(_) => u.clone(),
            U::Cat(p) => U::Cat(p.iter().map(|u| go(u, d, by)).collect()),
            U::Alt(p) => U::Alt(p.iter().map(|u| go(u, d, by)).collect()),
            U::Fix(b) => ufix(go(b, d, by)),
            U::Lab(b, l) => lab(go(b, d, by), l),
            U::Lam(n, b) => lam(*n, go(b, d + n, by)),
            U::Call(h, a) => call(go(h, d, by), a.iter().map(|u| go(u, d, by)).collect()),
        }
    }
    go(u, 0, by)
}

/// Wide and deep grammars with one clash, or none, at every place.
pub fn large(full: bool) -> Vec<G> {
    let l = |i: usize| lit(&char::from_u32(0x4e00 + i as u32).unwrap().to_string());
    let opt = |i: usize| alt(vec![G::Eps, l(i)]);
    let mut out = Vec::new();
    let widths: Vec<usize> = (6..=if full { 40 } else { 18 })
        .chain([33, 65, 130])
        .chain(if full { vec![257, 300] } else { vec![] })
        .collect();
    for &n in &widths {
        let all = n <= 40;
        let is: Vec<usize> = if all {
            (0..n).collect()
        } else {
            vec![0, 1, n / 2, n - 2]
        };
        for &i in &is {
            for j in (i + 1..n).filter(|j| all || j % 7 == 0 || *j + 3 > n || *j < i + 3) {
                // the alternatives i and j clash, or both are nullable
                let put = |g: G, at: usize| -> Vec<G> {
                    (0..n)
                        .map(|k| if k == at { g.clone() } else { l(k) })
                        .collect()
                };
                out.push(alt(put(l(i), j)));
                let mut v = put(G::Eps, i);
                v[j] = opt(j);
                out.push(alt(v));
                out.push(alt(put(cat(vec![l(j), l(i)]), j)));
                // optional parts; part j starts like part i, with a part in between that ends the chain or not
                let v: Vec<G> = (0..n)
                    .map(|k| {
                        if k == 0 {
                            cat(vec![l(n), opt(0)])
                        } else {
                            opt(if k == j { i } else { k })
                        }
                    })
                    .collect();
                out.push(cat(v.clone()));
                if j > i + 1 {
                    let mut v = v;
                    v[(i + j) / 2] = l(n + 1);
                    out.push(cat(v.clone()));
                    v[(i + j) / 2] = fix(alt(vec![cat(vec![l(n + 1), rf(0)]), l(n + 2)]));
                    out.push(cat(v));
                }
            }
            // two alternations that share one letter, one after the other or side by side
            let a = alt((0..n).map(l).collect());
            let b = alt((0..n)
                .map(|k| if k == i { l(n - 1 - i) } else { l(n + k) })
                .collect());
            let c = alt((0..n).map(|k| l(2 * n + k)).collect());
            let many = |g: &G| fix(alt(vec![G::Eps, cat(vec![g.clone(), rf(0)])]));
            for (x, y) in [(&a, &b), (&a, &c)] {
                out.push(alt(vec![x.clone(), y.clone()]));
                out.push(cat(vec![l(3 * n), many(x), y.clone()]));
                out.push(cat(vec![l(3 * n), many(x), many(y), l(3 * n)]));
            }
        }
    }
    // many letters that may follow: one of them does, or none
    for &n in &widths {
        let ends = |from: usize, null: bool| {
            let mut v: Vec<G> = (0..n)
                .map(|k| cat(vec![l(from + k), opt(from + n + k)]))
                .collect();
            if null {
                v.insert(n / 2, G::Eps);
            }
            alt(v)
        };
        let (a, b, c) = (ends(0, false), ends(2 * n, false), ends(2 * n, true));
        out.push(a.clone());
        out.push(alt(vec![a.clone(), b.clone()]));
        out.push(alt(vec![c.clone(), a.clone()]));
        out.push(fix(alt(vec![
            cat(vec![a.clone(), l(4 * n), rf(0)]),
            c.clone(),
        ])));
        for i in (0..n).filter(|i| n <= 40 || *i < 3 || *i + 3 > n || i % 16 == 0) {
            for next in [n + i, 3 * n + i, 4 * n + i] {
                out.push(cat(vec![a.clone(), l(next)]));
                out.push(cat(vec![a.clone(), c.clone(), l(next)]));
                out.push(cat(vec![alt(vec![a.clone(), b.clone()]), l(next)]));
                out.push(cat(vec![
                    fix(alt(vec![cat(vec![l(4 * n), rf(0)]), a.clone()])),
                    opt(5 * n),
                    l(next),
                ]));
            }
        }
    }
    // a variable that is used without a guard and adds nothing to the fixed points around it
    for d in 1..=if full { 10 } else { 9 } {
        for r in 0..d {
            for k in 0..=d {
                for style in 0..4 {
                    let mut g = rf(r);
                    for i in 0..d {
                        let x = if i == k {
                            cat(vec![l(i), g])
                        } else if i > r && style >= 2 {
                            alt(vec![l(20 + i), g])
                        } else if style % 2 == 1 {
                            cat(vec![g, l(60 + i)])
                        } else {
                            g
                        };
                        g = fix(x);
                    }
                    out.push(g);
                }
            }
        }
    }
    // nested fixed points: variable r used under a guard at level k (or none), the other levels
    // alternatives or nullable
    for d in 2..=if full { 8 } else { 7 } {
        for r in 0..d {
            for k in 0..=d {
                for style in 0..4 {
                    let mut g = if style % 2 == 0 {
                        rf(r)
                    } else {
                        alt(vec![l(90), cat(vec![l(91), rf(d - 1 - r)]), rf(r)])
                    };
                    for i in 0..d {
                        let x = if i == k {
                            cat(vec![l(i), g])
                        } else if style < 2 {
                            alt(vec![l(20 + i), g])
                        } else {
                            alt(vec![g, cat(vec![l(40 + i), alt(vec![G::Eps, rf(0)])])])
                        };
                        g = fix(x);
                    }
                    out.push(g);
                }
            }
        }
    }
    out
}

/// Characters that some code treats apart: edges of the encoding, characters without a width,
/// blanks, marks, letters that change their length with their case, quotes and brackets.
pub const ODD: &[char] = &[
    '\u{feff}',
    '\u{200b}',
    '\u{200d}',
    '\u{301}',
    '\u{ad}',
    '\u{a0}',
    ' ',
    '\t',
    '\n',
    '\r',
    '\u{b}',
    '\u{c}',
    '\u{85}',
    '\u{2028}',
    '\u{2029}',
    '\u{3000}',
    '\u{fe0f}',
    '\0',
    '\u{1b}',
    '\u{7f}',
    '\u{80}',
    '\u{ff}',
    '\u{100}',
    '\u{7ff}',
    '\u{800}',
    '\u{d7ff}',
    '\u{e000}',
    '\u{fffd}',
    '\u{ffff}',
    '\u{10000}',
    '\u{10ffff}',
    '\u{202e}',
    '\u{df}',
    '\u{130}',
    '\u{131}',
    '"',
    '\'',
    '\\',
    '{',
    '}',
    '/',
    '#',
    'A',
];

/// Literals that begin with odd characters, where first characters decide.
pub fn odd() -> Vec<G> {
    let w = |c: char, t: &str| lit(&format!("{}{}", c, t));
    let mut out = Vec::new();
    for &c in ODD {
        for d in ODD.iter().copied().chain(['a', 'b']) {
            out.push(alt(vec![w(c, "a"), w(d, "b")]));
            out.push(alt(vec![lit("x"), w(c, ""), w(d, "")]));
            out.push(cat(vec![lit("x"), alt(vec![G::Eps, w(c, "a")]), w(d, "b")]));
            out.push(cat(vec![
                lit("x"),
                fix(alt(vec![cat(vec![w(c, ""), rf(0)]), G::Eps])),
                alt(vec![w(d, ""), lit("y")]),
            ]));
            out.push(fix(alt(vec![cat(vec![w(c, "a"), rf(0)]), w(d, "z")])));
        }
    }
    out
}
