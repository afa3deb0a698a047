//! The grammar spaces that are enumerated.
use refmodel::enumerate::{closed, Space};
use refmodel::gram::*;
use std::collections::HashSet;

/// Everything up to `n` nodes over {empty, a, b, c}.
pub fn small(n: usize, max_fix: usize) -> Vec<G> {
    closed(
        Space { atoms: vec![G::Eps, lit("a"), lit("b"), lit("c")], max_arity: 3, max_fix, flat: false },
        n,
        &['a', 'b', 'c'],
    )
}

/// Two-character literals in the alphabet.
pub fn words(n: usize) -> Vec<G> {
    closed(Space { atoms: vec![lit("ab"), lit("a"), lit("ba"), G::Eps, lit("")], max_arity: 2, max_fix: 1, flat: false }, n, &[])
}

/// Open fragments with free variables 0..d, used inside several contexts.
pub fn fragments(n: usize, d: usize, letters: &[&str]) -> Vec<G> {
    let mut atoms: Vec<G> = letters.iter().map(|l| lit(l)).collect();
    atoms.push(G::Eps);
    let mut e = refmodel::enumerate::Enum::new(Space { atoms, max_arity: 2, max_fix: 2, flat: true });
    (1..=n).flat_map(|k| e.terms(k, d).to_vec()).collect()
}

fn has_free(g: &G, i: usize) -> bool {
    match g {
        G::Ref(j) => *j == i,
        G::Cat(v) | G::Alt(v) => v.iter().any(|g| has_free(g, i)),
        G::Fix(b) => has_free(b, i + 1),
        _ => false,
    }
}

/// The same open fragment under two different enclosing fixed points.
pub fn shared_context(n: usize, nested: usize) -> Vec<G> {
    fn outward(g: &G) -> bool {
        match g {
            G::Cat(v) | G::Alt(v) => v.iter().any(outward),
            G::Fix(b) => (1..4).any(|i| has_free(b, i)) || outward(b),
            _ => false,
        }
    }
    let mut frs: Vec<G> = fragments(n, 1, &["b", "c"]).into_iter().filter(|g| has_free(g, 0)).collect();
    frs.extend(fragments(nested, 1, &["b"]).into_iter().filter(|g| has_free(g, 0) && outward(g)));
    let ctxs: Vec<Box<dyn Fn(&G) -> G>> = vec![
        Box::new(|h| fix(cat(vec![lit("a"), h.clone()]))),
        Box::new(|h| fix(cat(vec![lit("a"), h.clone(), lit("d")]))),
        Box::new(|h| fix(cat(vec![lit("a"), h.clone(), lit("e")]))),
        Box::new(|h| fix(alt(vec![lit("d"), cat(vec![lit("a"), h.clone()])]))),
        Box::new(|h| fix(alt(vec![G::Eps, cat(vec![lit("a"), h.clone()])]))),
        Box::new(|h| fix(alt(vec![cat(vec![lit("a"), h.clone(), lit("e")]), lit("d")]))),
        Box::new(|h| fix(cat(vec![lit("a"), fix(alt(vec![cat(vec![lit("f"), rf(0)]), h.shift(0, 1)]))]))),
    ];
    let mut out = Vec::new();
    for h in &frs {
        let full = fix(cat(vec![lit("a"), h.clone()]));
        if !full.closed(0) {
            continue;
        }
        for i in 0..ctxs.len() {
            for j in 0..ctxs.len() {
                if i == j {
                    continue;
                }
                let (x, y) = (ctxs[i](h), ctxs[j](h));
                let g = alt(vec![cat(vec![lit("1"), x.clone()]), cat(vec![lit("2"), y.clone()])]);
                if accepted(&g) {
                    out.push(g);
                }
                if i < j {
                    let g = cat(vec![x.clone(), lit("3"), y.clone()]);
                    if accepted(&g) {
                        out.push(g);
                    }
                    // y's context inside x's context
                    let g = cat(vec![lit("1"), fix(alt(vec![cat(vec![lit("4"), rf(0)]), x.shift(0, 1)])), lit("5"), y]);
                    if accepted(&g) {
                        out.push(g);
                    }
                }
            }
        }
    }
    out
}

/// Two closed sub-grammars, each used twice, in every arrangement.
pub fn shared_closed(n: usize) -> Vec<G> {
    let subs: Vec<G> = closed(
        Space { atoms: vec![lit("a"), lit("b"), G::Eps], max_arity: 2, max_fix: 1, flat: true },
        n,
        &['a', 'b'],
    )
    .into_iter()
    .filter(accepted)
    .collect();
    let mut out = Vec::new();
    for s in &subs {
        for t in &subs {
            for g in [
                cat(vec![lit("1"), s.clone(), lit("2"), t.clone(), lit("3"), s.clone()]),
                alt(vec![
                    cat(vec![lit("1"), s.clone(), lit("2"), t.clone()]),
                    cat(vec![lit("3"), t.clone(), lit("2"), s.clone()]),
                ]),
                fix(alt(vec![cat(vec![lit("1"), rf(0), lit("2"), s.clone()]), cat(vec![lit("3"), t.clone()])])),
            ] {
                if accepted(&g) {
                    out.push(g);
                }
            }
        }
    }
    out
}

/// Wide sequences and alternations, deep fixed points, unusual literals.
pub fn shapes(full: bool) -> Vec<G> {
    shapes_all(full).into_iter().filter(accepted).collect()
}

pub fn shapes_all(full: bool) -> Vec<G> {
    let mut out = Vec::new();
    let ls = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"];
    for k in 2..=ls.len() {
        out.push(cat(ls[..k].iter().map(|l| lit(l)).collect()));
        out.push(alt(ls[..k].iter().map(|l| lit(l)).collect()));
        for p in 0..k {
            // one part is empty, nullable, recursive
            let mut v: Vec<G> = ls[..k].iter().map(|l| lit(l)).collect();
            v[p] = G::Eps;
            out.push(alt(v.clone()));
            v[p] = alt(vec![G::Eps, lit(ls[p])]);
            out.push(cat(v.clone()));
            let mut w: Vec<G> = ls[..k].iter().map(|l| lit(l)).collect();
            w[p] = cat(vec![lit(ls[p]), rf(0)]);
            out.push(fix(alt(w)));
            let mut w: Vec<G> = ls[..k].iter().map(|l| lit(l)).collect();
            w[p] = alt(vec![cat(vec![lit("("), rf(0), lit(")")]), lit("z")]);
            out.push(fix(cat(w)));
        }
    }
    // choices between many characters, in one alternative or over several
    for n in if full { vec![14, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 63, 64, 65, 66] } else { vec![16, 17, 33, 65] } {
        let l = |i: usize| lit(&char::from_u32(0x4e00 + i as u32).unwrap().to_string());
        let d = |from: usize, to: usize| alt((from..to).map(l).collect());
        let star = |g: G| fix(alt(vec![G::Eps, cat(vec![g, rf(0)])]));
        out.push(cat(vec![lit("("), alt(vec![cat(vec![d(0, n), lit("x")]), lit("-")])]));
        out.push(cat(vec![lit("("), alt(vec![lit("-"), cat(vec![d(0, n), lit("x")]), lit("+")]), lit(")")]));
        out.push(cat(vec![lit("("), alt(vec![d(0, n / 2), d(n / 2, n), G::Eps]), lit(")")]));
        out.push(cat(vec![lit("("), star(d(0, n)), lit(")")]));
        out.push(fix(alt(vec![cat(vec![d(0, n), rf(0)]), lit("-"), lit("+")])));
        out.push(cat(vec![d(0, n), d(1, n + 1)]));
    }
    // nested fixed points, with references to every level
    for depth in 1..=5 {
        for r in 0..depth {
            for nul in 0..2 {
                let mut g = cat(vec![lit("a"), rf(r)]);
                for d in 0..depth {
                    let tail = if nul == 1 { G::Eps } else { lit(ls[d + 1]) };
                    g = fix(alt(vec![cat(vec![lit(&d.to_string()), g, lit(ls[d + 7])]), tail]));
                }
                out.push(g);
                let mut g = rf(r);
                for d in 0..depth {
                    g = fix(cat(vec![lit(&d.to_string()), alt(vec![lit(ls[d + 1]), g])]));
                }
                out.push(g);
            }
        }
    }
    // unusual literals
    let odd = [
        "", "é", "éa", "aé", "日本", "\u{10ffff}x", "\n", "\r", "\r\n", "\u{85}", "\u{2028}", "\0", "{", "}", "{}", "{0}", "\"", "\\", "'", "\\n", "#", "r#\"",
        "//", "/*", "abc", "aab", "abab", "$", "$x", "\u{1f600}", "e\u{301}", "\u{7f}", "\t", "%s",
    ];
    for (i, s) in odd.iter().enumerate() {
        out.push(lit(s));
        out.push(cat(vec![lit("a"), lit(s), lit("b")]));
        out.push(alt(vec![lit(s), lit("Z")]));
        out.push(fix(alt(vec![cat(vec![lit(s), rf(0)]), lit("Z")])));
        out.push(fix(alt(vec![cat(vec![lit("Z"), lit(s), rf(0)]), G::Eps])));
        for t in odd.iter().skip(i + 1).step_by(if full { 1 } else { 5 }) {
            out.push(alt(vec![lit(s), lit(t)]));
            out.push(cat(vec![lit(s), lit(t)]));
        }
    }
    for c in odd.iter().filter(|s| s.chars().count() == 1) {
        out.push(fix(alt(vec![cat(vec![alt(vec![lit(c), lit("Y")]), rf(0)]), G::Eps])));
    }
    for &c in refmodel::families::ODD {
        let w = |t: &str| lit(&format!("{}{}", c, t));
        out.push(w("a"));
        out.push(alt(vec![lit("a"), w("a")]));
        out.push(alt(vec![cat(vec![w(""), lit("b")]), G::Eps, lit("ab")]));
        out.push(cat(vec![lit("a"), alt(vec![G::Eps, w("")]), lit("b")]));
        out.push(fix(alt(vec![cat(vec![alt(vec![w(""), lit("ba")]), rf(0)]), lit("!")])));
        out.push(cat(vec![lit(&format!("a{}", c)), alt(vec![lit("a"), w("b")])]));
    }
    // line structure
    for br in ["\n", "\r", "\r\n", "\u{b}", "\u{2029}"] {
        out.push(fix(alt(vec![cat(vec![lit("a"), lit(br), rf(0)]), lit("b")])));
        out.push(fix(alt(vec![cat(vec![alt(vec![lit(br), lit("a")]), rf(0)]), lit("bb")])));
    }
    out.push(fix(alt(vec![cat(vec![lit("\r"), alt(vec![lit("\n"), G::Eps]), rf(0)]), lit("x")])));
    out.push(fix(alt(vec![cat(vec![alt(vec![lit("\r"), lit("\n")]), rf(0)]), lit("x")])));
    out
}

/// Nullable and recursive parts in every position of a three-part sequence or alternation.
pub fn mixed(full: bool) -> Vec<G> {
    mixed_all(full).into_iter().filter(accepted).collect()
}

pub fn mixed_all(full: bool) -> Vec<G> {
    let part = |l: &str, k: usize| -> G {
        let a = lit(l);
        let b = lit(&l.to_uppercase());
        match k {
            0 => a,
            1 => alt(vec![a, G::Eps]),
            2 => alt(vec![G::Eps, a]),
            3 => fix(alt(vec![cat(vec![a, rf(0)]), G::Eps])),
            4 => fix(alt(vec![cat(vec![a, rf(0), b]), G::Eps])),
            5 => fix(cat(vec![a, alt(vec![rf(0), b])])),
            6 => cat(vec![a, alt(vec![b, G::Eps])]),
            7 => alt(vec![cat(vec![a.clone(), b.clone()]), cat(vec![b, a])]),
            8 => lit(&format!("{}{}", l, l.to_uppercase())),
            9 => fix(alt(vec![cat(vec![a, fix(alt(vec![cat(vec![b.clone(), rf(1), rf(0)]), G::Eps]))]), cat(vec![lit("0"), b])])),
            _ => alt(vec![lit(""), a]),
        }
    };
    let kinds = 11;
    let mut out = Vec::new();
    for i in 0..kinds {
        for j in 0..kinds {
            out.push(cat(vec![part("a", i), part("b", j)]));
            out.push(alt(vec![part("a", i), part("b", j)]));
            out.push(fix(alt(vec![cat(vec![lit("("), rf(0), lit(")"), part("a", i)]), part("b", j)])));
            out.push(fix(alt(vec![cat(vec![part("a", i), lit("("), rf(0)]), part("b", j)])));
            for k in 0..kinds {
                if !full && (i + j + k) % 3 != 0 {
                    continue;
                }
                out.push(cat(vec![part("a", i), part("b", j), part("c", k)]));
                out.push(alt(vec![part("a", i), part("b", j), part("c", k)]));
                out.push(fix(cat(vec![part("a", i), alt(vec![cat(vec![part("b", j), lit("!"), rf(0)]), part("c", k)])])));
            }
        }
    }
    out
}

pub fn dedup(v: Vec<G>) -> Vec<G> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|g| seen.insert(g.clone())).collect()
}

/// Fixed points nested three deep with every variable in every position.
pub fn deep_fix(n: usize) -> Vec<G> {
    let mut e = refmodel::enumerate::Enum::new(Space { atoms: vec![lit("a"), G::Eps], max_arity: 2, max_fix: 4, flat: false });
    let mut out = Vec::new();
    for k in 1..=n {
        for d in 2..=4usize {
            // the body below d directly nested or separated fixed points
            for b in e.terms(k, d).iter() {
                if (0..d).filter(|i| has_free(b, *i)).count() < 2 {
                    continue;
                }
                let mut g = b.clone();
                let mut h = b.clone();
                let mut m = b.clone();
                for i in 0..d {
                    g = fix(g);
                    h = fix(alt(vec![lit(["b", "c", "d", "e"][i]), cat(vec![lit(["0", "1", "2", "3"][i]), h])]));
                    m = if i % 2 == 0 { fix(cat(vec![lit(["0", "1", "2", "3"][i]), m])) } else { fix(alt(vec![m, lit(["b", "c", "d", "e"][i])])) };
                }
                out.push(g);
                out.push(h);
                out.push(m);
            }
        }
    }
    out
}

/// Wide sequences and alternations over few letters and nullable parts.
pub fn wide(arity: usize) -> Vec<G> {
    let part: Vec<G> = vec![
        lit("a"),
        lit("b"),
        G::Eps,
        alt(vec![lit("a"), G::Eps]),
        alt(vec![G::Eps, lit("b")]),
        fix(alt(vec![cat(vec![lit("a"), rf(0)]), G::Eps])),
        lit("ab"),
        cat(vec![lit("c"), alt(vec![G::Eps, lit("a")])]),
    ];
    let mut out: Vec<Vec<G>> = vec![vec![]];
    let mut all = Vec::new();
    for k in 1..=arity {
        out = out
            .iter()
            .flat_map(|v| {
                part.iter().map(move |g| {
                    let mut w = v.clone();
                    w.push(g.clone());
                    w
                })
            })
            .collect();
        if k >= 2 {
            for v in &out {
                all.push(cat(v.clone()));
                all.push(alt(v.clone()));
            }
        }
    }
    all
}

/// A grammar with the given nullability, first letters and follow-last letters.
fn of_type(null: bool, first: &[&str], flast: &[&str], chained: bool) -> G {
    let mut v: Vec<G> = first.iter().map(|l| lit(l)).collect();
    if !flast.is_empty() {
        let tail = if chained {
            flast.iter().rev().fold(None, |t: Option<G>, l| {
                let l = lit(l);
                Some(alt(vec![G::Eps, t.map_or(l.clone(), |t| cat(vec![l, t]))]))
            })
        } else {
            let mut t: Vec<G> = flast.iter().map(|l| lit(l)).collect();
            t.push(G::Eps);
            Some(alt(t))
        };
        let l = v.len() - 1;
        v[l] = cat(vec![v[l].clone(), tail.unwrap()]);
    }
    if null {
        v.insert(v.len() / 2, G::Eps);
    }
    if v.len() == 1 {
        v.remove(0)
    } else {
        alt(v)
    }
}

/// One or two grammars of every type over the letters.
pub fn of_every_type(letters: &[&str]) -> Vec<G> {
    let sets: Vec<Vec<&str>> = (0..1usize << letters.len()).map(|m| letters.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, l)| *l).collect()).collect();
    let mut out = vec![G::Eps];
    for null in [false, true] {
        for f in sets.iter().filter(|f| !f.is_empty()) {
            for l in &sets {
                out.push(of_type(null, f, l, false));
                if l.len() > 1 {
                    out.push(of_type(null, f, l, true));
                }
            }
        }
    }
    out
}

/// Parts of every type in every position of sequences, alternations and recursive bodies.
pub fn types(full: bool) -> Vec<G> {
    let (two, three) = (of_every_type(&["a", "b"]), of_every_type(&["a", "b", "c"]));
    let mut out = three.clone();
    for s in &three {
        for t in &three {
            out.push(cat(vec![s.clone(), t.clone()]));
            out.push(alt(vec![s.clone(), t.clone()]));
            out.push(fix(alt(vec![s.clone(), cat(vec![lit("("), rf(0), t.clone()])])));
            out.push(fix(alt(vec![cat(vec![s.clone(), rf(0)]), t.clone()])));
        }
    }
    for r in &two {
        for s in &two {
            for t in &two {
                let (r, s, t) = (r.clone(), s.clone(), t.clone());
                out.push(cat(vec![r.clone(), s.clone(), t.clone()]));
                out.push(alt(vec![r.clone(), s.clone(), t.clone()]));
                out.push(fix(alt(vec![r.clone(), cat(vec![s.clone(), rf(0), t.clone()])])));
                out.push(fix(cat(vec![r.clone(), alt(vec![cat(vec![lit("("), rf(0), s.clone()]), t.clone()])])));
                if full {
                    out.push(cat(vec![alt(vec![r.clone(), s.clone()]), t.clone()]));
                    out.push(cat(vec![r.clone(), alt(vec![s.clone(), t.clone()])]));
                    out.push(alt(vec![cat(vec![r.clone(), s.clone()]), t.clone()]));
                    out.push(fix(alt(vec![r.clone(), cat(vec![s.clone(), fix(alt(vec![cat(vec![lit("("), rf(1)]), cat(vec![lit("["), rf(0), t.clone()]), G::Eps]))])])));
                }
            }
        }
    }
    out
}

pub use refmodel::families::large;
