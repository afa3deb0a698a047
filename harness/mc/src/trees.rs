//! C03: the parts of emitted types and of real parse trees against the labelled grammar.
use crate::emitted::{self, Def, Types};
use crate::{pipeline, space};
use refmodel::gram::{self, den0};
use refmodel::report::{par, Ctx};
use refmodel::shard::{run_shards, Builder, Entry};
use refmodel::term::*;
use refmodel::tree::{self, E, N};
use std::collections::HashSet;
use std::sync::Mutex;

fn agree(t: &Types, name: &str, n: &N, ctx: &mut Vec<String>) -> Result<(), String> {
    let name = t.resolve(name);
    let def = t.0.get(&name);
    match &n.e {
        E::Eps => {
            if name == "Epsilon" {
                Ok(())
            } else {
                Err(format!("{} stands for the empty string", name))
            }
        }
        E::Lit(l) => match def {
            Some(Def::Unit) => Ok(()),
            d => Err(format!("{} = {:?} stands for the literal {:?}", name, d, l)),
        },
        E::Ref(i) => {
            let want = &ctx[ctx.len() - 1 - i];
            if name == *want {
                Ok(())
            } else {
                Err(format!("{} stands for a recursive use of {}", name, want))
            }
        }
        E::Fix(b) => {
            ctx.push(name.clone());
            let r = agree(t, &name, b, ctx);
            ctx.pop();
            r
        }
        E::Cat(v) | E::Alt(v) => {
            let alt = matches!(n.e, E::Alt(_));
            let parts: Vec<(Option<String>, String)> = match (alt, def) {
                (true, Some(Def::Enum(p))) | (false, Some(Def::Rec(p))) => p.iter().map(|(n, t)| (Some(n.clone()), t.clone())).collect(),
                (false, Some(Def::Tuple(p))) => p.iter().map(|t| (None, t.clone())).collect(),
                (_, d) => return Err(format!("{} = {:?} stands for {:?}", name, d, n.plain().text())),
            };
            let want: Vec<Option<String>> = match tree::part_names(v, alt) {
                Some(n) => n.into_iter().map(Some).collect(),
                None => vec![None; v.len()],
            };
            let got: Vec<Option<String>> = parts.iter().map(|p| p.0.as_ref().map(|s| s.trim_start_matches("r#").to_string())).collect();
            if got != want {
                return Err(format!("the parts of {:?} are named {:?} instead of {:?}", n.plain().text(), got, want));
            }
            for (p, v) in parts.iter().zip(v) {
                agree(t, &p.1, v, ctx)?;
            }
            Ok(())
        }
    }
}

/// Gives the literals of a program distinct letters, in order.
fn spread(p: &Prog) -> Prog {
    fn go(u: &U, next: &mut u32) -> U {
        let mut all = |v: &Vec<U>| v.iter().map(|u| go(u, next)).collect::<Vec<_>>();
        match u {
            U::Lit(_) => {
                *next += 1;
                // small letters, then others
                ulit(&char::from_u32(if *next <= 26 { 'a' as u32 + *next - 1 } else { 0x4e00 + *next }).unwrap().to_string())
            }
            U::Cat(v) => U::Cat(all(v)),
            U::Alt(v) => U::Alt(all(v)),
            U::Call(h, v) => {
                let h = go(h, next);
                U::Call(Box::new(h), v.iter().map(|u| go(u, next)).collect())
            }
            U::Fix(b) => ufix(go(b, next)),
            U::Lam(n, b) => lam(*n, go(b, next)),
            U::Lab(b, l) => lab(go(b, next), l),
            u => u.clone(),
        }
    }
    let mut k = 0;
    Prog { lets: p.lets.iter().map(|u| go(u, &mut k)).collect(), goal: go(&p.goal, &mut k) }
}

/// Every way to put a label from `ls` (or none) on every part of every sequence and alternation.
fn labellings(g: &gram::G, ls: &[&str], cap: usize) -> Vec<U> {
    fn count(g: &gram::G) -> usize {
        match g {
            gram::G::Cat(v) | gram::G::Alt(v) => v.len() + v.iter().map(count).sum::<usize>(),
            gram::G::Fix(b) => count(b),
            _ => 0,
        }
    }
    fn put(g: &gram::G, k: &mut usize, base: usize, ls: &[&str]) -> U {
        let mut parts = |v: &Vec<gram::G>| {
            v.iter()
                .map(|g| {
                    let d = *k % base;
                    *k /= base;
                    let u = put(g, k, base, ls);
                    if d == 0 {
                        u
                    } else {
                        lab(u, ls[d - 1])
                    }
                })
                .collect::<Vec<_>>()
        };
        match g {
            gram::G::Eps => U::Eps,
            gram::G::Lit(s) => ulit(s),
            gram::G::Ref(i) => v(*i),
            gram::G::Cat(x) => U::Cat(parts(x)),
            gram::G::Alt(x) => U::Alt(parts(x)),
            gram::G::Fix(b) => ufix(lam(1, put(b, k, base, ls))),
        }
    }
    let base = ls.len() + 1;
    let n = count(g);
    let total = base.checked_pow(n as u32).unwrap_or(usize::MAX);
    if total > cap {
        // at most two parts labelled
        let mut out = Vec::new();
        for i in 0..n {
            for j in 0..=i {
                for a in 1..base {
                    for b in 1..base {
                        let mut k = a * base.pow(i as u32) + if i == j { 0 } else { b * base.pow(j as u32) };
                        out.push(put(g, &mut k, base, ls));
                    }
                }
            }
        }
        return out;
    }
    (0..total).map(|k| put(g, &mut { k }, base, ls)).collect()
}

fn v0() -> U {
    U::Var(0)
}

fn terms(atoms: &[&str], cat: bool, alt: bool, fix: bool, lams: &[usize], calls: &[usize], labs: &[&str]) -> TermEnum {
    TermEnum::new(TermSpace {
        atoms: atoms.iter().map(|a| if a.is_empty() { U::Eps } else { ulit(a) }).collect(),
        cat,
        alt,
        fix,
        lams: lams.to_vec(),
        calls: calls.to_vec(),
        labs: labs.iter().map(|s| s.to_string()).collect(),
    })
}

const LETS: [&str; 3] = ["foo_bar", "q", "value"];
const NAMES: Names = Names { let_name: |k| LETS[k % 3].to_string(), param: |d| ["elem", "rest_of", "z", "w"][d % 4].to_string() };

/// Programs, and whether their parsers are also built and run.
fn families(t: bool) -> Vec<(&'static str, bool, Vec<Prog>)> {
    let mut out = Vec::new();
    let mut small: Vec<gram::G> = space::dedup(space::small(if t { 7 } else { 6 }, 2)).into_iter().filter(|g| gram::accepted(g)).collect();
    small.extend(small.iter().flat_map(refmodel::families::renamed).collect::<Vec<_>>());
    let size = |g: &gram::G, n: usize| g.size() <= n;
    let mut v = Vec::new();
    for g in small.iter().filter(|g| size(g, if t { 6 } else { 5 })) {
        v.extend(labellings(g, &["p"], 64).into_iter().map(Prog::goal));
    }
    out.push(("labels_run", true, v));
    let mut v = Vec::new();
    for g in &small {
        v.extend(labellings(g, &["p", "two_words"], 3000).into_iter().map(Prog::goal));
    }
    out.push(("labels", false, v));
    // the same part twice, named differently
    let l = |s: &str| gram::G::Lit(s.into());
    let ps = [
        gram::G::Cat(vec![l("a"), l("b")]),
        gram::G::Alt(vec![l("a"), l("b")]),
        gram::G::Fix(Box::new(gram::G::Alt(vec![gram::G::Eps, gram::G::Cat(vec![l("a"), gram::G::Ref(0)])]))),
    ];
    let mut v = Vec::new();
    for p in &ps {
        for g in [
            gram::G::Cat(vec![p.clone(), l("c"), p.clone()]),
            gram::G::Alt(vec![gram::G::Cat(vec![l("x"), p.clone()]), gram::G::Cat(vec![l("y"), p.clone()])]),
            gram::G::Fix(Box::new(gram::G::Alt(vec![gram::G::Cat(vec![l("x"), p.clone()]), gram::G::Cat(vec![l("("), gram::G::Ref(0), l(")"), p.clone()])]))),
        ] {
            v.extend(labellings(&g, &["p"], 1100).into_iter().map(Prog::goal));
            v.extend(labellings(&g, &["p", "q"], if t { 60000 } else { 1 }).into_iter().map(Prog::goal));
        }
    }
    out.push(("same_part_twice", false, v));
    // characters of every encoded length, and ones that need escapes
    let cs = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{10ffff}", "\n", "\"", "'", "\\", "\0", "\u{7f}", "{", "\u{d7ff}"];
    let mut v: Vec<Prog> = cs.iter().map(|c| Prog::goal(ulit(c))).collect();
    for a in cs {
        for b in cs.iter().filter(|b| **b != a) {
            v.push(Prog::goal(ualt(vec![ulit(a), ulit(b)])));
            v.push(Prog::goal(ucat(vec![ulit("-"), ualt(vec![ulit(a), lab(ulit(b), "p")])])));
            v.push(Prog::goal(ualt(vec![ualt(vec![ulit(a), ulit("-")]), ulit(b)])));
            v.push(Prog::goal(ualt(vec![ulit(&format!("{}{}", a, b)), ulit(b)])));
        }
    }
    out.push(("characters", true, v));
    // labels, functions and applications in every small goal
    let mut e = terms(&["a"], true, true, true, &[1, 2], &[1, 2], &["p"]);
    out.push(("goals", false, e.up_to(if t { 9 } else { 8 }, 0).into_iter().map(Prog::goal).collect()));
    // definitions
    let mut e = terms(&["a"], true, true, false, &[1], &[1], &["p"]);
    let bs = e.up_to(if t { 6 } else { 5 }, 0);
    let gs = e.up_to(if t { 6 } else { 5 }, 1);
    let mut v = Vec::new();
    for b in &bs {
        for g in gs.iter().filter(|g| refmodel::families::uses(g, 0)) {
            v.push(Prog { lets: vec![b.clone()], goal: g.clone() });
        }
    }
    out.push(("one_definition", false, v));
    let bs = e.up_to(3, 0);
    let cs: Vec<U> = e.up_to(if t { 4 } else { 3 }, 1).into_iter().filter(|c| refmodel::families::uses(c, 0)).collect();
    let gs: Vec<U> = e.up_to(if t { 5 } else { 4 }, 2).into_iter().filter(|g| refmodel::families::uses(g, 0)).collect();
    let mut v = Vec::new();
    for b in &bs {
        for c in &cs {
            for g in &gs {
                v.push(Prog { lets: vec![b.clone(), c.clone()], goal: g.clone() });
            }
        }
    }
    out.push(("two_definitions", false, v));
    // definitions and functions, run
    let mut e = terms(&["a"], true, true, false, &[1], &[1], &["p"]);
    let bs: Vec<U> = e.up_to(3, 0);
    let gs = e.up_to(3, 1);
    let mut v = Vec::new();
    for b in &bs {
        for g in gs.iter().filter(|g| refmodel::families::uses(g, 0)) {
            v.push(Prog { lets: vec![b.clone()], goal: ucat(vec![lab(ulit("x"), "start"), g.clone()]) });
            v.push(Prog { lets: vec![b.clone()], goal: ualt(vec![ucat(vec![g.clone(), ulit("x")]), ulit("y")]) });
        }
    }
    out.push(("definitions_run", true, v));
    // many parts, repeated names, unusual shapes of names
    let mut v = Vec::new();
    let ls = ["one", "two_words", "camelCase", "x1", "UPPER", "one", "two_words", "one", "type", "self_", "ABc", "a_b_c"];
    for k in 2..=12 {
        for alt in [false, true] {
            for m in 0..4usize {
                // which parts have labels
                let parts: Vec<U> = (0..k)
                    .map(|i| {
                        let l = ulit(&((b'a' + i as u8) as char).to_string());
                        let on = match m {
                            0 => true,
                            1 => i % 2 == 0,
                            2 => i % 2 == 1,
                            _ => i + 1 == k,
                        };
                        if on && ls[i] != "ABc" {
                            lab(l, ls[i])
                        } else {
                            l
                        }
                    })
                    .collect();
                v.push(Prog::goal(if alt { ualt(parts) } else { ucat(parts) }));
            }
        }
    }
    out.push(("shapes_of_names", true, v));
    // wide ones: every part has the same name, names in turn, few names, names that end in digits
    let mut v = Vec::new();
    for k in if t { vec![13, 20, 33, 40, 65, 100, 110, 130, 257, 300] } else { vec![13, 20, 33, 65, 110, 130] } {
        for alt in [false, true] {
            for m in 0..6usize {
                let parts: Vec<U> = (0..k)
                    .map(|i| {
                        let c = ulit(&char::from_u32(0x4e00 + i as u32).unwrap().to_string());
                        let inner = if i % 5 == 4 { ucat(vec![c.clone(), ulit("."), lab(ulit(";"), "inner")]) } else { c };
                        match m {
                            0 => lab(inner, "p"),
                            1 => lab(inner, ["p", "q", "two_words"][i % 3]),
                            2 if i % 10 == 9 => lab(inner, "p"),
                            3 => lab(inner, &format!("n{}_", char::from_u32('a' as u32 + i as u32 % 26).unwrap())),
                            4 if i + 1 == k => lab(inner, "last"),
                            5 if i == 0 => lab(inner, "first"),
                            _ => inner,
                        }
                    })
                    .collect();
                v.push(Prog::goal(if alt { ualt(parts.clone()) } else { ucat(parts.clone()) }));
                if k < 40 {
                    v.push(Prog::goal(ufix(lam(1, ualt(parts.into_iter().map(|p| ucat(vec![p, lab(v0(), "again")])).chain([U::Eps]).collect())))));
                }
            }
        }
    }
    // long runs through a few recursive grammars
    v.push(Prog::goal(ufix(lam(1, ualt(vec![ucat(vec![lab(ulit("("), "open"), lab(v0(), "inner"), ulit(")")]), ulit("x")])))));
    v.push(Prog::goal(ufix(lam(1, ucat(vec![lab(ulit("a"), "item"), ualt(vec![ucat(vec![ulit(","), v0()]), ulit(";")])])))));
    out.push(("wide", true, v));
    // every short name whose words are plain to see
    let al = ["a", "b", "A", "B", "1", "_"];
    let mut names: Vec<String> = Vec::new();
    let mut level = vec![String::new()];
    for _ in 0..if t { 5 } else { 4 } {
        level = level.iter().flat_map(|p| al.iter().map(move |c| format!("{}{}", p, c))).collect();
        names.extend(level.iter().cloned());
    }
    names.extend(["one_two_three", "oneTwoThree", "OneTwoThree", "one__two", "_one", "one_", "x_1", "x1_y2", "parseTree", "parse_tree", "type", "fn", "\u{e9}t\u{e9}", "a\u{e9}B"].map(String::from));
    names.retain(|n| {
        let c: Vec<char> = n.chars().collect();
        let first = c.iter().find(|c| **c != '_');
        let odd = c.windows(3).any(|w| w[0].is_uppercase() && w[1].is_uppercase() && w[2].is_lowercase())
            || c.windows(2).any(|w| w[0].is_numeric() && w[1].is_alphabetic() || w[0].is_uppercase() && w[1].is_numeric());
        first.is_some_and(|c| c.is_alphabetic()) && !odd
    });
    let mut v = Vec::new();
    for n in &names {
        v.push(Prog::goal(ucat(vec![lab(ulit("a"), n), ulit("b")])));
        v.push(Prog::goal(ualt(vec![ulit("a"), lab(ulit("b"), n)])));
    }
    let few: Vec<&String> = names.iter().filter(|n| n.len() <= if t { 3 } else { 2 } || ["a_b", "aB", "AB", "_ab", "a__b", "one_two_three", "oneTwoThree", "OneTwoThree"].contains(&n.as_str())).collect();
    for x in &few {
        for y in &few {
            v.push(Prog::goal(ucat(vec![lab(ulit("a"), x), lab(ulit("b"), y), lab(ulit("c"), x)])));
            v.push(Prog::goal(ualt(vec![lab(ulit("a"), x), lab(ulit("b"), y), lab(ulit("c"), x)])));
        }
    }
    out.push(("spellings", false, v));
    let mut v = Vec::new();
    // labels on every kind of thing
    let kinds: Vec<U> = vec![
        U::Eps,
        ulit("ab"),
        ucat(vec![ulit("c"), ulit("d")]),
        ualt(vec![ulit("e"), ulit("f")]),
        ufix(lam(1, ualt(vec![U::Eps, ucat(vec![ulit("g"), v0()])]))),
        call(lam(1, ucat(vec![ulit("h"), v0()])), vec![ulit("i")]),
        call(lam(1, v0()), vec![lab(ulit("j"), "inner")]),
        lab(lab(ulit("k"), "inner"), "outer"),
        call(lam(1, lab(v0(), "in_body")), vec![ulit("l")]),
        ufix(lam(1, lab(ualt(vec![ulit("m"), lab(ucat(vec![lab(ulit("n"), "open"), lab(v0(), "again"), ulit("o")]), "nest")]), "body"))),
    ];
    for a in &kinds {
        for b in &kinds {
            for (x, y) in [(false, false), (true, false), (false, true), (true, true)] {
                let p = if x { lab(a.clone(), "left") } else { a.clone() };
                let q = if y { lab(b.clone(), "right") } else { b.clone() };
                v.push(Prog::goal(ucat(vec![p.clone(), ulit("."), q.clone()])));
                v.push(Prog::goal(ualt(vec![p, q])));
            }
        }
    }
    out.push(("labels_everywhere", true, v));
    out
}

pub fn run(ctx: &'static Ctx) {
    let seen: Mutex<HashSet<String>> = Mutex::default();
    let doubts: Mutex<Vec<(Entry, String)>> = Mutex::default();
    let mut entries: Vec<Entry> = Vec::new();
    for (name, build, ps) in families(ctx.thorough) {
        let out: Mutex<Vec<(usize, Entry)>> = Mutex::default();
        let (used, fine) = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
        par(ctx, ps.len(), 64, |i| {
            for p in [spread(&ps[i]), ps[i].clone()] {
                let n = match tree::expand(&p, &NAMES, 300) {
                    Some(n) => n,
                    None => continue,
                };
                let g = n.plain();
                used.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if !matches!(n.e, E::Cat(_) | E::Alt(_) | E::Fix(_)) && !tree::single_chars(&n) || !gram::accepted(&g) || !tree::distinct(&n) {
                    continue;
                }
                let text = p.text_with(&NAMES);
                if !seen.lock().unwrap().insert(text.clone()) {
                    continue;
                }
                fine.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let code = match ctx.guarded(&text, || pipeline::compile(&text)) {
                    Err(e) => {
                        ctx.violation(&format!("panic {}", text), format!("the compiler panics on {}: {}", text, e), &text);
                        continue;
                    }
                    // acceptance is the business of C06
                    Ok(Err(_)) => continue,
                    Ok(Ok(c)) => c,
                };
                ctx.trace(1);
                ctx.state(1);
                ctx.transition(g.size() as u64);
                // types that do not read as expected are not an alarm by themselves: the parser is
                // built, and what it returns decides
                let r = emitted::read(&code).and_then(|t| agree(&t, "Ast", &n, &mut Vec::new()));
                let doubt = r.is_err();
                if build || doubt && doubts.lock().unwrap().len() < 400 {
                    let mut spec = text.clone();
                    let d = den0(&g, if name == "wide" { 2 } else if ctx.thorough { 8 } else { 6 });
                    let ch = tree::single_chars(&n);
                    let mut k = 0;
                    let mut words: Vec<String> = d.words.iter().filter(|w| w.chars().count() <= 12).take(if ctx.thorough { 60 } else { 24 }).cloned().collect();
                    if name == "wide" || doubt {
                        words.extend(refmodel::long::sentences(&g, &[1, 7, 40]).into_iter().filter(|w| w.chars().count() <= if matches!(g, gram::G::Fix(_)) { 90 } else { 1000 }).take(400));
                        words.sort();
                        words.dedup();
                    }
                    for w in &words {
                        if let Some(t) = tree::tree(&n, w) {
                            spec.push_str(&format!("\u{1}{}\u{1}{}\u{1}{}", w, t.text(), if ch { w.as_str() } else { "" }));
                            k += 1;
                        }
                    }
                    if k > 0 {
                        let e = Entry { spec, code, text, as_char: ch };
                        if doubt {
                            doubts.lock().unwrap().push((e, r.unwrap_err()));
                        } else {
                            out.lock().unwrap().push((i, e));
                        }
                    }
                }
            }
        });
        ctx.count(&format!("programs_{}", name), used.into_inner());
        ctx.count(&format!("compiled_{}", name), fine.into_inner());
        let mut es = out.into_inner().unwrap();
        es.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.text.cmp(&b.1.text)));
        ctx.count(&format!("parsers_run_{}", name), es.len() as u64);
        if let Some(e) = es.last() {
            ctx.sample(|| e.1.text.clone());
        }
        entries.extend(es.into_iter().map(|e| e.1));
    }
    let b = Builder { mode: "C03".into(), detail: true, batch: 60, macro_lib: None, must_compile: true, check_only: false };
    let doubts = doubts.into_inner().unwrap();
    ctx.count("types_not_as_expected_decided_by_running", doubts.len() as u64);
    if let Some((e, why)) = doubts.first() {
        ctx.fact("first_types_not_as_expected", format!("{}: {}", e.text, why));
    }
    run_shards(ctx, &b, &doubts.into_iter().map(|d| d.0).collect::<Vec<_>>());
    run_shards(ctx, &b, &entries);
}
