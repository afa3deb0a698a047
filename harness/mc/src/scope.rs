//! C10: name resolution against lexical scoping.
use crate::pipeline::{self, Fail};
use chomp::chomp::ast::{Expression, NamedExpression};
use refmodel::report::{par, Ctx};
use refmodel::binders::{name as spelled, spaces};

/// The converted expression in the same notation.
fn shape(e: &NamedExpression, out: &mut String) {
    let list = |tag: &str, v: Vec<&NamedExpression>, out: &mut String| {
        out.push_str(tag);
        for n in v {
            shape(n, out);
            out.push(' ');
        }
        out.push(']');
    };
    match &e.expr {
        Expression::Epsilon(_) => out.push('e'),
        Expression::Literal(_) => out.push('l'),
        Expression::Variable(v) => out.push_str(&format!("'{}", v.index)),
        Expression::Cat(c) => list("cat[", std::iter::once(&*c.first).chain(c.rest.iter().map(|p| &p.1)).collect(), out),
        Expression::Alt(a) => list("alt[", std::iter::once(&*a.first).chain(a.rest.iter().map(|p| &p.1)).collect(), out),
        Expression::Call(c) => list("call[", std::iter::once(&*c.on).chain(c.args.iter()).collect(), out),
        Expression::Fix(f) => {
            out.push('!');
            shape(&f.inner, out);
        }
        Expression::Lambda(l) => {
            out.push_str(&format!("lam{}.", l.args.len()));
            shape(&l.inner, out);
        }
        Expression::Let(l) => {
            out.push_str("let ");
            shape(&l.bound, out);
            out.push_str("; ");
            shape(&l.body, out);
        }
    }
}

pub fn run(ctx: &'static Ctx) {
    let sets = spaces(ctx.thorough);
    for ps in &sets {
        ctx.count(&format!("programs_{}", ps.name), ps.len as u64);
        ctx.sample(|| ps.at(ps.len * 2 / 3).text());
        par(ctx, ps.len, 64, |i| {
            let p = ps.at(i);
            let text = p.text();
            let (want, missing) = p.resolve();
            ctx.state(1);
            ctx.trace(1);
            ctx.transition(want.len() as u64);
            let r = ctx.guarded(&text, || {
                pipeline::resolve(pipeline::read(&text)?).map(|e| {
                    let mut s = String::new();
                    shape(&e, &mut s);
                    s
                })
            });
            match r {
                Err(p) => ctx.violation(&text, format!("{}: panic: {}", text, p), &text),
                Ok(Ok(got)) => {
                    if !missing.is_empty() {
                        ctx.violation(&text, format!("{} is accepted although {:?} is not declared", text, missing.iter().map(|x| spelled(*x)).collect::<Vec<_>>()), &text)
                    } else if got != want {
                        ctx.violation(&text, format!("{}\nresolves to {}\ninstead of  {}", text, got, want), &text)
                    }
                }
                Ok(Err(Fail::Scope(m))) => {
                    if missing.is_empty() {
                        ctx.violation(&text, format!("{} is rejected although every name is declared: {}", text, m), &text)
                    } else {
                        ctx.count("undeclared_rejected", 1);
                        if !missing.iter().any(|x| m.contains(&spelled(*x))) {
                            ctx.violation(&text, format!("{}: the error {:?} does not name the undeclared identifier {:?}", text, m, missing.iter().map(|x| spelled(*x)).collect::<Vec<_>>()), &text)
                        }
                        // ... and no declared one
                        if (0..310u16).any(|x| !missing.contains(&x) && m.contains(&spelled(x))) {
                            ctx.violation(&text, format!("{}: the error {:?} names a declared identifier", text, m), &text)
                        }
                    }
                }
                Ok(Err(e)) => ctx.violation(&text, format!("{} is rejected for another reason: {:?}", text, e), &text),
            }
        });
    }
    identifiers(ctx);
}

/// Different spellings are different names, equal spellings the same name.
fn identifiers(ctx: &'static Ctx) {
    let mut ids: Vec<String> = [
        "a", "A", "b", "aa", "a1", "a_1", "a_", "_a", "__a", "a_b", "aB", "ab", "AB", "Ast", "let", "match", "self", "Self", "fn", "loop", "r", "x0", "x00", "\u{e9}", "\u{3b1}\u{3b2}", "Z9", "crate", "super", "async", "dyn", "try",
        "union", "true", "false", "static", "where", "macro_rules", "i32", "str", "String", "Option", "undeclared", "name", "\u{e0}", "\u{4e2d}", "\u{4e2e}", "\u{3c3}", "\u{3c2}", "\u{3a3}", "\u{131}", "i", "\u{212a}", "k", "K",
    ]
    .map(String::from)
    .to_vec();
    // every short one
    let al = ["a", "b", "A", "_", "1", "2", "\u{e9}"];
    let mut level = vec![String::new()];
    for _ in 0..if ctx.thorough { 4 } else { 3 } {
        level = level.iter().flat_map(|p| al.iter().map(move |c| format!("{}{}", p, c))).collect();
        ids.extend(level.iter().filter(|s| !s.starts_with(['1', '2']) && *s != "_").cloned());
        level.retain(|s| !s.starts_with(['1', '2']));
    }
    ids.sort();
    ids.dedup();
    // long ones: equal but for one place
    let mut pairs: Vec<(String, String)> = ids.iter().flat_map(|x| ids.iter().map(move |y| (x.clone(), y.clone()))).collect();
    for n in [8usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1500] {
        let base: Vec<char> = "ab_cd".chars().cycle().take(n).collect();
        pairs.push((base.iter().collect(), base.iter().collect()));
        for at in [0, 1, n / 2, n - 2, n - 1] {
            for c in ['x', 'A', '\u{e9}'] {
                let mut other = base.clone();
                other[at] = c;
                pairs.push((base.iter().collect(), other.iter().collect()));
                pairs.push((other.iter().collect(), base.iter().collect()));
            }
        }
        let b: String = base.iter().collect();
        for o in [format!("{}z", b), format!("{}{}", b, b), format!("_{}", b)] {
            pairs.push((b.clone(), o.clone()));
            pairs.push((o, b.clone()));
        }
    }
    ctx.count("pairs_of_identifiers", pairs.len() as u64);
    par(ctx, pairs.len(), 256, |i| {
        let (x, y) = &pairs[i];
        for (k, text) in [
            format!("let {} = \"l\"; match {};", x, y),
            format!("let {} = \"l\"; let {} = \"k\"; match {} . {};", x, y, x, y),
            format!("let f = \"l\"; match !(/z/ f . z) . {} : {};", y, x),
            format!("match (/{} {}/ {} . {}) \"l\" \"k\";", x, y, x, y),
            format!("match !(/{}/ \"l\" . !(/{}/ \"k\" . {} . {}));", x, y, x, y),
        ]
        .into_iter()
        .enumerate()
        {
            let want = match k {
                0 => (x == y).then(|| "let l; '0".to_string()),
                1 => Some(if x == y { "let l; let l; cat['0 '0 ]".to_string() } else { "let l; let l; cat['1 '0 ]".to_string() }),
                2 if y == "f" || y == "z" => continue,
                2 => None,
                3 => Some(format!("call[lam2.cat['{} '0 ] l l ]", (x != y) as u8)),
                _ => Some(format!("!lam1.cat[l !lam1.cat[l '{} '0 ] ]", (x != y) as u8)),
            };
            ctx.state(1);
            ctx.trace(1);
            let r = ctx.guarded(&text, || {
                pipeline::resolve(pipeline::read(&text)?).map(|e| {
                    let mut s = String::new();
                    shape(&e, &mut s);
                    s
                })
            });
            let names = |m: &str| m.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == y);
            match (r, want) {
                (Ok(Ok(got)), Some(w)) if got == w => {}
                (Ok(Err(Fail::Scope(m))), None) if names(&m) => {}
                (r, w) => ctx.violation(&text, format!("{}: {:?} instead of {:?}", text, r, w), &text),
            }
        }
    });
}
