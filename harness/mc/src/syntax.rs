//! C11: reading of grammar text against the reference reader.
use chomp::chomp::name::Name;
use chomp::nibble::convert::{Context, Convert};
use chomp::nibble::Statement;
use quote::ToTokens;
use refmodel::report::{par, Ctx};
use crate::shape::{shape, FREE};
use refmodel::syntax::{self, alphabet, edits, lex, Expr, No, Node, Tok, PROGRAMS};

/// Reads the text; on success also what it reads as, and the program printed as tokens.
fn real(text: &str) -> Result<(Node, String), String> {
    let s: Statement = syn::parse_str(text).map_err(|e| e.to_string())?;
    let printed = s.to_token_stream().to_string();
    let mut c = Context::default();
    let mut scope = Vec::new();
    for n in FREE {
        c.push_variable(Name::new_variable(n.to_string()));
        scope.push(n.to_string());
    }
    let e = s.convert(&mut c).map_err(|e| format!("conversion: {}", e))?;
    Ok((shape(&e, &mut scope), printed))
}

fn join(t: &[Tok], sep: &str) -> String {
    t.iter().map(Tok::text).collect::<Vec<_>>().join(sep)
}

fn judge(ctx: &Ctx, t: &[Tok], layouts: bool) {
    let text = join(t, " ");
    let want = match syntax::read(t) {
        Err(No::Unspecified) => {
            ctx.count("skipped_underscore_as_a_name", 1);
            return;
        }
        Err(No::Reject) => None,
        Ok(n) => Some(n),
    };
    ctx.state(1);
    same(ctx, &text, &want, true);
    if let (Some(_), true) = (&want, layouts) {
        ctx.count("accepted", 1);
        for l in layouts_of(t) {
            same(ctx, &l, &want, false);
        }
    }
}

fn same(ctx: &Ctx, text: &str, want: &Option<Node>, round: bool) {
    ctx.trace(1);
    ctx.transition(1);
    let got = ctx.guarded(text, || real(text));
    match (got, want) {
        (Err(p), _) => ctx.violation(text, format!("{:?}: panic: {}", text, p), text),
        (Ok(Err(_)), None) => {}
        (Ok(Err(e)), Some(_)) => ctx.violation(text, format!("{:?} is a program but is rejected: {}", text, e), text),
        (Ok(Ok((n, _))), None) => ctx.violation(text, format!("{:?} is not a program but is accepted as {:?}", text, n), text),
        (Ok(Ok((n, printed))), Some(w)) => {
            if n != *w {
                ctx.violation(text, format!("{:?}\nreads as {:?}\ninstead of {:?}", text, n, w), text);
            } else if round {
                ctx.trace(1);
                match ctx.guarded(text, || real(&printed)) {
                    Ok(Ok((m, _))) if m == n => {}
                    r => ctx.violation(text, format!("{:?} prints as {:?}, which reads as {:?} instead of {:?}", text, printed, r, n), text),
                }
            }
        }
    }
}

/// Other ways to write the same tokens.
fn layouts_of(t: &[Tok]) -> Vec<String> {
    let mut out: Vec<String> = ["\n", "\t", "  \r\n ", " /* c */ ", " /**/ ", " // match ( \"\n", "\n// /* \n\n", " /* /* n */ */ ", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{200e}"]
        .iter()
        .map(|s| join(t, s))
        .collect();
    // as tight as possible
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            let word = |t: &Tok| matches!(t, Tok::Under | Tok::Id(_) | Tok::Str(..));
            let slashes = matches!((&t[i - 1], x), (Tok::P('/'), Tok::P('/')));
            if word(&t[i - 1]) && word(x) || slashes {
                s.push(' ');
            }
        }
        s.push_str(&x.text());
    }
    out.push(format!("{}\n", s));
    out.push(format!("\n\n  {} // end", s));
    out.push(format!("/* start */{}/* end */", s));
    out.push(s);
    out
}

/// Runs `f` on `pre` + every sequence of at most `n` tokens of `alpha` + `post`.
fn exhaust(ctx: &'static Ctx, name: &str, alpha: &[Tok], n: usize, pre: &[Tok], post: &[Tok], layouts: bool) {
    let a = alpha.len();
    let total: usize = (0..=n).map(|k| a.pow(k as u32)).sum();
    ctx.count(&format!("sequences_{}", name), total as u64);
    par(ctx, total, 256, |mut i| {
        let mut len = 0;
        while i >= a.pow(len) {
            i -= a.pow(len);
            len += 1;
        }
        let mut t = pre.to_vec();
        for _ in 0..len {
            t.push(alpha[i % a].clone());
            i /= a;
        }
        t.extend_from_slice(post);
        judge(ctx, &t, layouts);
    });
}

pub fn run(ctx: &'static Ctx) {
    let t = ctx.thorough;
    let al = alphabet();
    let p = |s: &str| lex(s);
    let n = if t { 6 } else { 5 };
    exhaust(ctx, "in_match", &al, n, &p("match"), &p(";"), true);
    exhaust(ctx, "raw", &al, n, &[], &[], true);
    exhaust(ctx, "in_let", &al, n, &p("let"), &p("; match x ;"), true);
    exhaust(ctx, "after_let_name", &al, n - 1, &p("let y"), &p("; match x ;"), true);
    exhaust(ctx, "bound", &al, n - 1, &p("let y ="), &p("; match x ;"), true);
    exhaust(ctx, "in_parentheses", &al, n - 1, &p("match x ("), &p(") . y ;"), true);
    exhaust(ctx, "in_lambda", &al, n - 1, &p("match ( / x"), &p(") \"a\" ;"), true);
    exhaust(ctx, "after_goal", &al, n - 1, &p("match x ;"), &[], true);
    // longer sequences over fewer tokens
    let few: Vec<Tok> = p("x ! ( ) . | : \"a\"");
    exhaust(ctx, "longer", &few, if t { 8 } else { 7 }, &p("match"), &p(";"), false);
    let few: Vec<Tok> = p("x y . | :");
    exhaust(ctx, "operators", &few, if t { 10 } else { 8 }, &p("match"), &p(";"), false);
    // one and two changes away from longer programs
    let mut cases: Vec<Vec<Tok>> = Vec::new();
    for s in PROGRAMS {
        let base = lex(s);
        let mut one = vec![base.clone()];
        one.extend(edits(&base, &al));
        if t {
            for e in one.clone() {
                cases.extend(edits(&e, &p("x ( ) . | : ! / ;")));
            }
        }
        cases.extend(one);
    }
    ctx.count("edited_programs", cases.len() as u64);
    par(ctx, cases.len(), 64, |i| judge(ctx, &cases[i], i % 16 == 0 || i < 3000));
    // every layout separator in every single gap
    for s in PROGRAMS {
        let base = lex(s);
        let want = syntax::read(&base).ok();
        for g in 0..=base.len() {
            for sep in ["\n", "/* c */", "// c\n", "\t\r\n", "/***/", "//// c\n", "/*\n*/"] {
                let text = format!("{} {} {}", join(&base[..g], " "), sep, join(&base[g..], " "));
                ctx.state(1);
                same(ctx, &text, &want, false);
            }
        }
    }
    let long: Vec<_> = syntax::long_programs(t).into_iter().filter(|p| p.0 != "undeclared").collect();
    for (name, _) in &long {
        ctx.count(&format!("programs_{}", name), 1);
    }
    par(ctx, long.len(), 4, |i| judge(ctx, &long[i].1, i % 5 == 0));
    literals(ctx);
    ctx.sample(|| PROGRAMS[0].to_string());
    ctx.sample(|| join(&cases[cases.len() / 2], " "));
}

/// String escapes, raw strings, and things that are not string literals.
fn literals(ctx: &'static Ctx) {
    let pieces: Vec<(&str, &str)> = vec![
        ("a", "a"),
        ("\\n", "\n"),
        ("\\r", "\r"),
        ("\\t", "\t"),
        ("\\0", "\0"),
        ("\\\\", "\\"),
        ("\\\"", "\""),
        ("\\'", "'"),
        ("'", "'"),
        ("\\x41", "A"),
        ("\\x7f", "\u{7f}"),
        ("\\u{e9}", "\u{e9}"),
        ("\\u{10FFFF}", "\u{10ffff}"),
        ("\\u{00_41}", "A"),
        ("\u{e9}", "\u{e9}"),
        ("\u{1f600}", "\u{1f600}"),
        ("//", "//"),
        ("/*", "/*"),
        ("\\\n   ", ""),
        ("{}", "{}"),
        (" ", " "),
    ];
    let mut cases: Vec<(String, Option<String>)> = Vec::new();
    for (a, va) in &pieces {
        cases.push((format!("\"{}\"", a), Some(va.to_string())));
        for (b, vb) in &pieces {
            // a skipped line break also skips the blanks after it
            if *a == "\\\n   " && b.starts_with(' ') {
                continue;
            }
            cases.push((format!("\"{}{}\"", a, b), Some(format!("{}{}", va, vb))));
            for (c, vc) in pieces.iter().step_by(if ctx.thorough { 1 } else { 2 }) {
                if *b == "\\\n   " && c.starts_with(' ') {
                    continue;
                }
                cases.push((format!("\"{}{}{}\"", a, b, c), Some(format!("{}{}{}", va, vb, vc))));
            }
        }
    }
    for (s, v) in [
        ("\"\"", ""),
        ("r\"\"", ""),
        ("r\"a\\n\"", "a\\n"),
        ("r#\"a\"b\"#", "a\"b"),
        ("r##\"x\"#y\"##", "x\"#y"),
        ("\"two\nlines\"", "two\nlines"),
    ] {
        cases.push((s.into(), Some(v.into())));
    }
    for s in [
        "\"", "\"a", "a\"", "'a'", "b\"a\"", "b'a'", "1", "1.0", "\"\\q\"", "\"\\x80\"", "\"\\xg0\"", "\"\\u{110000}\"", "\"\\u{d800}\"", "\"\\u{}\"", "\"\\u41\"", "\"\\u{1234567}\"", "''",
        "\"a\" \"", "r#\"a\"", "$", "#", "@", "a::b", "->", "\\", "{}", "[]", "\"\\\"", "?", ",", "~", "`", "-", "+", "*", "&", "%", "^", "<", ">",
    ] {
        cases.push((s.into(), None));
    }
    ctx.count("literals", cases.len() as u64);
    par(ctx, cases.len(), 64, |i| {
        let (s, v) = &cases[i];
        for (pre, post) in [("match ", ";"), ("match x . ", " . x;"), ("let x = (", "); match x;")] {
            let text = format!("{}{}{}", pre, s, post);
            ctx.state(1);
            ctx.trace(1);
            let got = ctx.guarded(&text, || real(&text));
            let lit = |n: &Node| -> Option<String> {
                fn find(n: &Node) -> Option<String> {
                    match &n.expr {
                        Expr::Lit(l) => Some(l.clone()),
                        Expr::Cat(v) => v.iter().find_map(find),
                        Expr::Let(_, b, _) => find(b),
                        _ => None,
                    }
                }
                find(n)
            };
            match (got, v) {
                (Ok(Err(_)), None) => {}
                (Ok(Ok((n, printed))), Some(v)) if lit(&n).as_ref() == Some(v) => match ctx.guarded(&text, || real(&printed)) {
                    Ok(Ok((m, _))) if m == n => {}
                    r => ctx.violation(&text, format!("{:?} prints as {:?}, which reads as {:?}", text, printed, r), &text),
                },
                (r, v) => ctx.violation(&text, format!("literal {:?} in {:?}: read as {:?} instead of {:?}", s, text, r, v), &text),
            }
        }
    });
}
