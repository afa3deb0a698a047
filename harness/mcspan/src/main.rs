//! C21: the place and the words of diagnostics.
use chomp::chomp::ast::substitute::Reduce;
use chomp::chomp::typed::{context::Context, TypeInfer};
use chomp::chomp::visit::Visitable;
use chomp::nibble::convert::{self, Convert};
use chomp::nibble::Statement;
use refmodel::blame::{faults, source, Fault, R};
use refmodel::report::{drive, par, set_thread, Ctx};
use refmodel::syntax::Tok;
use refmodel::term::{Prog, PLAIN};
use refmodel::{binders, families, gram};

struct Diag {
    at: Option<R>,
    msg: String,
}

fn index(text: &[char], line: usize, col: usize) -> Option<usize> {
    let mut l = 1;
    let mut k = 0;
    while l < line {
        k += text[k..].iter().position(|c| *c == '\n')? + 1;
        l += 1;
    }
    let end = text[k..].iter().position(|c| *c == '\n').unwrap_or(text.len() - k);
    if col > end {
        return None;
    }
    Some(k + col)
}

/// The diagnostic for a text, if it is rejected.
fn compile(text: &str) -> Option<Diag> {
    let r = (|| -> Result<(), syn::Error> {
        let s: Statement = syn::parse_str(text)?;
        let e = s.convert(&mut convert::Context::default())?;
        let e = e.fold(&mut Reduce)?;
        let mut c = Context::default();
        e.fold(&mut TypeInfer { context: &mut c })?;
        Ok(())
    })();
    let e = r.err()?;
    let c: Vec<char> = text.chars().collect();
    let (a, b) = (e.span().start(), e.span().end());
    let at = index(&c, a.line, a.column).and_then(|x| index(&c, b.line, b.column).map(|y| (x, y)));
    Some(Diag { at: at.filter(|(x, y)| x <= y), msg: e.to_string() })
}

/// Like `par`, but every chunk runs on a fresh thread: source locations are kept per thread.
fn chunks(ctx: &'static Ctx, n: usize, f: impl Fn(usize) + Sync) {
    const C: usize = 400;
    par(ctx, n.div_ceil(C), 1, |k| {
        let t = refmodel::report::thread();
        std::thread::scope(|s| {
            s.spawn(|| {
                set_thread(t);
                for i in k * C..((k + 1) * C).min(n) {
                    if ctx.enough() {
                        break;
                    }
                    f(i)
                }
            });
        });
    });
}

fn show(text: &str, at: Option<R>) -> String {
    match at {
        None => "a place outside the text".into(),
        Some((a, b)) => format!("{:?} at {}..{}", text.chars().skip(a).take(b - a).collect::<String>(), a, b),
    }
}

/// Which kinds of fault a message may name.
fn names_rule(msg: &str, f: &Fault) -> bool {
    match f {
        Fault::NotAFunction => msg.contains("function"),
        Fault::Count(m, n) => {
            let nums: Vec<usize> = msg.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
            nums == [*m, *n]
        }
        Fault::FunctionAsGrammar => msg.contains("lambda") || msg.contains("function"),
        Fault::FixOfOther => msg.contains("lambda") || msg.contains("function"),
        Fault::CatFirstNullable => msg.contains("nullable") && !msg.contains("both"),
        Fault::CatOverlap => msg.contains("overlap") && !msg.contains("both"),
        Fault::AltBothNullable => msg.contains("both") && msg.contains("nullable"),
        Fault::AltOverlap => msg.contains("both") && msg.contains("overlap"),
        Fault::Guarded(_) => msg.contains("guarded"),
    }
}

fn program(ctx: &Ctx, p: &Prog) {
    // the last one has a two-byte character in a comment
    with_gaps(ctx, p, &[" ", "\n", " /*\u{e9}*/ "])
}

/// What stands between any two tokens.
fn with_gaps(ctx: &Ctx, p: &Prog, gaps: &[&str]) {
    for gap in gaps {
        let src = source(p, &PLAIN, gap);
        let fs = match faults(&src, 400) {
            None => {
                ctx.count("skipped_not_terminating_within_the_budget", 1);
                return;
            }
            Some(f) => f,
        };
        if fs.is_empty() {
            ctx.count("well_formed", 1);
            return;
        }
        let text = &src.text;
        ctx.state(fs.len() as u64);
        ctx.trace(1);
        let d = match ctx.guarded(text, || compile(text)) {
            Err(p) => {
                ctx.violation(text, format!("{:?}: the compiler panics: {}", text, p), text);
                return;
            }
            // acceptance is the business of C06 and C09
            Ok(None) => return,
            Ok(Some(d)) => d,
        };
        ctx.transition(1);
        let (a, b) = match d.at {
            None => {
                ctx.violation(text, format!("{:?}: the diagnostic {:?} lies outside the text", text, d.msg), text);
                return;
            }
            Some(r) => r,
        };
        let plain = !has_functions(p);
        let fits = |(f, rs): &(Fault, Vec<R>)| {
            let place = match f {
                Fault::FunctionAsGrammar | Fault::FixOfOther => a < b,
                _ => rs.contains(&(a, b)),
            };
            let words = match f {
                Fault::Guarded(n) if plain => d.msg.contains(&format!("`{}`", n)),
                _ => true,
            };
            place && words && names_rule(&d.msg, f)
        };
        // functions left in place of grammars are found together with the rules on grammars, which
        // may be broken elsewhere as well: the diagnostic must then fit what it points at
        let late = fs.iter().any(|(f, _)| matches!(f, Fault::FunctionAsGrammar | Fault::FixOfOther));
        let at: String = text.chars().skip(a).take(b - a).collect();
        let kind = |f: Fault, here: bool| here && names_rule(&d.msg, &f);
        let other = late
            && (kind(Fault::CatFirstNullable, at == ".")
                || kind(Fault::CatOverlap, at == ".")
                || kind(Fault::AltBothNullable, at == "|")
                || kind(Fault::AltOverlap, at == "|")
                || kind(Fault::Guarded(String::new()), a < b));
        if other && !fs.iter().any(fits) {
            ctx.count("reported_another_fault_before_a_function_left", 1);
            continue;
        }
        if !fs.iter().any(fits) {
            let want: Vec<String> = fs.iter().map(|(f, rs)| format!("{:?} at {}", f, show(text, Some(rs[0])))).collect();
            ctx.violation(
                text,
                format!("{:?}\n  is rejected with {:?} pointing at {}\n  but what is wrong is {}", text, d.msg, show(text, d.at), want.join("; ")),
                text,
            );
            return;
        }
        for (f, _) in fs.iter().filter(|f| fits(f)).take(1) {
            let k = format!("{:?}", f);
            ctx.count(&format!("reported_{}", k.split('(').next().unwrap()), 1);
        }
    }
}

fn has_functions(p: &Prog) -> bool {
    use refmodel::term::U;
    fn go(u: &U) -> bool {
        match u {
            U::Call(..) | U::Lab(..) => true,
            U::Cat(v) | U::Alt(v) => v.iter().any(go),
            U::Fix(b) | U::Lam(_, b) => go(b),
            _ => false,
        }
    }
    !p.lets.is_empty() || go(&p.goal)
}

fn undeclared(ctx: &Ctx, p: &binders::NProg) {
    let (text, occ) = p.marked();
    if occ.iter().all(|o| o.2) {
        return;
    }
    ctx.state(1);
    ctx.trace(1);
    ctx.transition(1);
    let d = match ctx.guarded(&text, || compile(&text)) {
        Err(p) => return ctx.violation(&text, format!("{:?}: the compiler panics: {}", text, p), &text),
        Ok(None) => return, // C10
        Ok(Some(d)) => d,
    };
    let hit = occ.iter().find(|(a, b, _)| d.at == Some((*a, *b)));
    let ok = match hit {
        Some((a, b, false)) => d.msg.contains(&text[*a..*b]),
        _ => false,
    };
    ctx.count("reported_undeclared", 1);
    if !ok {
        ctx.violation(
            &text,
            format!("{:?}\n  is rejected with {:?} pointing at {}\n  undeclared: {:?}", text, d.msg, show(&text, d.at), occ.iter().filter(|o| !o.2).collect::<Vec<_>>()),
            &text,
        );
    }
}

/// Undeclared identifiers of every spelling in every kind of place.
fn spellings(ctx: &'static Ctx) {
    let ids = [
        "a", "Z9", "x_1", "_a", "__", "Ast", "self", "Self", "fn", "r", "longer_than_most_names_are_because_of_its_many_words", "\u{e9}", "\u{3b1}\u{3b2}", "\u{65e5}\u{672c}", "e\u{301}",
        "declared1", "declare", "clared",
    ];
    let places = [
        "match ID;",
        "match declared . ID;",
        "match ID . declared;",
        "match \"\u{e9}\u{1f600}\" . (declared | ID) . \"x\";",
        "let declared = ID; match declared;",
        "let declared = /declared/ ID; match declared \"a\";",
        "match declared | declared : ID | ID;",
        "match !(/x/ \"a\" . x | ID);",
        "match declared ID;",
        "match ID declared;",
        "match (/x y/ x . ID . y) declared \"a\";",
        "/* \u{e9} ID */ match\n\n\t ID // ID\n;",
        "match declared : ID . ID;",
        "let other = /x/ x; let last = ID; match declared;",
    ];
    for id in ids {
        for (k, p) in places.iter().enumerate() {
            for pre in ["let declared = \"d\";\n", "let declared = \"\u{20ac}\u{20ac}\"; "] {
                let text = format!("{}{}", pre, p.replace("ID", id));
                // the last occurrence that is a use
                let uses: Vec<usize> = match k {
                    6 => vec![p.rfind("ID").unwrap()],
                    11 => vec![p.find("\t ID").unwrap() + 2],
                    12 => vec![p.rfind("ID").unwrap()],
                    _ => vec![p.find("ID").unwrap()],
                };
                let at = |o: usize| pre.chars().count() + p[..o].replace("ID", id).chars().count();
                ctx.state(1);
                ctx.trace(1);
                ctx.transition(1);
                let d = match ctx.guarded(&text, || compile(&text)) {
                    Err(p) => return ctx.violation(&text, format!("{:?}: the compiler panics: {}", text, p), &text),
                    Ok(None) => continue, // C10
                    Ok(Some(d)) => d,
                };
                let want: Vec<R> = uses.iter().map(|o| (at(*o), at(*o) + id.chars().count())).collect();
                // texts the grammar syntax does not allow are not in question
                if syn::parse_str::<Statement>(&text).is_err() {
                    continue;
                }
                ctx.count("reported_undeclared_spellings", 1);
                if !d.at.map_or(false, |r| want.contains(&r)) || !d.msg.contains(id) {
                    ctx.violation(&text, format!("{:?}\n  is rejected with {:?} pointing at {} instead of {}", text, d.msg, show(&text, d.at), show(&text, Some(want[0]))), &text);
                }
            }
        }
    }
}

/// Syntax errors lie inside the text.
fn tokens(ctx: &'static Ctx) {
    let mut al = vec![Tok::Under, Tok::id("x"), Tok::str("a"), Tok::id("let"), Tok::id("match")];
    al.extend("!().|:/=;,".chars().map(Tok::P));
    let n = if ctx.thorough { 5 } else { 4 };
    let total: usize = (0..=n).map(|k| al.len().pow(k as u32)).sum();
    for (pre, post) in [("", ""), ("match ", ";"), ("let x =\n", "; match x;")] {
        chunks(ctx, total, |mut i| {
            let mut len = 0;
            while i >= al.len().pow(len) {
                i -= al.len().pow(len);
                len += 1;
            }
            let mut t = vec![];
            for _ in 0..len {
                t.push(al[i % al.len()].text());
                i /= al.len();
            }
            let text = format!("{}{}{}", pre, t.join(" "), post);
            ctx.state(1);
            ctx.trace(1);
            match ctx.guarded(&text, || compile(&text)) {
                Err(p) => ctx.violation(&text, format!("{:?}: the compiler panics: {}", text, p), &text),
                Ok(None) => {}
                Ok(Some(d)) => {
                    ctx.transition(1);
                    if d.at.is_none() || d.msg.trim().is_empty() {
                        ctx.violation(&text, format!("{:?}: the diagnostic {:?} points at {}", text, d.msg, show(&text, d.at)), &text)
                    }
                }
            }
        });
    }
}

fn main() {
    drive(|ctx| {
        let t = ctx.thorough;
        for (name, ps) in families::programs(t) {
            ctx.count(&format!("programs_{}", name), ps.len() as u64);
            if let Some(p) = ps.last() {
                ctx.sample(|| p.text());
            }
            chunks(ctx, ps.len(), |i| program(ctx, &ps[i]));
        }
        let mut gs = families::small(if t { 9 } else { 8 }, 2);
        gs.extend(families::small(7, 2).iter().flat_map(families::renamed));
        gs.retain(|g| !gram::accepted(g));
        ctx.count("rejected_grammars", gs.len() as u64);
        chunks(ctx, gs.len(), |i| program(ctx, &families::as_program(&gs[i])));
        // far down and far to the right
        let mut gs = families::small(if t { 7 } else { 6 }, 2);
        gs.retain(|g| !gram::accepted(g));
        ctx.count("rejected_grammars_far_away", gs.len() as u64);
        let (right, down, both) = (" ".repeat(300), "\n".repeat(300), format!("{}// \u{20ac}\n{}", " \r\n".repeat(70), "\t/*\u{1f600}\u{e9}*/".repeat(60)));
        chunks(ctx, gs.len(), |i| with_gaps(ctx, &families::as_program(&gs[i]), &[&right, &down, &both]));
        let mut gs = families::odd();
        gs.retain(|g| !gram::accepted(g));
        ctx.count("rejected_grammars_odd", gs.len() as u64);
        chunks(ctx, gs.len(), |i| with_gaps(ctx, &families::as_program(&gs[i]), &[" ", " /*\u{e9}*/\n"]));
        let mut gs = families::large(t);
        gs.retain(|g| !gram::accepted(g));
        ctx.count("rejected_grammars_large", gs.len() as u64);
        chunks(ctx, gs.len(), |i| with_gaps(ctx, &families::as_program(&gs[i]), &[" ", " /*\u{e9}*/\n"]));
        for ps in binders::spaces(false) {
            ctx.count(&format!("binders_{}", ps.name), ps.len as u64);
            chunks(ctx, ps.len, |i| undeclared(ctx, &ps.at(i)));
        }
        spellings(ctx);
        tokens(ctx);
    })
}
