//! C12: the self-hosted front end against the macro front end.
#[path = "../../mc/src/shape.rs"]
mod shape;

use chewed::{IterWrapper, Parser};
use chomp::chomp::name::Name;
use chomp::nibble::convert::{Context, Convert};
use chomp::nibble::Statement;
use refmodel::report::{drive, par, Ctx};
use refmodel::syntax::{alphabet, edits, lex, Node, Tok, PROGRAMS};
use shape::{shape, FREE};

fn names(free: bool) -> (Context, Vec<String>) {
    let mut c = Context::default();
    let mut scope = Vec::new();
    if free {
        for n in FREE {
            c.push_variable(Name::new_variable(n.to_string()));
            scope.push(n.to_string());
        }
    }
    (c, scope)
}

/// The root of the goal is called Ast by one of them only; nothing depends on it.
fn root(mut n: Node) -> Node {
    use refmodel::syntax::Expr;
    fn go(n: &mut Node) {
        match &mut n.expr {
            Expr::Let(_, _, b) => go(b),
            _ if n.name.as_deref() == Some("Ast") => n.name = None,
            _ => {}
        }
    }
    go(&mut n);
    n
}

fn own(text: &str, free: bool) -> Result<Node, String> {
    let a = IterWrapper::new(text.chars()).parse::<autonibble::Ast>().map_err(|e| e.to_string())?;
    let (mut c, mut scope) = names(free);
    let e = a.convert(&mut c).map_err(|e| format!("conversion: {}", e))?;
    Ok(root(shape(&e, &mut scope)))
}

fn other(text: &str, free: bool) -> Result<Node, String> {
    let s: Statement = syn::parse_str(text).map_err(|e| e.to_string())?;
    let (mut c, mut scope) = names(free);
    let e = s.convert(&mut c).map_err(|e| format!("conversion: {}", e))?;
    Ok(root(shape(&e, &mut scope)))
}

fn compare(ctx: &Ctx, text: &str, free: bool) -> bool {
    ctx.trace(2);
    ctx.transition(1);
    let a = match ctx.guarded(text, || own(text, free)) {
        Err(p) => {
            ctx.violation(text, format!("{:?}: the self-hosted front end panics: {}", text, p), text);
            return false;
        }
        Ok(r) => r,
    };
    let b = match ctx.guarded(text, || other(text, free)) {
        Err(p) => {
            ctx.violation(text, format!("{:?}: the macro front end panics: {}", text, p), text);
            return false;
        }
        Ok(r) => r,
    };
    match (&a, &b) {
        (Ok(x), Ok(y)) if x == y => true,
        (Err(_), Err(_)) => false,
        _ => {
            ctx.violation(text, format!("{:?}\n  self-hosted: {:?}\n  macro:       {:?}", text, a, b), text);
            false
        }
    }
}

fn crash(ctx: &Ctx, text: &str) {
    ctx.trace(1);
    ctx.transition(1);
    if let Err(p) = ctx.guarded(text, || own(text, true).is_ok()) {
        ctx.violation(text, format!("{:?}: the self-hosted front end panics: {}", text, p), text);
    }
}

/// Outside the common notation: an underscore as a name, the empty literal, a comment.
fn common(t: &[Tok]) -> bool {
    if t.iter().any(|x| matches!(x, Tok::Str(_, v) if v.is_empty())) {
        return false;
    }
    // wherever a name is wanted: after `:`, after `let`, between slashes
    refmodel::syntax::read(t) != Err(refmodel::syntax::No::Unspecified)
}

fn join(t: &[Tok], sep: &str) -> String {
    t.iter().map(Tok::text).collect::<Vec<_>>().join(sep)
}

/// Blanks left out wherever the common notation allows it.
fn tight(t: &[Tok]) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            let p = &t[i - 1];
            let ends = matches!(p, Tok::Under | Tok::Id(_) | Tok::Str(..) | Tok::P(')'));
            let starts = matches!(x, Tok::Under | Tok::Id(_) | Tok::Str(..) | Tok::P('(') | Tok::P('!'));
            let keyword = matches!(p, Tok::Id(n) if n == "let" || n == "match");
            let slashes = matches!((p, x), (Tok::P('/'), Tok::P('/')));
            if ends && starts || keyword || slashes {
                s.push(' ');
            }
        }
        s.push_str(&x.text());
    }
    s
}

fn judge(ctx: &Ctx, t: &[Tok]) {
    let text = join(t, " ");
    ctx.state(1);
    if !common(t) {
        ctx.count("outside_the_common_notation_checked_for_crashes_only", 1);
        crash(ctx, &text);
        return;
    }
    if compare(ctx, &text, true) {
        ctx.count("accepted_by_both", 1);
        for sep in ["\n", "\t", " \r\n  ", "\u{b}", "\u{c}", "\u{85}", "\u{200e}", "\u{200f}", "\u{2028}", "\u{2029}"] {
            compare(ctx, &join(t, sep), true);
        }
        compare(ctx, &format!("\n \t{} \n", text), true);
        compare(ctx, &text, false);
    }
    compare(ctx, &tight(t), true);
}

fn nth(alpha: &[Tok], mut i: usize) -> Vec<Tok> {
    let a = alpha.len();
    let mut len = 0;
    while i >= a.pow(len) {
        i -= a.pow(len);
        len += 1;
    }
    let mut t = Vec::new();
    for _ in 0..len {
        t.push(alpha[i % a].clone());
        i /= a;
    }
    t
}

fn exhaust(ctx: &'static Ctx, name: &str, alpha: &[Tok], n: usize, pre: &str, post: &str) {
    let total: usize = (0..=n).map(|k| alpha.len().pow(k as u32)).sum();
    ctx.count(&format!("sequences_{}", name), total as u64);
    let (pre, post) = (lex(pre), lex(post));
    par(ctx, total, 256, |i| {
        let mut t = pre.clone();
        t.extend(nth(alpha, i));
        t.extend_from_slice(&post);
        judge(ctx, &t);
    });
}

fn strings(al: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| al.iter().map(move |c| format!("{}{}", s, c))).collect();
        out.extend(last.iter().cloned());
    }
    out
}

/// Literals: every short sequence of pieces of escapes.
fn literals(ctx: &'static Ctx) {
    let t = ctx.thorough;
    let mut cases = strings(&["\\", "x", "u", "{", "}", "0", "7", "8", "d", "F", "n", "'", "a"], if t { 6 } else { 5 });
    // code points around every limit
    for c in [0u32, 1, 0x7f, 0x80, 0xff, 0x100, 0xfff, 0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffff] {
        for w in 1..=7 {
            for pre in ["", "a", "\\n"] {
                for post in ["", "b", "\\u{e9}"] {
                    cases.push(format!("{}\\u{{{:0w$x}}}{}", pre, c, post, w = w));
                    cases.push(format!("{}\\u{{{:0w$X}}}{}", pre, c, post, w = w));
                }
            }
        }
    }
    for c in 0..=0x7fu32 {
        let c = char::from_u32(c).unwrap();
        cases.push(format!("\\{}", c));
        cases.push(format!("\\{}{}", c, c));
        if c.is_ascii_graphic() || c == ' ' {
            cases.push(c.to_string());
            cases.push(format!("a{}b", c));
        }
        for d in 0..=0x7fu32 {
            let d = char::from_u32(d).unwrap();
            cases.push(format!("\\x{}{}", c, d));
            cases.push(format!("\\u{{{}{}}}", c, d));
        }
    }
    ctx.count("literals", cases.len() as u64);
    let outside = |s: &str| {
        // only printable ASCII, no quote that ends the literal early, no skipped line break, no
        // underscores between digits, not empty
        let mut esc = false;
        for c in s.chars() {
            if !(c.is_ascii_graphic() || c == ' ') {
                return true;
            }
            if !esc && c == '"' {
                return true;
            }
            esc = !esc && c == '\\';
        }
        s.is_empty() || s.contains("\\u{") && s.contains('_')
    };
    par(ctx, cases.len(), 64, |i| {
        let s = &cases[i];
        for (pre, post) in [("match \"", "\";"), ("let y = ( x . \"", "\" : k ) | _; match y;")] {
            let text = format!("{}{}{}", pre, s, post);
            ctx.state(1);
            if outside(s) {
                crash(ctx, &text);
            } else {
                compare(ctx, &text, true);
            }
        }
    });
}

/// Names: every identifier of at most three characters, in each place a name can stand.
fn identifiers(ctx: &'static Ctx) {
    let mut ids: Vec<String> = strings(&["a", "b", "A", "Z", "0", "9", "_", "r"], 3);
    ids.retain(|s| s.chars().next().is_some_and(|c| c.is_ascii_alphabetic()));
    for c in 'a'..='z' {
        ids.push(c.to_string());
        ids.push(format!("x{}", c));
        ids.push(c.to_ascii_uppercase().to_string());
        ids.push(format!("x{}", c.to_ascii_uppercase()));
    }
    for w in [
        "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self",
        "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof",
        "unsized", "virtual", "yield", "try", "union", "auto", "default", "le", "letx", "lets", "mat", "matchx", "Ast", "Epsilon", "None",
    ] {
        ids.push(w.into());
    }
    ctx.count("identifiers", ids.len() as u64);
    par(ctx, ids.len(), 8, |i| {
        let n = &ids[i];
        for f in [
            "let N = \"a\"; match N;",
            "let x N = N; match x \"a\";",
            "let N N N = N; match N N N;",
            "match !(/N/ \"a\" . N | \"b\");",
            "match (/y N z/ z . N . y) N x y;",
            "match \"a\" : N;",
            "match (\"a\" : N) . x | \"b\" : N;",
            "match N;",
            "match x . N | N N;",
        ] {
            let text = f.replace('N', n);
            ctx.state(1);
            compare(ctx, &text, true);
            compare(ctx, &text, false);
        }
    });
}

/// Every short string of characters, after every kind of beginning: no panics.
fn characters(ctx: &'static Ctx) {
    let al = [" ", "x", "_", "!", "(", ")", ".", "|", ":", "/", "=", ";", "\"", "\\", "\u{e9}", "\n", "l"];
    let n = if ctx.thorough { 5 } else { 4 };
    let a = al.len();
    let total: usize = (0..=n).map(|k| a.pow(k as u32)).sum();
    let starts = ["", "match ", "let ", "let x = ", "match /x/ ", "match \"a", "match x : ", "let x = _; ", "match x;", "matc", "le"];
    ctx.count("character_strings", (total * starts.len()) as u64);
    par(ctx, total, 256, |i| {
        let mut j = i;
        let mut len = 0;
        while j >= a.pow(len) {
            j -= a.pow(len);
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(al[j % a]);
            j /= a;
        }
        for p in starts {
            let text = format!("{}{}", p, s);
            ctx.state(1);
            crash(ctx, &text);
            crash(ctx, &format!("{};", text));
        }
    });
}

fn main() {
    drive(|ctx| {
        let t = ctx.thorough;
        let al = alphabet();
        let n = if t { 5 } else { 4 };
        exhaust(ctx, "in_match", &al, n + 1, "match", ";");
        exhaust(ctx, "raw", &al, n, "", "");
        exhaust(ctx, "in_let", &al, n, "let", "; match x ;");
        exhaust(ctx, "after_let_name", &al, n, "let y", "; match x ;");
        exhaust(ctx, "bound", &al, n + 1, "let y =", "; match x ;");
        exhaust(ctx, "in_parentheses", &al, n, "match x (", ") . y ;");
        exhaust(ctx, "in_lambda", &al, n, "match ( / x", ") \"a\" ;");
        exhaust(ctx, "after_goal", &al, n, "match x ;", "");
        exhaust(ctx, "longer", &lex("x ! ( ) . | : \"a\""), if t { 7 } else { 6 }, "match", ";");
        exhaust(ctx, "operators", &lex("x y . | :"), if t { 9 } else { 7 }, "match", ";");
        exhaust(ctx, "definitions", &lex("let match x = ; /"), if t { 8 } else { 6 }, "let x", "x ; match x ;");
        let mut cases: Vec<Vec<Tok>> = Vec::new();
        for s in PROGRAMS {
            let base = lex(s);
            let mut one = vec![base.clone()];
            one.extend(edits(&base, &al));
            if t {
                for e in one.clone() {
                    cases.extend(edits(&e, &lex("x . | : ;")));
                }
            }
            cases.extend(one);
        }
        ctx.count("edited_programs", cases.len() as u64);
        par(ctx, cases.len(), 64, |i| judge(ctx, &cases[i]));
        let long = refmodel::syntax::long_programs(t);
        for (name, _) in &long {
            ctx.count(&format!("programs_{}", name), 1);
        }
        par(ctx, long.len(), 4, |i| judge(ctx, &long[i].1));
        literals(ctx);
        identifiers(ctx);
        characters(ctx);
        ctx.sample(|| PROGRAMS[1].to_string());
        ctx.sample(|| tight(&lex(PROGRAMS[4])));
    })
}
