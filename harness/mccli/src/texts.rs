//! Texts given to whole tools.
use refmodel::syntax::{alphabet, edits, lex, read, Tok, PROGRAMS};
use refmodel::term::{ends, from_node};

/// Closed programs that between them use every construct.
pub const BASES: [&str; 8] = [
    "match \"a\" . (\"b\" : l) | _ : m | !(/x/ \"c\" | \"d\" . x : n) ;",
    "let f x y = x . \"b\" . y ; match f \"a\" (!(/z/ _ | \"k\" . z)) ;",
    "let x = \"a\" ; let y = x | \"b\" : x ; match (x . \"q\" : p) . y ;",
    "let f = /x/ !(/y/ \"a\" | \"b\" . y . x) ; match f \"k\" ;",
    "let t f x = f (f x) ; match t (/y/ \"a\" . y) \"b\" ;",
    "let let match = match ; match let \"a\" ;",
    "match !(/x/ \"a\" . !(/y/ \"b\" | \"c\" . x . y) | \"d\") ;",
    "let x = /y z/ y . z ; match (x \"a\" \"b\" : k) | \"c\" : k ;",
];

/// May be expanded in this process.
pub fn tame(t: &[Tok]) -> bool {
    match read(t) {
        Ok(n) => from_node(&n).is_none_or(|p| ends(&p, 400)),
        // a name that is an underscore: treat it as any other name
        Err(refmodel::syntax::No::Unspecified) => {
            let t: Vec<Tok> = t.iter().map(|t| if *t == Tok::Under { Tok::id("_") } else { t.clone() }).collect();
            read(&t).ok().and_then(|n| from_node(&n)).is_none_or(|p| ends(&p, 400))
        }
        Err(_) => true,
    }
}

pub fn join(t: &[Tok], sep: &str) -> String {
    t.iter().map(Tok::text).collect::<Vec<_>>().join(sep)
}

pub fn nth(alpha: &[Tok], mut i: usize) -> Vec<Tok> {
    let a = alpha.len();
    let mut len = 0;
    while i >= a.pow(len) {
        i -= a.pow(len);
        len += 1;
    }
    let mut t = Vec::new();
    for _ in 0..len {
        t.push(alpha[i % a].clone());
        i /= a;
    }
    t
}

pub fn count(a: usize, n: usize) -> usize {
    (0..=n).map(|k| a.pow(k as u32)).sum()
}

/// Every change of one token in the base programs.
pub fn edited() -> Vec<Vec<Tok>> {
    let mut al = alphabet();
    al.extend(["y", "f"].iter().map(|s| Tok::id(s)));
    BASES.iter().chain(&PROGRAMS).flat_map(|p| edits(&lex(p), &al)).collect()
}

pub const CHARS: [&str; 20] = ["m", "atch ", "_", "x", "\"", "\\", "/", "*", "!", "(", ")", "|", ":", ";", "=", "\n", "\u{e9}", "'", "#", "\u{0}"];

/// One construct nested `n` deep.
pub fn nested(n: usize) -> Vec<String> {
    let t = "\"a\"";
    let mut v = vec![
        format!("match {}{}{};", "(".repeat(n), t, ")".repeat(n)),
        format!("match {};", vec![t; n].join(" . ")),
        format!("match {}{}{};", "(\"a\" . ".repeat(n), t, " | \"b\")".repeat(n)),
        format!("match {}{}{};", "(/x/ \"b\" . ".repeat(n), t, ") \"c\"".repeat(n)),
        format!("let f = /x/ \"b\" . x; match {}{}{};", "f (".repeat(n), t, ")".repeat(n)),
        format!("match {}{}{};", "(".repeat(n), t, " : l)".repeat(n)),
        format!("let d0 = \"a\"; {}match d{};", (0..n).map(|i| format!("let d{} = d{} . \"b\"; ", i + 1, i)).collect::<String>(), n),
        // and things left open or wrong inside
        format!("match {}", "(".repeat(n)),
        format!("match {}{};", "(".repeat(n), t),
        format!("match {};", "!".repeat(n)),
        format!("match {}{};", "!".repeat(n), t),
        format!("match {}undeclared{};", "(\"a\" . ".repeat(n), ")".repeat(n)),
        format!("match {}_{};", "(_ . ".repeat(n), ")".repeat(n)),
        format!("match f{};", " f".repeat(n)),
        format!("let f{} = \"a\"; match f{};", (0..n).map(|i| format!(" x{}", i)).collect::<String>(), " \"b\"".repeat(n)),
        format!("let f{} = \"a\"; match f{};", (0..n).map(|i| format!(" x{}", i)).collect::<String>(), " \"b\"".repeat(n + 1)),
    ];
    if n <= 10 {
        v.push(format!("match {}{}{};", "!(/x/ \"b\" . ".repeat(n), t, ")".repeat(n)));
        v.push(format!("match {}x{};", "!(/x/ \"b\" . ".repeat(n), " . \"b\")".repeat(n)));
    }
    v
}
