//! C24: the macro, the command line tool and the library give the same parser or diagnostic.
use crate::pipeline;
use crate::proc;
use crate::texts::*;
use refmodel::families;
use refmodel::gram::{self, G};
use refmodel::report::{json, par, set_thread, verif, work, Ctx, THREADS};
use refmodel::shard::{run_shards, rustc, unjson, Builder, Entry};
use refmodel::syntax::{alphabet, lex, read, Tok};
use refmodel::term::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// Can be written inside a macro invocation.
fn balanced(t: &[Tok]) -> bool {
    let mut d = 0i32;
    for x in t {
        match x {
            Tok::P('(') => d += 1,
            Tok::P(')') => d -= 1,
            _ => {}
        }
        if d < 0 {
            return false;
        }
    }
    // two slashes would start a comment
    d == 0
}

struct Case {
    text: String,
    /// meaning, when the reference model knows it
    g: Option<G>,
    /// number among the long grammars
    long: Option<usize>,
    /// too large to build parsers for, unless the texts differ
    text_only: bool,
}

fn cases(t: bool) -> Vec<Case> {
    let mut v = Vec::new();
    let mut seen = HashSet::new();
    let mut add = |text: String, g: Option<G>| {
        if seen.insert(text.clone()) {
            v.push(Case { text, g, long: None, text_only: false })
        }
    };
    let tokens = |s: &[Tok]| -> Option<(String, Option<G>)> {
        if !balanced(s) || !tame(s) {
            return None;
        }
        let g = read(s).ok().and_then(|n| from_node(&n)).and_then(|p| expand(&p, 400).ok()).filter(|x| x.1.is_empty()).map(|x| x.0);
        Some((join(s, " "), g))
    };
    // every short token sequence
    let al = alphabet();
    for i in 0..count(al.len(), if t { 4 } else { 3 }) {
        if let Some((s, g)) = tokens(&nth(&al, i)) {
            add(s, g);
        }
    }
    let closed = [Tok::Under, Tok::id("x"), Tok::str("a"), Tok::P('!'), Tok::P('('), Tok::P(')'), Tok::P('.'), Tok::P('|'), Tok::P('/'), Tok::P(':')];
    for (pre, post) in [("match", ";"), ("let x = \"b\" ; match", ";"), ("let x y = y . \"b\" ; match", ";"), ("match ! ( / x /", ") ;")] {
        let (pre, post) = (lex(pre), lex(post));
        for i in 0..count(closed.len(), if t { 5 } else { 3 }) {
            let mut s = pre.clone();
            s.extend(nth(&closed, i));
            s.extend_from_slice(&post);
            if let Some((s, g)) = tokens(&s) {
                add(s, g);
            }
        }
    }
    for e in edited().iter().step_by(if t { 1 } else { 4 }) {
        if let Some((s, g)) = tokens(e) {
            add(s, g);
        }
    }
    for g in space(if t { 7 } else { 6 }) {
        let ok = gram::accepted(&g);
        if ok || g.size() <= 4 || t {
            add(families::as_program(&g).text(), Some(g));
        }
    }
    for (_, ps) in families::programs(false) {
        let step = (ps.len() / if t { 2500 } else { 100 }).max(1);
        for p in ps.iter().step_by(step) {
            match expand(p, 400) {
                Err(Stop::Fuel) => {}
                Ok((g, m)) if m.is_empty() => add(p.text(), Some(g)),
                _ => add(p.text(), None),
            }
        }
    }
    // names, literals, layout
    let g2 = |a: &str, b: &str| Some(G::Alt(vec![G::Lit(a.into()), G::Cat(vec![G::Lit(b.into()), G::Lit(a.into())])]));
    for n in ["x", "X", "part", "type", "self", "Self", "crate", "r#match", "r#x", "_x", "x_1", "__", "é", "中", "fn", "async", "Ast", "Box", "None"] {
        add(format!("match \"p\" : {n} | \"q\" . (\"p\" : {n});"), g2("p", "q"));
        add(format!("let {n} = \"p\"; match {n} | \"q\" . {n};"), g2("p", "q"));
        add(format!("let f {n} = {n} | \"q\" . {n}; match f \"p\";"), g2("p", "q"));
    }
    for (l, c) in [("\\n", "\n"), ("\\t", "\t"), ("\\\"", "\""), ("\\\\", "\\"), ("\\x41", "A"), ("\\u{e9}", "é"), ("é", "é"), ("{}", "{}"), ("中文", "中文"), ("\\u{1f600}", "\u{1f600}"), ("'", "'"), ("\\0", "\0")] {
        add(format!("match \"{l}\" | \"q\" . \"{l}\";"), g2(c, "q"));
    }
    // every character as it is and escaped, in a literal and between tokens
    for b in (0..128u8).filter(|b| *b != b'\r') {
        let c = b as char;
        if c != '"' && c != '\\' {
            add(format!("match \"q{c}\" | \"r\" . \"q{c}\";"), g2(&format!("q{c}"), "r"));
        }
        add(format!("match \"q\\x{b:02x}\" | \"r\" . \"q\\x{b:02X}\";"), g2(&format!("q{c}"), "r"));
        if c != '"' {
            add(format!("match r\"q{c}\" | \"r\" . r#\"q{c}\"#;"), g2(&format!("q{c}"), "r"));
        }
    }
    for c in ["\u{80}", "\u{85}", "\u{a0}", "\u{301}", "\u{200b}", "\u{200d}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{e000}", "\u{feff}", "\u{fffd}", "\u{10ffff}"] {
        add(format!("match \"q{c}\" | \"r\" . \"q{c}\";"), g2(&format!("q{c}"), "r"));
        add(format!("match \"q{}\" | \"r\" . \"q{c}\";", c.escape_unicode()), g2(&format!("q{c}"), "r"));
    }
    for w in ["\t", "\n", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{200e}", "\u{2028}", "  ", "/**/", "//\n", "/* /* */ */", "// \"\n"] {
        add(format!("match{w} {w}\"q\"{w}|{w}\"r\"{w}.{w}\"q\"{w};{w}"), g2("q", "r"));
        add(format!("let{w} {w}x{w}={w}\"q\"{w};{w}match{w} {w}x{w}|{w}\"r\"{w}.{w}x{w};"), g2("q", "r"));
    }
    for (l, c) in [("q\\\n   w", "qw"), ("q\\\n\n\tw", "qw"), ("q\n  w", "q\n  w"), ("\t", "\t"), ("q\tw", "q\tw"), ("  ", "  ")] {
        add(format!("match \"{l}\" | \"r\" . \"{l}\";"), g2(c, "r"));
    }
    add("match r\"a\\b\" | \"q\" . r#\"a\\b\"#;".into(), g2("a\\b", "q"));
    add("match // comment\n \"p\" /* more */ | \"q\" . \"p\" ;\n".into(), g2("p", "q"));
    add("/// documentation\nmatch \"p\";".into(), None);
    for s in ["match 'a';", "match b\"a\";", "match 1;", "match \"a\"suffix;", "match {\"a\"};", "match [\"a\"];", "match $x;", "match \"a\" || \"b\";", "match \"a\" .. \"b\";", "match \"a\";;", "match \"a\"; match \"b\";", "let x == \"a\"; match x;", "match !!\"a\";", "match x::y;", "match \"a\" :: l;", "match 'a: \"b\";", "match #x;", "match c\"a\";", "match \"a\" != \"b\";", "match \"a\" |= \"b\";", "match \"a\" /= \"b\";"] {
        add(s.into(), None);
    }
    // large rejected programs, one of each kind of mistake at a few places
    let large = families::large(false);
    for g in large.iter().step_by(large.len() / if t { 600 } else { 60 }) {
        add(families::as_program(g).text(), None);
    }
    let long = refmodel::syntax::long_programs(false);
    for (_, s) in long.iter().step_by(if t { 40 } else { 400 }) {
        if s.len() < 700 {
            if let Some((s, _)) = tokens(s) {
                add(s, None);
            }
        }
    }
    for (i, (name, g)) in refmodel::long::family(t).iter().enumerate() {
        let n = name.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse::<usize>().ok()).max().unwrap_or(0);
        if n <= if t { 130 } else { 40 } || name.contains("literal") {
            v.push(Case { text: families::as_program(g).text(), g: Some(g.clone()), long: Some(i), text_only: false });
        }
    }
    // large code, and programs far into their files
    for n in [300u32, 1000, 3000] {
        let cs: Vec<G> = (0..n).map(|i| G::Lit(std::char::from_u32(0x4e00 + i).unwrap().to_string())).collect();
        for g in [G::Alt(cs.clone()), G::Cat(cs)] {
            v.push(Case { text: families::as_program(&g).text(), g: Some(g), long: None, text_only: true });
        }
    }
    for k in 12..=21 {
        let l = format!("//{}\n", "x".repeat(1 << k));
        v.push(Case { text: format!("{}match \"p\" | \"q\" . \"p\";", l), g: g2("p", "q"), long: None, text_only: true });
        v.push(Case { text: format!("match \"p\" | {}\"q\" . \"p\";", l), g: g2("p", "q"), long: None, text_only: true });
    }
    v
}

fn space(n: usize) -> Vec<G> {
    // grammars up to renaming of letters are told apart by no code here
    families::small(n, 3).into_iter().filter(|g| {
        let mut next = 'a';
        let mut ok = true;
        fn go(g: &G, next: &mut char, ok: &mut bool) {
            match g {
                G::Lit(s) => {
                    for c in s.chars() {
                        if c > *next {
                            *ok = false;
                        } else if c == *next {
                            *next = (*next as u8 + 1) as char;
                        }
                    }
                }
                G::Cat(v) | G::Alt(v) => v.iter().for_each(|g| go(g, next, ok)),
                G::Fix(b) => go(b, next, ok),
                _ => {}
            }
        }
        go(g, &mut next, &mut ok);
        ok
    }).collect()
}

/// Compiles macro invocations that have to fail and compares the messages.
fn rejected(ctx: &'static Ctx, all: &[(String, String)], batch: usize) {
    let chunks: Vec<&[(String, String)]> = all.chunks(batch).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..THREADS {
            let (next, chunks) = (&next, &chunks);
            sc.spawn(move || {
                set_thread(t + 1);
                loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= chunks.len() || ctx.enough() {
                        break;
                    }
                    chunk(ctx, k, chunks[k]);
                }
            });
        }
    });
    if ctx.enough() {
        ctx.exhaustive.store(false, SeqCst);
    }
}

fn chunk(ctx: &Ctx, k: usize, es: &[(String, String)]) {
    let dir = work(&ctx.id);
    let rs = dir.join(format!("r{}.rs", k));
    let mut src = String::from("#![allow(warnings)]\n");
    let mut at = Vec::new();
    let mut line = 2;
    for (i, (text, _)) in es.iter().enumerate() {
        let m = format!("mod g{} {{\nchomp_macro::nibble! {{ {}\n }}\n}}\n", i, text);
        let n = m.matches('\n').count();
        at.push((line, line + n - 1));
        line += n;
        src.push_str(&m);
    }
    src.push_str("fn main() {}\n");
    std::fs::write(&rs, &src).unwrap();
    let o = rustc()
        .args(["--edition", "2018", "--crate-type", "bin", "--crate-name", "shard", "--error-format=json", "--emit=metadata", "-o"])
        .arg(dir.join(format!("r{}.out", k)))
        .arg("--extern")
        .arg(format!("chomp_macro={}", verif().join("target/release/libchomp_macro.so").display()))
        .arg(&rs)
        .output()
        .unwrap();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let mut got: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let here = format!("\"file_name\":{}", json(&rs.to_string_lossy()));
    let mut loose = Vec::new();
    for l in err.lines().filter(|l| l.contains("\"level\":\"error\"")) {
        let m = match l.find("\"message\":").map(|p| &l[p + 10..]) {
            Some(m) => unjson(&m[..string_end(m)]),
            None => continue,
        };
        // where it points first
        let n = l.find(&here).and_then(|p| l[p..].find("\"line_start\":").map(|q| l[p + q + 13..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>())).and_then(|n| n.parse::<usize>().ok());
        match n.and_then(|n| at.iter().position(|(a, z)| *a <= n && n <= *z)) {
            Some(i) => got.entry(i).or_default().push(m),
            None => loose.push(m),
        }
    }
    for (i, (text, want)) in es.iter().enumerate() {
        ctx.trace(1);
        ctx.transition(1);
        match got.get(&i) {
            None => ctx.violation(&format!("macro {}", text), format!("{}\n  the library rejects it ({:?}), the macro reports no error at it\n  errors elsewhere: {:?}", text, want, loose.iter().take(3).collect::<Vec<_>>()), text),
            Some(ms) => {
                if !ms.iter().all(|m| m == want) {
                    ctx.violation(&format!("macro {}", text), format!("{}\n  library: {:?}\n  macro:   {:?}", text, want, ms), text);
                }
            }
        }
    }
    let _ = std::fs::remove_file(&rs);
    let _ = std::fs::remove_file(dir.join(format!("r{}.out", k)));
}

/// One past the closing quote of the JSON string `s` starts with.
fn string_end(s: &str) -> usize {
    let b = s.as_bytes();
    let mut i = 1;
    while i < b.len() && b[i] != b'"' {
        i += if b[i] == b'\\' { 2 } else { 1 };
    }
    i + 1
}

pub fn run(ctx: &'static Ctx) {
    let cs = cases(ctx.thorough);
    ctx.count("texts", cs.len() as u64);
    let bad: Mutex<Vec<(usize, String, String)>> = Mutex::default();
    let good: Mutex<Vec<(usize, Vec<Entry>)>> = Mutex::default();
    par(ctx, cs.len(), 16, |i| {
        let c = &cs[i];
        let lib = match ctx.guarded(&c.text, || pipeline::compile(&c.text)) {
            Ok(r) => r,
            // panics are the business of C14
            Err(_) => return,
        };
        ctx.state(1);
        ctx.trace(1);
        ctx.transition(1);
        let o = proc::run(ctx, &proc::tool("chomp"), c.text.as_bytes(), &[], &[]);
        let out = String::from_utf8_lossy(&o.out).into_owned();
        let fail = |w: &str| {
            ctx.violation(&format!("tool {}", c.text), format!("{}\n  library: {}\n  tool: {}\n  {}", c.text, match &lib { Ok(_) => "accepts".into(), Err(e) => format!("{:?}", e) }, o.show(), w), &c.text)
        };
        match &lib {
            Err(e) => {
                if o.status == Ok(0) {
                    fail("the command line tool accepts what the library rejects");
                } else if String::from_utf8_lossy(&o.err).trim_end_matches('\n') != e.msg().trim_end_matches('\n') {
                    fail("the command line tool reports another message");
                }
                bad.lock().unwrap().push((i, c.text.clone(), e.msg().to_string()));
            }
            Ok(code) => {
                if o.status != Ok(0) {
                    return fail("the command line tool rejects what the library accepts");
                }
                let same = out.parse::<proc_macro2::TokenStream>().is_ok_and(|t| t.to_string() == *code);
                if same && c.text_only {
                    ctx.count("large_and_the_same_text", 1);
                    return;
                }
                // without a meaning, any texts over its letters will do
                let ser = c.g.clone().unwrap_or_else(|| {
                    ctx.count("accepted_without_a_reference_meaning", 1);
                    let l: Vec<G> = ["a", "b", "p", "q"].iter().map(|s| G::Lit(s.to_string())).collect();
                    G::Fix(Box::new(G::Alt(vec![G::Eps, G::Cat(vec![G::Alt(l), G::Ref(0)])])))
                }).to_ser();
                let ser = match c.long {
                    Some(i) => format!("LARGE {}", i),
                    None => ser,
                };
                let e = |how: &str, code: String| Entry { spec: format!("{}\t{}", ser, how), code, text: format!("{} ({})", c.text, how), as_char: false };
                let mut v = vec![e("library", code.clone()), e("macro", format!("MACRO {}", c.text))];
                if !same {
                    ctx.count("tool_output_differs_as_text", 1);
                    v.push(e("library", code.clone()));
                    v.push(e("tool", out));
                }
                good.lock().unwrap().push((i, v));
            }
        }
    });
    ctx.fact("tool_s", ctx.ms() / 1000);
    let mut bad = bad.into_inner().unwrap();
    bad.sort();
    let bad: Vec<(String, String)> = bad.into_iter().map(|(_, t, m)| (t, m)).collect();
    ctx.count("rejected", bad.len() as u64);
    ctx.sample(|| format!("{:?}", bad[bad.len() / 2]));
    rejected(ctx, &bad, 150);
    ctx.fact("rejected_s", ctx.ms() / 1000);
    let mut good = good.into_inner().unwrap();
    good.sort_by_key(|g| g.0);
    ctx.count("accepted", good.len() as u64);
    // one of each kind of code is enough in the quick tier
    let mut codes = HashSet::new();
    let (large, mut good): (Vec<_>, Vec<_>) = good.into_iter().filter(|(_, v)| ctx.thorough || codes.insert(v[0].code.clone()) || v.len() > 2).partition(|(i, _)| cs[*i].long.is_some());
    ctx.count("long_grammars", large.len() as u64);
    // spread evenly: they take long
    let step = (good.len() / large.len().max(1)).max(1);
    for (k, l) in large.into_iter().enumerate().rev() {
        good.insert((k * step).min(good.len()), l);
    }
    let entries: Vec<Entry> = good.into_iter().flat_map(|g| g.1).collect();
    ctx.count("parsers_built", entries.len() as u64);
    ctx.sample(|| entries[entries.len() / 2].text.clone());
    run_shards(
        ctx,
        &Builder { mode: "C24".into(), detail: true, batch: 80, macro_lib: Some(verif().join("target/release/libchomp_macro.so")), must_compile: true, check_only: false },
        &entries,
    );
    let _ = work(&ctx.id);
}
