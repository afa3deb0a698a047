//! C14: every text ends in code or in a diagnostic.
use crate::pipeline::{self, Fail};
use crate::proc::{self, Outcome};
use crate::texts::*;
use chewed::{IterWrapper, Parser};
use chomp::nibble::convert::{Context, Convert};
use refmodel::families;
use refmodel::report::{par, Ctx};
use refmodel::syntax::{alphabet, Tok};
use refmodel::term::{expand, PLAIN};
use std::path::PathBuf;

pub fn own(text: &str) -> Result<String, Fail> {
    let a = IterWrapper::new(text.chars()).parse::<autonibble::Ast>().map_err(|e| Fail::Syntax(e.to_string()))?;
    let e = a.convert(&mut Context::default()).map_err(|e| Fail::Scope(e.to_string()))?;
    Ok(pipeline::emit(pipeline::infer(pipeline::expand(e)?)?))
}

/// Both pipelines in this process.
fn library(ctx: &Ctx, text: &str) {
    ctx.state(1);
    for (name, f) in [("chomp", pipeline::compile as fn(&str) -> _), ("autonibble", own)] {
        ctx.trace(1);
        ctx.transition(1);
        match ctx.guarded(text, || f(text)) {
            Err(p) => ctx.violation(&format!("{} {}", name, text), format!("{}: {:?}: panics: {}", name, text, p), text),
            Ok(Err(e)) if e.msg().trim().is_empty() => ctx.violation(&format!("{} {}", name, text), format!("{}: {:?} is rejected without a message", name, text), text),
            Ok(Ok(c)) if c.trim().is_empty() => ctx.violation(&format!("{} {}", name, text), format!("{}: {:?}: no code", name, text), text),
            Ok(Ok(_)) => ctx.count(&format!("accepted_by_{}", name), 1),
            Ok(Err(_)) => {}
        }
    }
}

fn faults(o: &Outcome) -> Option<String> {
    match o.status {
        Ok(0) => {
            if o.out.is_empty() {
                Some("reports success without any code".into())
            } else if !o.err.is_empty() {
                Some("reports success and a diagnostic".into())
            } else if String::from_utf8(o.out.clone()).map_or(true, |s| s.parse::<proc_macro2::TokenStream>().is_err() || !s.contains("Ast")) {
                Some("what it prints is not code".into())
            } else {
                None
            }
        }
        Ok(1) => {
            if !o.out.is_empty() {
                Some("fails but prints to standard output".into())
            } else if String::from_utf8_lossy(&o.err).trim().is_empty() {
                Some("fails without a diagnostic".into())
            } else if String::from_utf8_lossy(&o.err).contains("panicked at") {
                Some("panics".into())
            } else {
                None
            }
        }
        Ok(c) => Some(format!("ends with status {}", c)),
        Err(s) => Some(format!("is ended by signal {}", s)),
    }
}

const TOOLS: [&str; 2] = ["chomp", "autonibble"];

fn tools(ctx: &Ctx, input: &[u8]) {
    ctx.state(1);
    TOOLS.iter().for_each(|t| tool(ctx, t, input))
}

fn tool(ctx: &Ctx, t: &str, input: &[u8]) {
    {
        let o = proc::run(ctx, &proc::tool(t), input, &[], &[]);
        ctx.trace(1);
        ctx.transition(1);
        ctx.count(&format!("{}_{}", t, if o.status == Ok(0) { "accepts" } else { "rejects" }), 1);
        let text = String::from_utf8_lossy(input);
        let wrong = faults(&o).or_else(|| match std::str::from_utf8(input) {
            Err(_) if o.status == Ok(0) => Some("accepts an input that is not UTF-8".into()),
            Err(_) => None,
            Ok(s) => {
                let f = if t == "chomp" { pipeline::compile as fn(&str) -> _ } else { own };
                // what the library does with the text is judged elsewhere
                let r = ctx.guarded(s, || f(s)).ok()?;
                (r.is_ok() != (o.status == Ok(0))).then(|| format!("ends otherwise than the library, which {} the text", if r.is_ok() { "accepts" } else { "rejects" }))
            }
        });
        if let Some(f) = wrong {
            ctx.violation(&format!("{} {}", t, text), format!("{} {} on {:?}\n  {}", t, f, text.chars().take(5000).collect::<String>(), o.show()), input.escape_ascii());
        }
    }
}

/// A program far into its file, behind and before layout of every length around a power of two,
/// and programs whose code is long. For chomp alone: autonibble has no comments.
fn far(t: bool) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let fills: [fn(usize) -> String; 4] = [
        |n| format!("//{}\n", "x".repeat(n - 3)),
        |n| format!("/*{}*/", "\u{e9}".repeat((n - 4) / 2)),
        |n| " ".repeat(n),
        |n| "\n".repeat(n),
    ];
    for k in 10..=if t { 24 } else { 22 } {
        for d in if k < 18 || t { vec![-1i64, 0, 1] } else { vec![1] } {
            let n = ((1i64 << k) + d) as usize;
            for (f, fill) in fills.iter().enumerate() {
                if k > 20 && f > 0 && !t {
                    continue;
                }
                let l = fill(n);
                for p in ["match \"a\";", "match x;", "match \"a\"", ""] {
                    v.push(format!("{}{}", l, p).into_bytes());
                }
                v.push(format!("match {}\"a\";", l).into_bytes());
                v.push(format!("match \"a\";{}", l).into_bytes());
                v.push(format!("match \"a\";{})", l).into_bytes());
                v.push([l.as_bytes(), b"match \"a\";\xff"].concat());
            }
        }
    }
    for n in [500, 1000, 2000, 4000].iter().take(if t { 4 } else { 3 }) {
        let cs: Vec<String> = (0..*n).map(|i| format!("\"{}\"", std::char::from_u32(0x4e00 + i).unwrap())).collect();
        v.push(format!("match {};", cs.join(" | ")).into_bytes());
        v.push(format!("match {};", cs.join(" . ")).into_bytes());
    }
    v
}

/// Every fault in the tools' own input and output.
fn io(ctx: &'static Ctx) {
    let so = proc::shim(ctx).display().to_string();
    let long = format!("match {};", (0..26u8).map(|i| format!("(\"{}\" : part)", (b'a' + i) as char)).collect::<Vec<_>>().join(" . "));
    let texts: Vec<String> = vec![
        "match _;".into(),
        "match \"\u{e9}\u{4e2d}\u{1f600}\" : \u{e9};".into(),
        long,
        "".into(),
        "match \"\u{e9}\u{4e2d}\" . x;".into(),
        "match \"a\" | \"a\";".into(),
        "match (".into(),
        "let f x = x; match \"a\" f;".into(),
    ];
    let mut cases: Vec<(usize, &str, Vec<(&str, String)>)> = Vec::new();
    for i in 0..texts.len() {
        for t in TOOLS {
            for c in 1..=texts[i].len().min(if ctx.thorough { 400 } else { 40 }) {
                cases.push((i, t, vec![("SHIM_READ_CHUNK", c.to_string())]));
            }
            for c in [1, 2, 3, 5, 64, 1023, 1024, 1025] {
                cases.push((i, t, vec![("SHIM_WRITE_CHUNK", c.to_string())]));
            }
            for chunk in [1, 3, 1000] {
                for k in 1..=12 {
                    // EINTR, EIO, EBADF is taken as an empty input by the standard library, EISDIR
                    for e in [4, 5, 21] {
                        cases.push((i, t, vec![("SHIM_READ_CHUNK", chunk.to_string()), ("SHIM_READ_FAIL", format!("{}:{}", k, e))]));
                    }
                }
            }
            for chunk in [1, 500, 100000] {
                for k in 1..=if ctx.thorough { 60 } else { 8 } {
                    // EINTR, EIO, ENOSPC, EPIPE, nothing written
                    for e in [4, 5, 28, 32, 0] {
                        cases.push((i, t, vec![("SHIM_WRITE_CHUNK", chunk.to_string()), ("SHIM_WRITE_FAIL", format!("{}:{}", k, e))]));
                    }
                }
            }
        }
    }
    ctx.count("input_output_faults", cases.len() as u64);
    par(ctx, cases.len(), 8, |n| {
        let (i, t, env) = &cases[n];
        let text = &texts[*i];
        let calm = proc::run(ctx, &proc::tool(t), text.as_bytes(), &[], &[]);
        let mut env = env.clone();
        env.push(("LD_PRELOAD", so.clone()));
        let o = proc::run(ctx, &proc::tool(t), text.as_bytes(), &env, &[]);
        ctx.trace(1);
        ctx.transition(1);
        let hard = env.iter().any(|(k, v)| k.ends_with("FAIL") && !v.ends_with(":4"));
        // without a hard fault nothing changes; with one, the same or a clean failure
        let failed = o.status == Ok(1) && !String::from_utf8_lossy(&o.err).trim().is_empty() && !String::from_utf8_lossy(&o.err).contains("panicked at");
        if o != calm && !(hard && failed) {
            let e = env.iter().filter(|e| e.0 != "LD_PRELOAD").map(|e| format!("{}={}", e.0, e.1)).collect::<Vec<_>>().join(" ");
            ctx.violation(&format!("{} {} {}", t, text, e), format!("{} on {:?} with {}\n  {}\n  instead of {}", t, text, e, o.show(), calm.show()), text);
        }
    });
}

/// Files whose length is around a power of two: accepted, cut, continued, and with a last byte that is not text.
fn files(t: bool) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for k in if t { 10..=21 } else { 12..=17 } {
        for size in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            for fill in ["x", "\u{e9}", "\u{4e2d}", "\u{1f600}"] {
                let mut s = String::from("match \"a\"");
                while s.len() + 1 < size {
                    // the dot, the blank and the quotes
                    let left = size - 1 - s.len();
                    if left < 4 {
                        s.push_str(&" ".repeat(left));
                        break;
                    }
                    let n = (left - 4).min(1500);
                    let m = n / fill.len();
                    s.push_str(&format!(". \"{}{}\"", fill.repeat(m), "y".repeat(n - m * fill.len())));
                }
                s.push(';');
                assert_eq!(s.len(), size);
                let b = s.into_bytes();
                v.push(b[..size - 1].to_vec());
                for more in [&b""[..], b")", b"\xff", b"\xe4\xb8"] {
                    v.push([&b[..], more].concat());
                }
            }
        }
    }
    v
}

pub fn run(ctx: &'static Ctx) {
    let t = ctx.thorough;
    let al = alphabet();
    // token sequences
    let n = if t { 6 } else { 5 };
    let total = count(al.len(), n);
    ctx.count("token_sequences", total as u64);
    par(ctx, total, 1024, |i| {
        let s = nth(&al, i);
        if tame(&s) {
            library(ctx, &join(&s, " "));
        }
    });
    let closed = [Tok::Under, Tok::id("x"), Tok::id("y"), Tok::str("a"), Tok::P('!'), Tok::P('('), Tok::P(')'), Tok::P('.'), Tok::P('|'), Tok::P('/'), Tok::P(':')];
    for (pre, post) in [("match", ";"), ("let x = \"b\" ; match", ";"), ("let x y = y . \"b\" ; match", ";"), ("let x y = ", "; match x _ ;"), ("match ! ( / x /", ") ;"), ("match ( / x y /", ") \"b\" \"c\" ;")] {
        let total = count(closed.len(), if t { 6 } else { 5 });
        ctx.count("token_sequences_inside_programs", total as u64);
        let (pre, post) = (refmodel::syntax::lex(pre), refmodel::syntax::lex(post));
        par(ctx, total, 1024, |i| {
            let mut s = pre.clone();
            s.extend(nth(&closed, i));
            s.extend_from_slice(&post);
            if tame(&s) {
                library(ctx, &join(&s, " "));
            } else {
                ctx.count("skipped_not_terminating_within_the_budget", 1);
            }
        });
    }
    let es = edited();
    ctx.count("edited_programs", es.len() as u64);
    par(ctx, es.len(), 64, |i| {
        if tame(&es[i]) {
            library(ctx, &join(&es[i], " "));
        } else {
            ctx.count("skipped_not_terminating_within_the_budget", 1);
        }
    });
    // character strings
    let m = if t { 5 } else { 4 };
    let a = CHARS.len();
    let total = count(a, m);
    let starts = ["", "match ", "match _;", "let x = "];
    ctx.count("character_strings", (total * starts.len()) as u64);
    par(ctx, total, 512, |i| {
        let (mut j, mut len) = (i, 0);
        while j >= a.pow(len) {
            j -= a.pow(len);
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(CHARS[j % a]);
            j /= a;
        }
        for p in starts {
            library(ctx, &format!("{}{}", p, s));
            if p != "" {
                library(ctx, &format!("{}{};", p, s));
            }
        }
    });
    // programs with functions, mistakes included
    for (name, ps) in families::programs(t) {
        ctx.count(&format!("programs_{}", name), ps.len() as u64);
        par(ctx, ps.len(), 64, |i| {
            if expand(&ps[i], 400) == Err(refmodel::term::Stop::Fuel) {
                ctx.count("skipped_not_terminating_within_the_budget", 1);
            } else {
                library(ctx, &ps[i].text_with(&PLAIN));
            }
        });
    }
    let gs = families::small(if t { 7 } else { 6 }, 3);
    ctx.count("core_grammars", gs.len() as u64);
    par(ctx, gs.len(), 64, |i| library(ctx, &families::as_program(&gs[i]).text()));
    let mut deep: Vec<String> = Vec::new();
    for n in (1..=40).chain([64, 100, 200, 400]) {
        deep.extend(nested(n));
    }
    par(ctx, deep.len(), 1, |i| library(ctx, &deep[i]));
    let mut large: Vec<String> = families::large(false).iter().map(|g| families::as_program(g).text()).collect();
    large.extend(refmodel::long::family(t).iter().map(|(_, g)| families::as_program(g).text()));
    large.extend(refmodel::syntax::long_programs(t).iter().filter(|(_, p)| tame(p)).map(|(_, p)| join(p, " ")));
    ctx.count("large_programs", large.len() as u64);
    par(ctx, large.len(), 4, |i| library(ctx, &large[i]));
    ctx.fact("library_s", ctx.ms() / 1000);

    // the tools themselves
    let mut ins: Vec<Vec<u8>> = Vec::new();
    let mut add = |s: &str| ins.push(s.as_bytes().to_vec());
    for i in 0..count(al.len(), if t { 4 } else { 2 }) {
        add(&join(&nth(&al, i), " "));
    }
    for (k, e) in es.iter().enumerate() {
        if (t || k % 5 == 0) && tame(e) {
            add(&join(e, " "));
        }
    }
    for (_, ps) in families::programs(false) {
        let step = (ps.len() / if t { 2000 } else { 120 }).max(1);
        for p in ps.iter().step_by(step) {
            if expand(p, 400) != Err(refmodel::term::Stop::Fuel) {
                add(&p.text());
            }
        }
    }
    for g in families::small(4, 2) {
        add(&families::as_program(&g).text());
    }
    deep.iter().for_each(|d| add(d));
    large.iter().step_by(if t { 10 } else { 60 }).for_each(|d| add(d));
    add("\u{feff}match _;");
    add("#!/bin/chomp\nmatch _;");
    add("match _;\r\n");
    add(&format!("match \"{}\";", "x".repeat(if t { 5_000 } else { 2_000 })));
    add(&" ".repeat(2_000));
    add(&format!("{}match _;", "\n".repeat(2_000)));
    let files = files(t);
    ctx.count("large_files", files.len() as u64);
    ins.extend(files);
    // bytes that are not text, everywhere in a program
    for b in 0..=255u8 {
        ins.push(vec![b]);
        if t {
            for c in 0..=255u8 {
                ins.push(vec![b, c]);
            }
        }
    }
    let p = "let \u{4e2d} = \"\u{e9}\"; match \u{4e2d} . (\"b\" : \u{e9});".as_bytes();
    for i in 0..=p.len() {
        ins.push(p[..i].to_vec());
        for b in [0x00, 0x80, 0xbf, 0xc3, 0xe4, 0xf0, 0xf8, 0xff, b'"', b'\\', b'\n'] {
            let mut q = p.to_vec();
            q.insert(i, b);
            ins.push(q);
        }
    }
    ctx.count("tool_inputs", ins.len() as u64);
    par(ctx, ins.len(), 8, |i| tools(ctx, &ins[i]));
    let far = far(t);
    ctx.count("programs_far_into_their_files", far.len() as u64);
    par(ctx, far.len(), 1, |i| {
        ctx.state(1);
        tool(ctx, TOOLS[0], &far[i])
    });
    ctx.fact("tools_s", ctx.ms() / 1000);
    // applications that never end
    for w in ["let w = /x/ x x; match w w;", "let w x = x x . \"a\"; match w w;"] {
        tools(ctx, w.as_bytes());
    }
    io(ctx);
    let _: PathBuf = proc::tool("chomp");
    ctx.sample(|| join(&es[es.len() / 2], " "));
    ctx.sample(|| deep[deep.len() - 3].chars().take(200).collect());
}
