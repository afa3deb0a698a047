//! C15: the output depends on the text alone.
use crate::clean::own;
use crate::pipeline;
use crate::proc;
use crate::texts::*;
use refmodel::families;
use refmodel::gram;
use refmodel::report::{par, work, Ctx};
use refmodel::term::{expand, Stop};
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

/// Code or message, by both front ends.
fn output(text: &str) -> String {
    let show = |r: Result<String, pipeline::Fail>| match r {
        Ok(c) => format!("code {}", c),
        Err(e) => format!("{:?}", e),
    };
    format!("{}\u{2}{}", show(pipeline::compile(text)), show(own(text)))
}

/// The order in which a hash map of four elements is visited in this process.
fn probe() -> String {
    let m: HashMap<u8, ()> = (0..4).map(|k| (k, ())).collect();
    m.keys().map(|k| k.to_string()).collect()
}

/// `--outputs FILE`: the output of each text in the file.
pub fn outputs() {
    let p = std::env::args().nth(2).unwrap();
    let texts = std::fs::read_to_string(p).unwrap();
    let run = move || {
        let mut out = probe();
        for t in texts.split('\u{1}') {
            out.push('\u{1}');
            out.push_str(&output(t));
        }
        out
    };
    // the stack the other checks use
    let out = std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap().join().unwrap();
    print!("{}", out);
}

/// Texts that between them use every part of the compiler, and fail at every stage.
const MIXED: [&str; 26] = [
    "match _;",
    "match \"a\" : x | \"b\" : y | \"c\" : x;",
    "match (\"a\" : x) . (\"b\" : y) . \"c\" . (\"d\" : x);",
    "let x = \"a\"; let y = x . \"b\"; match x . y . (x | y);",
    "match !(/x/ \"a\" | \"b\" . x);",
    "match !(/x/ \"a\" . !(/y/ \"b\" | \"c\" . x . y) | \"d\");",
    "let f x y = x . \"b\" . y; match f \"a\" (!(/z/ _ | \"k\" . z));",
    "let t f x = f (f x); match t (/y/ \"a\" . y) \"b\";",
    "match \"one\" | \"two\" | \"four\" | \"six\" | \"nine\" | \"zero\" . (\"q\" | \"r\" | \"s\");",
    "match \"one\" | \"two\" | \"three\" | \"ten\";",
    "match (_ | \"a\" | \"b\" | \"c\" | \"d\") . \"e\";",
    "match (\"a\" . (_ | \"b\" | \"c\" | \"d\" | \"e\")) . (\"b\" | \"c\" | \"x\" | \"y\" | \"z\");",
    "match _ | _;",
    "match !(/x/ x);",
    "match !(/x/ \"a\" | x . \"b\");",
    "match x;",
    "let x = y; match x;",
    "match (",
    "match \"a\" \"b\";",
    "let f x = x; match f \"a\" \"b\";",
    "let f x = x; match f;",
    "match !\"a\";",
    "match !(/x y/ \"a\" . x);",
    "match \"a\" : é | \"b\" : É;",
    "match (\"1\" . \"2\" : p | \"3\" . \"4\" : q) . ((\"5\" | \"6\") : r);",
    "match \"a\" . \"a\" . (\"a\" | \"b\") . (\"a\" | \"b\") . !(/x/ \"b\" | \"c\" . x) . !(/x/ \"b\" | \"c\" . x);",
];

/// Texts that differ from `s` in little: one kind of change to all its names or literals, or to one.
fn near(s: &str) -> Vec<String> {
    // words and literals of the text, everything else in between
    let mut parts: Vec<(char, String)> = Vec::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let j = if c[i] == '"' {
            i + 2 + c[i + 1..].iter().position(|c| *c == '"').unwrap()
        } else if c[i].is_alphabetic() {
            i + c[i..].iter().take_while(|c| c.is_alphanumeric()).count()
        } else {
            i + 1
        };
        let w: String = c[i..j].iter().collect();
        let kind = if c[i] == '"' { 's' } else if c[i].is_alphabetic() && w != "let" && w != "match" { 'n' } else { ' ' };
        parts.push((kind, w));
        i = j;
    }
    let mut out = Vec::new();
    let mut edit = |kind: char, one: Option<usize>, f: &dyn Fn(&str) -> String| {
        let mut k = 0;
        let t: String = parts
            .iter()
            .map(|(p, w)| {
                if *p != kind {
                    return w.clone();
                }
                k += 1;
                if one.map_or(true, |o| o + 1 == k) {
                    f(w)
                } else {
                    w.clone()
                }
            })
            .collect();
        out.push(t);
    };
    let inside = |w: &str, f: &dyn Fn(&str) -> String| format!("\"{}\"", f(&w[1..w.len() - 1]));
    for one in [None, Some(0), Some(1), Some(2)] {
        edit('n', one, &|w| w.to_uppercase());
        edit('n', one, &|w| format!("{}s", w));
        edit('n', one, &|w| format!("{}_1", w));
        edit('n', one, &|w| format!("r#{}", w));
        edit('n', one, &|_| "other".into());
        edit('s', one, &|w| inside(w, &|x| x.to_uppercase()));
        edit('s', one, &|w| inside(w, &|x| format!("{}{}", x, x)));
        edit('s', one, &|w| inside(w, &|x| format!("{}!", x)));
        edit('s', one, &|_| "_".into());
        edit('s', one, &|_| "\"\"".into());
    }
    edit(' ', None, &|w| if w == " " { "\n  ".into() } else { w.into() });
    out.sort();
    out.dedup();
    out.retain(|t| t != s);
    out
}

fn texts(t: bool) -> Vec<String> {
    let mut v: Vec<String> = MIXED.iter().map(|s| s.to_string()).collect();
    v.extend(MIXED.iter().flat_map(|m| near(m)));
    for g in families::small(if t { 6 } else { 5 }, 3).iter().step_by(if t { 1 } else { 3 }) {
        v.push(families::as_program(g).text());
    }
    for g in families::small(6, 3).iter().filter(|g| gram::accepted(g)).step_by(if t { 1 } else { 5 }) {
        v.push(families::as_program(g).text());
    }
    for (_, ps) in families::programs(false) {
        let step = (ps.len() / if t { 1500 } else { 60 }).max(1);
        v.extend(ps.iter().step_by(step).filter(|p| expand(p, 400) != Err(Stop::Fuel)).map(|p| p.text()));
    }
    v.extend(edited().iter().step_by(if t { 7 } else { 97 }).filter(|e| tame(e)).map(|e| join(e, " ")));
    // many parts, many names
    for n in [5usize, 12, 25] {
        let l = |i: usize| format!("\"{}\"", (b'a' + i as u8) as char);
        for names in [["p", "p"], ["p", "q"], ["zeta", "alpha"]] {
            v.push(format!("match {};", (0..n).map(|i| format!("{} : {}", l(i), names[i % 2])).collect::<Vec<_>>().join(" | ")));
            v.push(format!("match {};", (0..n).map(|i| format!("({} : {})", l(i), names[i % 2])).collect::<Vec<_>>().join(" . ")));
            v.push(format!("match {};", (0..n).map(|i| format!("({} . {} : n{})", l(i), l((i + 1) % n), i)).collect::<Vec<_>>().join(" | ")));
            v.push(format!("{}match {};", (0..n).map(|i| format!("let d{} = {} : {}; ", i, l(i), names[i % 2])).collect::<String>(), (0..n).map(|i| format!("d{}", n - 1 - i)).collect::<Vec<_>>().join(" | ")));
        }
        // long lists of expected characters in messages
        v.push(format!("match ({}) | {};", (0..n).map(l).collect::<Vec<_>>().join(" | "), l(n / 2)));
        v.push(format!("match (\"x\" . (_ | {})) . ({});", (0..n).map(l).collect::<Vec<_>>().join(" | "), (0..n).map(l).collect::<Vec<_>>().join(" | ")));
    }
    v.sort();
    v.dedup();
    v
}

fn differ(ctx: &Ctx, text: &str, how: &str, a: &str, b: &str) {
    ctx.violation(text, format!("{:?}: the output is not always the same ({})\n  once  {}\n  again {}", text, how, a.replace('\u{2}', "\n        "), b.replace('\u{2}', "\n        ")), text);
}

pub fn run(ctx: &'static Ctx) {
    let t = ctx.thorough;
    let so = proc::shim(ctx).display().to_string();
    let me = std::env::current_exe().unwrap();
    let child = |name: &str, ts: &[String], seed: Option<usize>| -> Vec<String> {
        let p = work(&ctx.id).join(name);
        std::fs::write(&p, ts.join("\u{1}")).unwrap();
        let mut env = vec![];
        if let Some(s) = seed {
            env.push(("LD_PRELOAD", so.clone()));
            env.push(("SHIM_SEED", s.to_string()));
        }
        let o = proc::run(ctx, &me, b"", &env, &["--outputs", &p.display().to_string()]);
        let _ = std::fs::remove_file(&p);
        if o.status != Ok(0) {
            ctx.violation(&format!("crash {}", ts[0]), format!("compiling {} texts starting with {:?} in one process: {}", ts.len(), ts[0], o.show()), ts.join("\n"));
        }
        String::from_utf8_lossy(&o.out).split('\u{1}').map(|s| s.to_string()).collect()
    };
    let texts = texts(t);
    ctx.count("texts", texts.len() as u64);
    // each text alone in a process of its own
    let alone: Mutex<HashMap<usize, String>> = Mutex::default();
    par(ctx, texts.len(), 8, |i| {
        let mut o = child(&format!("alone{}", i), &texts[i..i + 1], None);
        ctx.trace(1);
        ctx.state(1);
        if o.len() == 2 {
            alone.lock().unwrap().insert(i, o.remove(1));
        }
    });
    let alone = alone.into_inner().unwrap();
    if alone.len() < texts.len() {
        ctx.exhaustive.store(false, std::sync::atomic::Ordering::SeqCst);
        return;
    }
    ctx.count("accepted", alone.values().filter(|o| o.starts_with("code ")).count() as u64);
    // hash seeds; both orders of the texts
    let seeds = if t { 1500 } else { 96 };
    let orders: Mutex<HashSet<String>> = Mutex::default();
    let back: Vec<String> = texts.iter().rev().cloned().collect();
    par(ctx, seeds, 1, |s| {
        let ts = if s % 2 == 0 { &texts } else { &back };
        let o = child(&format!("seed{}", s), ts, Some(s));
        orders.lock().unwrap().insert(o[0].clone());
        for (k, r) in o[1..].iter().enumerate() {
            let i = if s % 2 == 0 { k } else { texts.len() - 1 - k };
            ctx.trace(1);
            ctx.transition(1);
            if *r != alone[&i] {
                differ(ctx, &texts[i], &format!("hash seed {} and {} texts before it", s, k), &alone[&i], r);
            }
        }
    });
    ctx.count("hash_seeds", seeds as u64);
    ctx.fact("orders_of_a_four_element_hash_map_seen", format!("{} of 24", orders.lock().unwrap().len()));
    // histories: every sequence of mixed texts, each sequence in a thread of its own
    let mixed: Vec<usize> = MIXED.iter().map(|m| texts.iter().position(|t| t == m).unwrap()).collect();
    let n = mixed.len();
    let len = if t { 4 } else { 3 };
    let total = n.pow(len);
    ctx.count("histories", total as u64);
    par(ctx, total, 64, |mut k| {
        let seq: Vec<usize> = (0..len)
            .map(|_| {
                let i = k % n;
                k /= n;
                mixed[i]
            })
            .collect();
        ctx.state(1);
        let what = seq.iter().map(|i| texts[*i].as_str()).collect::<Vec<_>>().join("\n");
        ctx.begin(&what);
        let (s, tx) = (&seq, &texts);
        let outs = std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || s.iter().map(|i| refmodel::report::catch(|| output(&tx[*i]))).collect::<Vec<_>>()).unwrap().join()
        });
        ctx.end();
        let outs = match outs {
            Ok(o) => o,
            Err(_) => return ctx.violation(&what, format!("a history ends in a panic:\n{}", what), &what),
        };
        for (j, (i, o)) in seq.iter().zip(&outs).enumerate() {
            ctx.trace(1);
            ctx.transition(1);
            let o = o.clone().unwrap_or_else(|e| format!("panic {}", e));
            if o != alone[i] {
                differ(ctx, &texts[*i], &format!("after {:?}", seq[..j].iter().map(|i| &texts[*i]).collect::<Vec<_>>()), &alone[i], &o);
            }
        }
    });
    // each text and those that differ from it in little, before and after each other
    let at: HashMap<&str, usize> = texts.iter().enumerate().map(|(i, t)| (t.as_str(), i)).collect();
    let mut close: Vec<(usize, usize)> = Vec::new();
    for a in MIXED {
        let vs: Vec<usize> = near(a).iter().map(|v| at[v.as_str()]).chain([at[a]]).collect();
        close.extend(vs.iter().flat_map(|x| vs.iter().map(move |y| (*x, *y))));
        close.extend(vs.iter().flat_map(|x| MIXED.iter().flat_map(|b| [(*x, at[b]), (at[b], *x)]).collect::<Vec<_>>()));
    }
    ctx.count("pairs_of_close_texts", close.len() as u64);
    par(ctx, close.len(), 64, |k| {
        let (a, b) = close[k];
        let (s, tx) = ([a, b], &texts);
        ctx.begin(&texts[b]);
        let outs = std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || s.map(|i| refmodel::report::catch(|| output(&tx[i])))).unwrap().join()
        });
        ctx.end();
        ctx.transition(2);
        ctx.trace(2);
        match outs {
            Err(_) => ctx.violation(&texts[b], format!("{:?} after {:?}: panic", texts[b], texts[a]), &texts[b]),
            Ok(outs) => {
                for (i, o) in s.iter().zip(outs) {
                    let o = o.unwrap_or_else(|e| format!("panic {}", e));
                    if o != alone[i] {
                        differ(ctx, &texts[*i], &format!("{:?} then {:?}", texts[a], texts[b]), &alone[i], &o);
                    }
                }
            }
        }
    });
    // every ordered pair of all the texts, on threads that live on
    let m = texts.len();
    let step = if t { 1 } else { (m * m / 60_000).max(1) | 1 };
    ctx.count("pairs", (m * m / step) as u64);
    par(ctx, m * m / step, 64, |k| {
        let (a, b) = ((k * step) / m, (k * step) % m);
        let r = ctx.guarded(&format!("{}\n{}", texts[a], texts[b]), || (output(&texts[a]), output(&texts[b])));
        ctx.transition(2);
        ctx.trace(2);
        match r {
            Err(e) => ctx.violation(&texts[b], format!("{:?} after {:?}: panic {}", texts[b], texts[a], e), &texts[b]),
            Ok((x, y)) => {
                for (i, o, h) in [(a, x, "after many texts".to_string()), (b, y, format!("after {:?}", texts[a]))] {
                    if o != alone[&i] {
                        differ(ctx, &texts[i], &h, &alone[&i], &o);
                    }
                }
            }
        }
    });
    // the tools
    let tools: Vec<(usize, &str, usize)> = mixed.iter().flat_map(|i| ["chomp", "autonibble"].into_iter().flat_map(move |t| (0..if ctx.thorough { 200 } else { 16 }).map(move |s| (*i, t, s)))).collect();
    let firsts: Mutex<HashMap<(usize, &str), proc::Outcome>> = Mutex::default();
    par(ctx, tools.len(), 4, |k| {
        let (i, t, s) = tools[k];
        let o = proc::run(ctx, &proc::tool(t), texts[i].as_bytes(), &[("LD_PRELOAD", so.clone()), ("SHIM_SEED", s.to_string())], &[]);
        ctx.trace(1);
        ctx.transition(1);
        let first = firsts.lock().unwrap().entry((i, t)).or_insert_with(|| o.clone()).clone();
        if first != o {
            differ(ctx, &texts[i], &format!("{} with hash seed {}", t, s), &first.show(), &o.show());
        }
    });
    ctx.count("tool_runs", tools.len() as u64);
    ctx.sample(|| texts[m / 3].clone());
    ctx.sample(|| MIXED[9..12].join("  "));
}
