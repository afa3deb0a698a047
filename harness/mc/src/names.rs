//! C13: whatever the names, literals and shapes, the emitted code compiles.
use crate::emitted::{self, Def};
use crate::{pipeline, space};
use refmodel::families;
use refmodel::gram::{self, quote};
use refmodel::long;
use refmodel::report::{par, Ctx};
use refmodel::shard::{run_shards, Builder, Entry};
use refmodel::term::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

/// Names that meet the generator's own vocabulary, Rust's, or its case conversion half way.
const NASTY: [&str; 72] = [
    "x", "X", "x1", "x_1", "X1", "x11", "_x", "x_", "__x", "xY", "XY", "x_y", "part", "Part", "part1", "part_1", "branch", "Branch", "branch1", "lit", "Lit", "lit1", "cat", "cat2",
    "alt", "alt3", "fix", "fix1", "ast", "Ast", "epsilon", "Epsilon", "box", "Box", "some", "none", "ok", "err", "result", "option", "self", "Self", "super", "crate", "char", "str", "input",
    "inner", "f", "p", "parse", "Parse", "parser", "take", "take_error", "fmt", "display", "std", "chewed", "type", "fn", "r#match", "r#x", "_", "__", "_1", "_é", "é", "É", "中", "ß", "ǆ",
];

/// The ones combined in pairs and compiled in the quick tier.
const CORE: [&str; 30] = [
    "x", "X", "x1", "x_1", "xY", "part", "Part", "part1", "part_1", "branch", "branch1", "lit", "lit1", "cat", "cat2", "alt", "alt3", "fix", "ast", "epsilon", "box", "self", "Self", "type",
    "r#match", "_1", "__", "é", "É", "ß",
];

fn pairs(a: &str, b: &str) -> Vec<String> {
    let mut v = vec![
        format!("match \"1\" : {a} | \"2\" : {b} | \"3\" : {a};"),
        format!("match (\"1\" : {a}) . (\"2\" : {b}) . \"3\" . (\"4\" : {a});"),
        format!("match \"1\" . (\"2\" : {a}) . \"3\" . (\"4\" : {b}) . \"5\";"),
        format!("match \"1\" | \"2\" : {a} | \"3\" | \"4\" : {b} | \"5\";"),
        format!("let {a} = \"1\"; let {b} = \"2\" . {a}; match {a} . {b} . ({a} | {b});"),
        format!("match !(/{a}/ \"1\" . !(/{b}/ _ | \"2\" . {b}) . \"0\" . (_ | \"3\" . {a}));"),
        format!("match ((\"1\" : {a}) . \"2\") : {b} | \"3\" : {a};"),
        format!("match (\"1\" . \"2\" : {a} | \"3\" . \"4\" : {b}) . ((\"5\" | \"6\") : {a}) . (!(/{b}/ \"7\" | \"8\" . {b}) : {a});"),
    ];
    if a != b {
        v.push(format!("let {a} = /{b}/ \"0\" . {b}; match {a} \"1\" . {a} (\"2\" : {a}) . (\"3\" : {b});"));
        v.push(format!("let {a} {b} = (\"0\" : {b}) . {b}; match {a} (\"1\" : {b}) | \"2\" : {a};"));
    }
    v
}

fn letters() -> Vec<String> {
    ('a'..='z').chain('A'..='Z').map(|c| quote(&c.to_string())).collect()
}

/// `x` many times and one other name at each place; the anonymous numbering beside a name.
fn repeats(a: &str, thorough: bool) -> Vec<String> {
    let l = letters();
    let mut v = Vec::new();
    for b in [format!("{a}1"), format!("{a}_1"), format!("{a}11"), format!("{a}_1_1")] {
        for at in if thorough { vec![0, 1, 2, 6, 11, 12] } else { vec![0, 12] } {
            for sep in [" | ", " . "] {
                let p: Vec<String> = (0..13).map(|i| if sep == " | " { format!("{} : {}", l[i], if i == at { &b } else { a }) } else { format!("({} : {})", l[i], if i == at { &b } else { a }) }).collect();
                v.push(format!("match {};", p.join(sep)));
            }
        }
    }
    v
}

/// Every numbering prefix of the generator as a label among 24 parts, named or not.
fn anonymous(thorough: bool) -> Vec<String> {
    let l = letters();
    let mut v = Vec::new();
    for a in ["part", "branch", "lit", "cat", "alt", "fix", "part1", "branch1", "lit1", "lit2", "cat1", "cat2", "cat3", "alt1", "alt2", "alt3", "fix1", "fix2", "epsilon", "part_1", "part_2", "lit_1"] {
        for n in if thorough { vec![2, 3, 5, 11, 12, 24] } else { vec![2, 3, 12] } {
            for m in 0..6 {
                let on = |i: usize| match m {
                    0 => i == 0,
                    1 => i + 1 == n,
                    2 => i % 2 == 0,
                    3 => i % 2 == 1,
                    4 => i > 0,
                    _ => i != n / 2,
                };
                let alt: Vec<String> = (0..n).map(|i| if on(i) { format!("{} : {}", l[i], a) } else { l[i].clone() }).collect();
                let cat: Vec<String> = (0..n).map(|i| if on(i) { format!("({} : {})", l[i], a) } else { l[i].clone() }).collect();
                v.push(format!("match {};", alt.join(" | ")));
                v.push(format!("match {};", cat.join(" . ")));
                // nested pairs, some with the name
                let inner = |i: usize, op: &str| format!("({} {} {})", l[2 * i], op, l[2 * i + 1]);
                if n <= 12 {
                    let c: Vec<String> = (0..n).map(|i| if on(i) { format!("({} : {})", inner(i, "."), a) } else { inner(i, "|") }).collect();
                    v.push(format!("match {};", c.join(" . ")));
                    let c: Vec<String> = (0..n).map(|i| if on(i) { format!("{} : {}", inner(i, "."), a) } else { inner(i, ".") }).collect();
                    v.push(format!("match {};", c.join(" | ")));
                }
            }
        }
    }
    v
}

fn nests() -> Vec<String> {
    let mut v = Vec::new();
    for n in [1, 2, 3, 5, 10, 20, 40] {
        let mut t = "\"a\"".to_string();
        let mut u = "\"a\"".to_string();
        let mut w = "\"a\"".to_string();
        let mut f = "\"a\"".to_string();
        let mut lets = String::from("let d0 = \"a\"; ");
        for i in 1..=n {
            t = format!("(\"b\" . {t} : n{})", i % 3);
            u = format!("(\"{}\" . {u} | \"{}\" : alt)", (b'b' + (i % 5) as u8) as char, (b'h' + (i % 5) as u8) as char);
            w = format!("({w} . (\"{}\" : part))", (b'b' + (i % 20) as u8) as char);
            f = format!("!(/x{i}/ \"{}\" . {f} . (_ | \"{}\" . x{}))", (b'b' + (i % 7) as u8) as char, (b'k' + (i % 7) as u8) as char, 1.max(i));
            if i <= 12 {
                lets.push_str(&format!("let d{i} = d{} . \"{}\" . d{}; ", i - 1, (b'b' + i as u8) as char, i - 1));
            }
        }
        v.push(format!("match {t};"));
        v.push(format!("match {u};"));
        v.push(format!("match {w};"));
        v.push(format!("match {f};"));
        v.push(format!("{lets}match d{};", n.min(12)));
    }
    // long sequences and alternations
    let l = letters();
    for n in [13, 26, 52] {
        v.push(format!("match {};", l[..n].join(" . ")));
        v.push(format!("match {};", l[..n].join(" | ")));
        v.push(format!("match {} . {};", l[..n].join(" . "), l[..n].iter().map(|x| format!("({x} : x)")).collect::<Vec<_>>().join(" . ")));
        v.push(format!("match {};", vec!["\"a\""; n * 4].join(" . ")));
    }
    v
}

/// Many parts and many definitions, under one name, two names, numbered names and long names.
fn long_named(thorough: bool) -> Vec<String> {
    let mut v = Vec::new();
    let long = "abcde_fgh_X9z".repeat(40);
    let widths: &[usize] = if thorough { &[60, 99, 100, 101, 128, 200, 255, 256, 257, 300] } else { &[60, 101, 257] };
    for &n in widths {
        let l: Vec<String> = (0..n).map(|i| quote(&long::letter(i))).collect();
        let named: [&dyn Fn(usize) -> String; 7] = [
            &|_| "x".into(),
            &|i| ["x", "y"][i % 2].into(),
            &|i| format!("x{}", i),
            &|i| format!("x{}", n - i),
            &|i| format!("x_{}", i * 7 % n),
            &|_| long.clone(),
            &|i| format!("{}{}", long, i),
        ];
        for f in named {
            v.push(format!("match {};", (0..n).map(|i| format!("{} : {}", l[i], f(i))).collect::<Vec<_>>().join(" | ")));
            v.push(format!("match {};", (0..n).map(|i| format!("({} : {})", l[i], f(i))).collect::<Vec<_>>().join(" . ")));
            // only every third part has a name
            v.push(format!("match {};", (0..n).map(|i| if i % 3 == 0 { format!("({} : {})", l[i], f(i)) } else { l[i].clone() }).collect::<Vec<_>>().join(" . ")));
            v.push(format!("match {};", (0..n).map(|i| if i % 3 == 0 { format!("{} : {}", l[i], f(i)) } else { l[i].clone() }).collect::<Vec<_>>().join(" | ")));
            // parts that are types of their own
            let m = n / 3;
            v.push(format!("match {};", (0..m).map(|i| format!("({} . {}) : {}", l[i], l[m + i], f(i))).collect::<Vec<_>>().join(" | ")));
            v.push(format!("match {};", (0..m).map(|i| format!("(({} | {}) : {})", l[i], l[m + i], f(i))).collect::<Vec<_>>().join(" . ")));
            v.push(format!("match {};", (0..m).map(|i| format!("(!(/r/ {} | {} . r) : {})", l[i], l[m + i], f(i))).collect::<Vec<_>>().join(" . ")));
            // definitions
            let lets: String = (0..m).map(|i| format!("let {}d{} = {} . {}; ", f(i), i, l[i], l[m + i])).collect();
            v.push(format!("{}match {};", lets, (0..m).map(|i| format!("{}d{}", f(i), i)).collect::<Vec<_>>().join(" | ")));
            v.push(format!("{}match {};", lets, (0..m).map(|i| format!("{}d{}", f(i), i)).collect::<Vec<_>>().join(" . ")));
        }
    }
    v
}

fn literals(thorough: bool) -> Vec<String> {
    let mut cs: Vec<char> = (0..0x180u32).filter_map(char::from_u32).collect();
    for c in [
        0x300, 0x301, 0x345, 0x378, 0x5d0, 0x61c, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202a, 0x202b, 0x202c, 0x202d, 0x202e, 0x2060, 0x2066, 0x2067, 0x2068, 0x2069, 0x20ac,
        0x3000, 0xac00, 0xd7ff, 0xe000, 0xfdd0, 0xfe0f, 0xfeff, 0xfff9, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1f3fb, 0xe0001, 0xe0100, 0xf0000, 0x10fffd, 0x10ffff,
    ] {
        cs.push(char::from_u32(c).unwrap());
    }
    if thorough {
        cs.extend((0x180..0x3100u32).filter_map(char::from_u32));
    }
    let mut v = Vec::new();
    for c in &cs {
        let s = c.to_string();
        v.push(format!("match {} : p | {} . \"q\";", quote(&s), quote(&format!("{0}{0}", if *c == 'q' { 'r' } else { *c }).replace(*c, "r"))));
        v.push(format!("match {} . {};", quote(&format!("a{s}")), quote(&format!("{s}{s}\u{301}"))));
    }
    for s in ["{", "}", "{}", "{0}", "{{", "\\", "\\\\", "\"", "\\\"", "'", "\\n", "\n", "\r\n", "\0", "*/", "/*", "//", "\u{7f}", "r#\"", "\"#", "#", "$", "$x", "${x}", "\t", "%s", "`"] {
        v.push(format!("match {};", quote(s)));
        v.push(format!("match {} | \"y\" . {};", quote(&format!("x{s}")), quote(&format!("{s}{s}"))));
    }
    v.push(format!("match {};", quote(&"long ".repeat(400))));
    v
}

/// Duplicate or malformed definitions: such code is always given to the Rust compiler.
fn suspicious(code: &str) -> Option<String> {
    let t = match emitted::read(code) {
        Ok(t) => t,
        Err(e) => return Some(e),
    };
    let known = |n: &String| n == "Epsilon" || t.0.contains_key(n);
    for (n, d) in &t.0 {
        let parts: Vec<(Option<&String>, &String)> = match d {
            Def::Unit => vec![],
            Def::Tuple(v) => v.iter().map(|t| (None, t)).collect(),
            Def::Rec(v) | Def::Enum(v) => v.iter().map(|(n, t)| (Some(n), t)).collect(),
            Def::Alias(t) => vec![(None, t)],
        };
        let mut seen = HashSet::new();
        for (p, ty) in parts {
            if !known(ty) {
                return Some(format!("{} is not defined", ty));
            }
            if let Some(p) = p {
                if !seen.insert(p) {
                    return Some(format!("{} has two parts {}", n, p));
                }
            }
        }
    }
    if !t.0.contains_key("Ast") {
        return Some("no Ast".into());
    }
    if t.endless() {
        return Some("a type that holds itself".into());
    }
    None
}

/// Every character that can be part of a name.
fn name_chars() -> (Vec<char>, Vec<char>) {
    let ok = |s: String| syn::parse_str::<proc_macro2::Ident>(&s).is_ok();
    let all: Vec<char> = (0x80..=0x10ffffu32).filter_map(char::from_u32).filter(|c| ok(format!("a{c}"))).collect();
    let pick = {
        // where ranges end, and where case conversion does something
        let mut v = Vec::new();
        for (i, c) in all.iter().enumerate() {
            let edge = i == 0 || i + 1 == all.len() || all[i - 1] as u32 + 1 != *c as u32 || all[i + 1] as u32 != *c as u32 + 1;
            let up: Vec<char> = c.to_uppercase().collect();
            let lo: Vec<char> = c.to_lowercase().collect();
            let multi = up.len() > 1 || lo.len() > 1;
            if multi || edge {
                v.push(*c);
            }
        }
        v
    };
    (all, pick)
}

struct Family {
    name: &'static str,
    texts: Vec<String>,
    /// give every emitted program to the Rust compiler, not only suspicious ones
    build: bool,
    many: bool,
}

/// Families of which only one program of each shape of code goes to the Rust compiler.
const MANY: [&str; 13] = [
    "labelled_terms",
    "goals",
    "goals_three_parameters",
    "well_formed",
    "one_definition",
    "two_definitions",
    "parameters_under_fixed_points",
    "higher_order",
    "chains",
    "labels",
    "labels_one_definition",
    "many_parameters",
    "deep",
];

fn families_of(thorough: bool) -> Vec<Family> {
    let mut out = Vec::new();
    let mut f = |name, build, texts| out.push(Family { name, many: MANY.contains(&name), texts, build });
    let mut core = Vec::new();
    let mut all = Vec::new();
    for a in NASTY {
        for b in NASTY {
            let into = if CORE.contains(&a) && CORE.contains(&b) || a == b { &mut core } else { &mut all };
            into.extend(pairs(a, b));
        }
    }
    f("pairs_of_names", true, core);
    f("more_pairs_of_names", thorough, all);
    f("repeated_names", true, NASTY.iter().flat_map(|a| repeats(a.trim_start_matches("r#"), thorough)).collect());
    f("generated_names", true, anonymous(thorough));
    f("nested_and_shared", true, nests());
    f("literals", true, literals(thorough));
    // names equal after normalisation
    f("normalised_names", true, vec!["match \"a\" : \u{e9} | \"b\" : e\u{301};".into()]);
    // small labelled programs
    let mut e = TermEnum::new(TermSpace {
        atoms: vec![U::Eps, ulit("a")],
        cat: true,
        alt: true,
        fix: true,
        lams: vec![1],
        calls: vec![],
        labs: ["lit", "part", "branch", "fix"].iter().map(|s| s.to_string()).collect(),
    });
    let ps: Vec<String> = e.up_to(if thorough { 7 } else { 6 }, 0).into_iter().map(|u| spread(&Prog::goal(u)).text()).collect();
    f("labelled_terms", thorough, ps);
    // the accepted core grammars
    let gs: Vec<String> = space::dedup(families::small(if thorough { 7 } else { 6 }, 3)).into_iter().filter(gram::accepted).map(|g| families::as_program(&g).text()).collect();
    f("core_grammars", true, gs);
    f("long", true, long::family(thorough).iter().map(|(_, g)| families::as_program(g).text()).collect());
    f("long_named", true, long_named(thorough));
    for (n, ps) in families::programs(false) {
        f(n, thorough, ps.into_iter().filter(|p| expand(p, 400).is_ok_and(|x| x.1.is_empty() && gram::accepted(&x.0))).map(|p| p.text()).collect());
    }
    let (all, pick) = name_chars();
    let forms = |c: &char| [format!("{c}"), format!("_{c}"), format!("a{c}"), format!("a_{c}"), format!("{c}a"), format!("{c}{c}")];
    let names = |cs: &[char]| -> Vec<String> {
        let mut v = Vec::new();
        for c in cs {
            for n in forms(c) {
                v.push(format!("match \"1\" : {n} | \"2\" . (\"3\" : {n});"));
            }
        }
        v
    };
    // ideographs and syllables, which have no case, in one form
    let plain = |c: &char| matches!(*c as u32, 0x3400..=0x9fff | 0xac00..=0xd7a3 | 0x20000..=0x3ffff);
    let cased: Vec<char> = all.iter().copied().filter(|c| thorough || !plain(c)).collect();
    f("name_characters", false, names(&cased));
    f("caseless_name_characters", false, all.iter().filter(|c| !thorough && plain(c)).map(|c| format!("match \"1\" : _{c} | \"2\" . (\"3\" : a_{c});")).collect());
    // many names in one program to save time
    let l = letters();
    let some = if thorough { &all } else { &pick };
    // compatibility ideographs and letters that are themselves doubled letters (U+16D68) one by
    // one: many are the same after normalisation, which is a finding of its own
    let (alone, some): (Vec<char>, Vec<char>) = some.iter().partition(|c| matches!(**c as u32, 0xf900..=0xfaff | 0x16d60..=0x16d6f | 0x2f800..=0x2fa1f));
    let packed = some.chunks(8).chain(alone.chunks(1)).map(|cs| format!("match {};", cs.iter().flat_map(forms).filter(|n| syn::parse_str::<proc_macro2::Ident>(n).is_ok()).zip(&l).map(|(n, l)| format!("{l} : {n}")).collect::<Vec<_>>().join(" | "))).collect();
    f("name_characters_compiled", true, packed);
    out
}

/// Distinct literals in order, so that alternations are accepted.
fn spread(p: &Prog) -> Prog {
    fn go(u: &U, next: &mut u8) -> U {
        let mut all = |v: &Vec<U>| v.iter().map(|u| go(u, next)).collect::<Vec<_>>();
        match u {
            U::Lit(_) => {
                *next += 1;
                ulit(&((b'a' + *next - 1) as char).to_string())
            }
            U::Cat(v) => U::Cat(all(v)),
            U::Alt(v) => U::Alt(all(v)),
            U::Call(h, v) => {
                let h = go(h, next);
                U::Call(Box::new(h), v.iter().map(|u| go(u, next)).collect())
            }
            U::Fix(b) => ufix(go(b, next)),
            U::Lam(n, b) => lam(*n, go(b, next)),
            U::Lab(b, l) => lab(go(b, next), l),
            u => u.clone(),
        }
    }
    let mut k = 0;
    Prog { lets: p.lets.iter().map(|u| go(u, &mut k)).collect(), goal: go(&p.goal, &mut k) }
}

/// The code without what its string and character literals contain, hashed.
fn shape(code: &str) -> u64 {
    let mut h = DefaultHasher::new();
    let mut it = code.chars().peekable();
    while let Some(c) = it.next() {
        c.hash(&mut h);
        if c == '"' || c == '\'' && !matches!(it.peek(), Some('_')) {
            while let Some(d) = it.next() {
                if d == '\\' {
                    it.next();
                } else if d == c {
                    break;
                }
            }
        }
    }
    h.finish()
}

pub fn run(ctx: &'static Ctx) {
    let seen: Mutex<HashSet<u64>> = Mutex::default();
    let built: Mutex<HashSet<u64>> = Mutex::default();
    let mut entries: Vec<Entry> = Vec::new();
    let mut plain: Vec<Entry> = Vec::new();
    for f in families_of(ctx.thorough) {
        let out: Mutex<Vec<(usize, Entry)>> = Mutex::default();
        let (ok, susp) = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
        par(ctx, f.texts.len(), 32, |i| {
            let text = &f.texts[i];
            let code = match ctx.guarded(text, || pipeline::compile(text)) {
                Err(e) => {
                    ctx.violation(&format!("panic {}", text), format!("the compiler panics on {}: {}", text, e), text);
                    return;
                }
                Ok(Err(_)) => return,
                Ok(Ok(c)) => c,
            };
            ok.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            ctx.state(1);
            ctx.transition(1);
            let mut h = DefaultHasher::new();
            code.hash(&mut h);
            let h = h.finish();
            let first = seen.lock().unwrap().insert(h);
            let bad = if first { suspicious(&code) } else { None };
            if bad.is_some() {
                susp.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            // of the many programs, one of each shape
            let h = if f.many { shape(&code) } else { h };
            if (f.build || bad.is_some()) && built.lock().unwrap().insert(h) {
                out.lock().unwrap().push((i, Entry { spec: String::new(), code, text: text.clone(), as_char: false }));
            }
        });
        ctx.count(&format!("accepted_{}", f.name), ok.into_inner());
        ctx.count("suspicious", susp.into_inner());
        ctx.fact(&format!("after_s_{}", f.name), ctx.ms() / 1000);
        let mut es = out.into_inner().unwrap();
        es.sort_by_key(|e| e.0);
        ctx.count(&format!("built_{}", f.name), es.len() as u64);
        if let Some(e) = es.last() {
            ctx.sample(|| e.1.text.chars().take(200).collect());
        }
        // what derives add does not depend on names
        let to = if !ctx.thorough && f.name.contains("name") { &mut plain } else { &mut entries };
        to.extend(es.into_iter().map(|e| e.1));
    }
    ctx.fact("rustc", "every listed program type-checked with the emitted code in a module of its own, lints at their defaults");
    let t = std::time::Instant::now();
    for (detail, es) in [(true, &entries), (false, &plain)] {
        run_shards(ctx, &Builder { mode: "C13".into(), detail, batch: 120, macro_lib: None, must_compile: true, check_only: true }, es);
    }
    ctx.fact("rustc_s", t.elapsed().as_secs());
}
