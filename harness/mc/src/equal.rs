//! C25: grammars as values. Every pair of grammars of a group is compared, with the answer read off
//! a structural walk of both.
use crate::{pipeline, shape::FREE, space};
use chomp::chomp::{
    ast::{Expression, NamedExpression},
    name::{Content, Name},
    typed::{
        lower::{Backend, GenerateCode},
        Alt, Cat, Epsilon, Fix, Literal, Type, Typed, TypedExpression, Variable,
    },
};
use chomp::nibble::{convert::{Context, Convert}, Statement};
use proc_macro2::{Ident, Span};
use refmodel::report::{par, Ctx};
use refmodel::syntax::{self, alphabet, edits, lex, Tok, PROGRAMS};
use refmodel::term::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// The constructs of an expression, with the names of binders and without the names of parts.
fn skeleton(e: &NamedExpression, o: &mut String) {
    fn list<'a>(k: char, v: impl Iterator<Item = &'a NamedExpression>, o: &mut String) {
        o.push(k);
        for e in v {
            o.push(' ');
            skeleton(e, o);
        }
        o.push(')');
    }
    match &e.expr {
        Expression::Epsilon(_) => o.push('_'),
        Expression::Literal(l) => {
            let _ = write!(o, "{:?}", l);
        }
        Expression::Variable(v) => {
            let _ = write!(o, "${}", v.index);
        }
        Expression::Cat(c) => list('.', std::iter::once(&*c.first).chain(c.rest.iter().map(|r| &r.1)), o),
        Expression::Alt(c) => list('|', std::iter::once(&*c.first).chain(c.rest.iter().map(|r| &r.1)), o),
        Expression::Call(c) => list('@', std::iter::once(&*c.on).chain(c.args.iter()), o),
        Expression::Fix(f) => list('!', std::iter::once(&*f.inner), o),
        Expression::Lambda(l) => {
            o.push('/');
            for a in &l.args {
                let _ = write!(o, "{} ", a);
            }
            list('/', std::iter::once(&*l.inner), o)
        }
        Expression::Let(l) => {
            let _ = write!(o, "let {}", l.name);
            list('=', [&*l.bound, &*l.body].into_iter(), o)
        }
    }
}

/// A name and what it is the name of.
fn named(n: &Option<Name>) -> String {
    match n {
        None => String::new(),
        Some(n) => {
            // a label wins over a definition, which wins over a variable
            let wins = |over: Name| Name::merge(Some(over), Some(n.clone())).map_or(false, |w| w.to_string() != "other");
            let kind = if wins(Name::new_let("other".to_string())) {
                "label"
            } else if wins(Name::new_variable("other".to_string())) {
                "let"
            } else {
                "variable"
            };
            format!("<{} {}>", kind, n)
        }
    }
}

fn summary(t: &Type) -> String {
    let first: Vec<char> = t.first_set().clone().into_iter().collect();
    let flast: Vec<char> = t.flast_set().clone().into_iter().collect();
    format!("{} {:?} {:?}", t.nullable(), first, flast)
}

/// Writes typed grammars down with their names.
#[derive(Default)]
struct Down(Vec<Type>);

impl Backend for Down {
    type Id = String;
    type Code = String;
    fn gen_epsilon(&mut self, n: Option<Name>, _: Span, e: Epsilon) -> String {
        self.0.push(e.get_type().clone());
        format!("_{}", named(&n))
    }
    fn gen_literal(&mut self, n: Option<Name>, _: Span, l: Literal) -> String {
        self.0.push(l.get_type().clone());
        format!("{:?}{}", l.inner(), named(&n))
    }
    fn gen_cat(&mut self, n: Option<Name>, _: Span, c: Cat) -> String {
        self.0.push(c.get_type().clone());
        let v: Vec<String> = c.into_iter().map(|x| x.gen(self)).collect();
        format!("({}){}", v.join(" . "), named(&n))
    }
    fn gen_alt(&mut self, n: Option<Name>, _: Span, a: Alt) -> String {
        self.0.push(a.get_type().clone());
        let v: Vec<String> = a.into_iter().map(|x| x.gen(self)).collect();
        format!("({}){}", v.join(" | "), named(&n))
    }
    fn gen_fix(&mut self, n: Option<Name>, _: Span, f: Fix) -> String {
        self.0.push(f.get_type().clone());
        let b = f.unwrap().gen(self);
        format!("!({}){}", b, named(&n))
    }
    fn gen_variable(&mut self, n: Option<Name>, _: Span, v: Variable) -> String {
        self.0.push(v.get_type().clone());
        format!("${}{}", v.index(), named(&n))
    }
    fn emit_code(self, _: Option<Name>, _: Span, id: String) -> String {
        id
    }
}

fn resolve(text: &str) -> Option<NamedExpression> {
    let s: Statement = syn::parse_str(text).ok()?;
    let mut c = Context::default();
    for n in FREE {
        c.push_variable(Name::new_variable(n.to_string()));
    }
    s.convert(&mut c).ok()
}

/// All pairs of `vs`, each value with the text it came from and its written-down structure.
fn pairs<T: Eq>(ctx: &Ctx, what: &str, from: std::ops::Range<usize>, vs: &[(String, String, T)], relaid: &[(String, String, T)], h: impl Fn(&T) -> Option<u64>) {
    let hs: Vec<Option<u64>> = vs.iter().map(|v| h(&v.2)).collect();
    let hr: Vec<Option<u64>> = relaid.iter().map(|v| h(&v.2)).collect();
    for i in from {
        ctx.state(1);
        for other in [vs, relaid] {
            for (j, (tj, cj, vj)) in other.iter().enumerate() {
                let (ti, ci, vi) = &vs[i];
                ctx.transition(1);
                let same = ci == cj;
                let key = format!("{} {} / {}", what, ti, tj);
                if (vi == vj) != same || (vi != vj) == same {
                    ctx.violation(&key, format!("{}: {:?} and {:?}\n  compare as {} but have the structures {} and {}", what, ti, tj, if vi == vj { "equal" } else { "different" }, ci, cj), &key);
                } else if same && hs[i] != if std::ptr::eq(other, vs) { hs[j] } else { hr[j] } {
                    ctx.violation(&key, format!("{}: {:?} and {:?} are equal but hash differently", what, ti, tj), &key);
                }
            }
        }
        ctx.trace(2 * vs.len() as u64);
    }
}

const CHUNK: usize = 64;

fn relaid(text: &str) -> String {
    // nothing but the places changes: these texts have no blanks in their literals that matter
    format!("// \u{e9}\n\n   {} // end", text)
}

fn resolved(ctx: &'static Ctx, name: &str, group: &[String]) {
    expressions(ctx, "resolved", name, group, &resolve)
}

/// The same grammars with definitions and applications expanded.
fn expanded(ctx: &'static Ctx, name: &str, group: &[String]) {
    let expand = |t: &str| pipeline::expand(resolve(t)?).ok();
    let group: Vec<String> = group.iter().filter(|t| expand(t).is_some()).cloned().collect();
    expressions(ctx, "expanded", name, &group, &expand)
}

fn expressions(ctx: &'static Ctx, what: &str, name: &str, group: &[String], resolve: &(dyn Fn(&str) -> Option<NamedExpression> + Sync)) {
    ctx.count(&format!("{}_{}", what, name), group.len() as u64);
    if let Some(t) = group.last() {
        ctx.sample(|| t.clone());
    }
    par(ctx, group.len().div_ceil(CHUNK), 1, |c| {
        let build = |f: &dyn Fn(&str) -> String| -> Vec<(String, String, NamedExpression)> {
            group
                .iter()
                .map(|t| {
                    let e = resolve(&f(t)).unwrap_or_else(|| panic!("{:?} is not read", f(t)));
                    let mut s = String::new();
                    skeleton(&e, &mut s);
                    (t.clone(), s, e)
                })
                .collect()
        };
        let (a, b) = (build(&|t| t.to_string()), build(&relaid));
        let to = ((c + 1) * CHUNK).min(a.len());
        for (t, s, e) in &a[c * CHUNK..to] {
            let copy = e.clone();
            let mut again = String::new();
            skeleton(&copy, &mut again);
            if copy != *e || again != *s || copy.name != e.name {
                ctx.violation(t, format!("a copy of {:?} differs from it", t), t);
            }
        }
        pairs(ctx, what, c * CHUNK..to, &a, &b, |_| None);
    });
}

fn typed(ctx: &'static Ctx, name: &str, group: &[String]) {
    let mk = |t: &str| pipeline::infer(pipeline::expand(pipeline::resolve(pipeline::read(t).ok()?).ok()?).ok()?).ok();
    let group: Vec<&String> = group.iter().filter(|t| mk(t).is_some()).collect();
    ctx.count(&format!("typed_{}", name), group.len() as u64);
    if let Some(t) = group.last() {
        ctx.sample(|| t.to_string());
    }
    let texts: Vec<String> = group.into_iter().cloned().collect();
    par(ctx, texts.len().div_ceil(CHUNK), 1, |c| {
        let build = |f: &dyn Fn(&str) -> String| -> Vec<(String, String, TypedExpression)> {
            texts
                .iter()
                .map(|t| {
                    let e = mk(&f(t)).unwrap_or_else(|| panic!("{:?} is not accepted", f(t)));
                    (t.clone(), e.clone().gen(&mut Down::default()), e)
                })
                .collect()
        };
        let (a, b) = (build(&|t| t.to_string()), build(&relaid));
        let to = ((c + 1) * CHUNK).min(a.len());
        pairs(ctx, "typed", c * CHUNK..to, &a, &b, |e| Some(hash(e)));
    });
    // the summaries met on the way
    let mut seen = BTreeSet::new();
    let mut types = Vec::new();
    for t in &texts {
        let mut d = Down::default();
        mk(t).unwrap().gen(&mut d);
        for ty in d.0 {
            let s = summary(&ty);
            if seen.insert(s.clone()) && types.len() < 3000 {
                types.push((s.clone(), s, ty));
            }
        }
    }
    ctx.count(&format!("summaries_{}", name), types.len() as u64);
    let copies: Vec<_> = types.clone();
    pairs(ctx, "summary", 0..types.len(), &types, &copies, |t| Some(hash(t)));
    let (mut fi, mut fl) = (Vec::new(), Vec::new());
    let (mut si, mut sl) = (BTreeSet::new(), BTreeSet::new());
    for (_, _, ty) in &types {
        let a = format!("{:?}", ty.first_set().clone().into_iter().collect::<Vec<char>>());
        if si.insert(a.clone()) {
            fi.push((a.clone(), a, ty.first_set().clone()));
        }
        let a = format!("{:?}", ty.flast_set().clone().into_iter().collect::<Vec<char>>());
        if sl.insert(a.clone()) {
            fl.push((a.clone(), a, ty.flast_set().clone()));
        }
    }
    pairs(ctx, "first set", 0..fi.len(), &fi, &fi.clone(), |t| Some(hash(t)));
    pairs(ctx, "flast set", 0..fl.len(), &fl, &fl.clone(), |t| Some(hash(t)));
}

fn names(ctx: &'static Ctx) {
    let words: Vec<String> = ["a", "b", "A", "ab", "a1", "a_b", "aB", "\u{e9}", "\u{4e2d}", "x", "_x", "Ast"].iter().map(|s| s.to_string()).chain([63, 64, 65].map(|n| "n".repeat(n))).collect();
    let mut v: Vec<(String, String, Name)> = Vec::new();
    let mut contents: Vec<(String, String, Content)> = Vec::new();
    for w in &words {
        for spanned in [true, false] {
            let c = || -> Content { if spanned { Ident::new(w, Span::call_site()).into() } else { w.clone().into() } };
            contents.push((format!("{} {}", w, spanned), w.clone(), c()));
            for (k, n) in [("label", Name::new_label(c())), ("let", Name::new_let(c())), ("variable", Name::new_variable(c()))] {
                v.push((format!("{} {} {}", k, w, spanned), format!("{} {}", k, w), n));
            }
            for o in &words {
                if (c() == o.as_str()) != (o == w) || c().to_string() != *w {
                    ctx.violation(w, format!("the name {:?} compared with the text {:?}, prints as {}", w, o, c()), w);
                }
            }
        }
    }
    ctx.count("names", v.len() as u64);
    pairs(ctx, "name", 0..v.len(), &v, &v.clone(), |n| Some(hash(n)));
    pairs(ctx, "content", 0..contents.len(), &contents, &contents.clone(), |n| Some(hash(n)));
}

pub fn run(ctx: &'static Ctx) {
    let t = ctx.thorough;
    let terms = |atoms: &[&str], lams: &[usize], calls: &[usize], labs: &[&str]| {
        TermEnum::new(TermSpace {
            atoms: atoms.iter().map(|a| if a.is_empty() { U::Eps } else { ulit(a) }).collect(),
            cat: true,
            alt: true,
            fix: true,
            lams: lams.to_vec(),
            calls: calls.to_vec(),
            labs: labs.iter().map(|s| s.to_string()).collect(),
        })
    };
    let text = |u: &U| Prog::goal(u.clone()).text();
    names(ctx);
    // every small goal
    let v: Vec<String> = terms(&["a", "b", ""], &[1, 2], &[1, 2], &["p"]).up_to(if t { 5 } else { 4 }, 0).iter().map(text).collect();
    resolved(ctx, "goals", &v);
    // definitions
    let bs = terms(&["a", ""], &[1], &[1], &["p"]).up_to(3, 0);
    let gs = terms(&["a"], &[1], &[1], &["p"]).up_to(if t { 4 } else { 3 }, 1);
    let mut v = Vec::new();
    for b in &bs {
        for g in &gs {
            v.push(Prog { lets: vec![b.clone()], goal: g.clone() }.text());
        }
    }
    resolved(ctx, "definitions", &v);
    expanded(ctx, "definitions", &v);
    // one change away from longer programs
    let mut al = alphabet();
    al.extend(["y", "b"].map(Tok::id));
    al.push(Tok::str("b"));
    for (k, p) in PROGRAMS.iter().enumerate() {
        let base = lex(p);
        let mut v: Vec<String> = std::iter::once(base.clone()).chain(edits(&base, &al)).map(|e| e.iter().map(Tok::text).collect::<Vec<_>>().join(" ")).filter(|t| resolve(t).is_some()).collect();
        v.sort();
        v.dedup();
        resolved(ctx, &format!("edits_of_program_{}", k), &v);
    }
    // long ones that differ in one place
    let mut groups: std::collections::BTreeMap<(&str, usize), BTreeSet<String>> = Default::default();
    for (kind, toks) in syntax::long_programs(t) {
        let size = toks.len().next_power_of_two();
        let text = toks.iter().map(Tok::text).collect::<Vec<_>>().join(" ");
        if size <= if t { 4096 } else { 1024 } && resolve(&text).is_some() {
            groups.entry((kind, size)).or_default().insert(text);
        }
    }
    for ((kind, size), v) in groups {
        resolved(ctx, &format!("{}_{}", kind, size), &v.into_iter().collect::<Vec<_>>());
    }
    // literals
    let mut lits: Vec<String> = vec![String::new(), "ab".into(), "ba".into(), "aa".into(), "a\0".into(), "a ".into(), " a".into(), "e\u{301}".into(), "\u{e9}".into()];
    lits.extend(refmodel::families::ODD.iter().flat_map(|c| [c.to_string(), format!("{}a", c), format!("a{}", c)]));
    for n in [31, 32, 33, 64, 65, 257] {
        lits.push("l".repeat(n));
        lits.push(format!("{}m", "l".repeat(n - 1)));
    }
    let v: Vec<String> = lits.iter().map(|l| format!("match {};", refmodel::gram::quote(l))).collect();
    resolved(ctx, "literals", &v);
    typed(ctx, "literals", &v);

    // typed grammars
    let v: Vec<String> = terms(&["a", "b", ""], &[], &[], &["p", "q"]).up_to(if t { 6 } else { 5 }, 0).iter().map(text).collect();
    typed(ctx, "labels", &v);
    let v: Vec<String> = terms(&["a", "b", ""], &[1], &[], &["p"]).up_to(if t { 7 } else { 6 }, 0).iter().filter(|u| has_fix(u)).map(text).collect();
    typed(ctx, "fixed_points", &v);
    let mut v = space::dedup(space::small(if t { 6 } else { 5 }, 3));
    v.extend(space::types(false).into_iter().step_by(if t { 7 } else { 31 }));
    let v: Vec<String> = v.iter().map(|g| g.program()).collect();
    typed(ctx, "grammars", &v);
    let mut v = Vec::new();
    for bound in ["\"a\"", "\"a\" : p", "(\"a\" : p) : q", "\"b\"", "\"a\" : q", "/x/ x", "/p/ p", "/q/ q", "/x/ x : p"] {
        for def in ["p", "q", "r"] {
            for goal in ["D", "D : p", "D : q", "D . \"c\"", "(D : p) . \"c\"", "(D : q) . \"c\"", "\"c\" | D", "\"c\" | D : p", "D \"a\"", "D \"a\" . \"c\"", "(D \"a\" : p) . \"c\"", "\"c\" . D (\"a\" : q)", "!(/p/ D | \"c\" . p)", "!(/q/ D | \"c\" . q)", "!(/q/ D : p | \"c\" . (q : p))"] {
                v.push(format!("let {} = {}; match {};", def, bound, goal.replace('D', def)));
            }
        }
    }
    resolved(ctx, "names_of_parts", &v);
    expanded(ctx, "names_of_parts", &v);
    typed(ctx, "names_of_parts", &v);
    // wide ones with one part of another kind or name
    for n in if t { vec![9, 17, 33, 65, 130, 300] } else { vec![17, 33, 65] } {
        for alt in [false, true] {
            let mut v = Vec::new();
            for i in 0..n {
                for k in 0..5 {
                    let parts: Vec<String> = (0..n)
                        .map(|j| {
                            let c = |k: usize| format!("\"{}\"", char::from_u32(0x4e00 + k as u32).unwrap());
                            match (i == j, k) {
                                (true, 0) => c(n),
                                (true, 1) => format!("({} : p)", c(j)),
                                (true, 2) => format!("({} . \"z\")", c(j)),
                                (true, 3) => format!("({} : q)", c(j)),
                                _ => c(j),
                            }
                        })
                        .collect();
                    if k < 4 || i == 0 {
                        v.push(format!("match {};", parts.join(if alt { " | " } else { " . " })));
                    }
                }
            }
            if n > 100 {
                let keep: Vec<String> = v.into_iter().step_by(5).collect();
                v = keep;
            }
            resolved(ctx, &format!("wide_{}_{}", if alt { "alternations" } else { "sequences" }, n), &v);
            typed(ctx, &format!("wide_{}_{}", if alt { "alternations" } else { "sequences" }, n), &v);
        }
    }
}

fn has_fix(u: &U) -> bool {
    match u {
        U::Fix(_) => true,
        U::Cat(v) | U::Alt(v) => v.iter().any(has_fix),
        U::Lam(_, b) | U::Lab(b, _) => has_fix(b),
        U::Call(h, a) => has_fix(h) || a.iter().any(has_fix),
        _ => false,
    }
}
