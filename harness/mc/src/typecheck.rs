//! C06 and C07: the type checker against the typing rules and against the denotation.
use crate::{pipeline, space};
use chomp::chomp::{
    name::Name,
    typed::{
        lower::{Backend, GenerateCode},
        Alt, Cat, Epsilon, Fix, Literal, Typed, TypedExpression, Variable,
    },
};
use proc_macro2::Span;
use refmodel::enumerate::{closed, Space};
use refmodel::gram::*;
use refmodel::report::{par, Ctx};
use std::collections::BTreeSet;

/// The typed tree in a form that can be compared.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Node {
    pub kind: &'static str,
    pub ty: Ty,
    pub parts: Vec<Node>,
}

/// A backend that only records the types it is given.
#[derive(Default)]
struct Walk;

fn ty(t: &impl Typed) -> Ty {
    let t = t.get_type();
    Ty {
        null: t.nullable(),
        first: t.first_set().clone().into_iter().collect(),
        flast: t.flast_set().clone().into_iter().collect(),
    }
}

impl Backend for Walk {
    type Id = Node;
    type Code = Node;
    fn gen_epsilon(&mut self, _: Option<Name>, _: Span, e: Epsilon) -> Node {
        Node { kind: "eps", ty: ty(&e), parts: vec![] }
    }
    fn gen_literal(&mut self, _: Option<Name>, _: Span, l: Literal) -> Node {
        Node { kind: "lit", ty: ty(&l), parts: vec![] }
    }
    fn gen_cat(&mut self, _: Option<Name>, _: Span, c: Cat) -> Node {
        let t = ty(&c);
        Node { kind: "cat", ty: t, parts: c.into_iter().map(|x| x.gen(self)).collect() }
    }
    fn gen_alt(&mut self, _: Option<Name>, _: Span, a: Alt) -> Node {
        let t = ty(&a);
        Node { kind: "alt", ty: t, parts: a.into_iter().map(|x| x.gen(self)).collect() }
    }
    fn gen_fix(&mut self, _: Option<Name>, _: Span, f: Fix) -> Node {
        let t = ty(&f);
        Node { kind: "fix", ty: t, parts: vec![f.unwrap().gen(self)] }
    }
    fn gen_variable(&mut self, _: Option<Name>, _: Span, v: Variable) -> Node {
        Node { kind: "var", ty: ty(&v), parts: vec![] }
    }
    fn emit_code(self, _: Option<Name>, _: Span, id: Node) -> Node {
        id
    }
}

pub fn walk(t: TypedExpression) -> Node {
    t.gen(&mut Walk)
}

/// The reference tree with the least types.
fn want(g: &G, env: &mut Vec<Ty>) -> Node {
    let t = least_ty(g, env);
    let (kind, parts) = match g {
        G::Eps => ("eps", vec![]),
        G::Lit(_) => ("lit", vec![]),
        G::Ref(_) => ("var", vec![]),
        G::Cat(v) => ("cat", v.iter().map(|g| want(g, env)).collect()),
        G::Alt(v) => ("alt", v.iter().map(|g| want(g, env)).collect()),
        G::Fix(b) => {
            env.push(t.clone());
            let p = want(b, env);
            env.pop();
            ("fix", vec![p])
        }
    };
    Node { kind, ty: t, parts }
}

fn diff(got: &Node, want: &Node, path: &str) -> Option<String> {
    if got.kind != want.kind || got.parts.len() != want.parts.len() {
        return Some(format!("at {}: the typed tree has a {} with {} parts instead of a {} with {}", path, got.kind, got.parts.len(), want.kind, want.parts.len()));
    }
    for (i, (a, b)) in got.parts.iter().zip(&want.parts).enumerate() {
        if let Some(d) = diff(a, b, &format!("{}.{}", path, i)) {
            return Some(d);
        }
    }
    (got.ty != want.ty).then(|| format!("at {}: inferred {:?}, the least type is {:?}", path, got.ty, want.ty))
}

pub fn spaces(t: bool) -> Vec<(&'static str, Vec<G>)> {
    vec![
        ("small", space::small(if t { 9 } else { 8 }, 2)),
        ("renamed", space::small(8, 2).iter().flat_map(refmodel::families::renamed).collect()),
        ("deep_nests", refmodel::families::deep_nests(if t { 17 } else { 13 })),
        ("deepest_nests", [16, 17].iter().flat_map(|d| (0..*d).flat_map(move |r| [0, 2, 3].into_iter().map(move |k| refmodel::families::nested(*d, r, k)))).chain(refmodel::families::guards(17)).collect()),
        ("words", space::words(if t { 7 } else { 6 })),
        (
            "flat",
            closed(
                Space { atoms: vec![G::Eps, lit("a"), lit("b")], max_arity: 4, max_fix: 3, flat: true },
                if t { 9 } else { 8 },
                &['a', 'b'],
            ),
        ),
        ("deep_fix", space::deep_fix(if t { 6 } else { 5 })),
        ("wide", space::wide(if t { 6 } else { 5 })),
        ("shapes", space::shapes_all(t)),
        ("mixed", space::mixed_all(true)),
        ("types", space::types(t)),
        ("large", space::large(t)),
        ("odd", refmodel::families::odd()),
    ]
}

fn inferred(text: &str) -> Result<Node, pipeline::Fail> {
    Ok(walk(pipeline::infer(pipeline::expand(pipeline::resolve(pipeline::read(text)?)?)?)?))
}

pub fn run(ctx: &'static Ctx) {
    for (name, gs) in spaces(ctx.thorough) {
        ctx.count(&format!("space_{}", name), gs.len() as u64);
        if let Some(g) = gs.last() {
            ctx.sample(|| format!("{}: {}", name, g.text()));
        }
        par(ctx, gs.len(), 64, |i| {
            let g = &gs[i];
            let mut letters = BTreeSet::new();
            g.chars(&mut letters);
            if ctx.id == "C07" && (letters.len() > if ctx.thorough { 18 } else { 13 } || fixes(g) > 4) {
                // too many texts
                return;
            }
            let text = g.program();
            ctx.state(1);
            let r = match ctx.guarded(&text, || inferred(&text)) {
                Ok(r) => r,
                Err(p) => {
                    ctx.violation(&text, format!("the compiler panics on {}: {}", text, p), &text);
                    return;
                }
            };
            ctx.trace(1);
            if ctx.id == "C06" {
                rules(ctx, g, &text, r)
            } else if let Ok(n) = r {
                meaning(ctx, g, &text, n)
            }
        });
    }
}

fn rules(ctx: &Ctx, g: &G, text: &str, r: Result<Node, pipeline::Fail>) {
    let bad = check(g);
    match r {
        Err(e @ (pipeline::Fail::Syntax(_) | pipeline::Fail::Scope(_) | pipeline::Fail::Reduce(_) | pipeline::Fail::Use(_))) => {
            ctx.violation(text, format!("{} is a closed grammar but is rejected for another reason than the typing rules: {:?}", text, e), text)
        }
        Err(pipeline::Fail::Type(e)) => {
            ctx.count("rejected", 1);
            if bad.is_empty() {
                ctx.violation(text, format!("{} satisfies the rules but is rejected: {}", text, e), text)
            }
        }
        Ok(n) => {
            ctx.count("accepted", 1);
            if !bad.is_empty() {
                ctx.violation(text, format!("{} is accepted but breaks {:?}", text, bad), text)
            } else {
                let w = want(g, &mut Vec::new());
                ctx.transition(size(&w));
                if let Some(d) = diff(&n, &w, "root") {
                    ctx.violation(text, format!("{}: {}", text, d), text)
                }
            }
        }
    }
}

/// How deep fixed points are nested.
fn fixes(g: &G) -> usize {
    match g {
        G::Cat(v) | G::Alt(v) => v.iter().map(fixes).max().unwrap_or(0),
        G::Fix(b) => 1 + fixes(b),
        _ => 0,
    }
}

fn size(n: &Node) -> u64 {
    1 + n.parts.iter().map(size).sum::<u64>()
}

fn meaning(ctx: &Ctx, g: &G, text: &str, n: Node) {
    ctx.count("accepted", 1);
    if left_recursive(g) {
        ctx.violation(text, format!("{} is accepted although a fixed point recurs without consuming input", text), text);
    }
    let mut letters = BTreeSet::new();
    g.chars(&mut letters);
    let len = match letters.len() {
        0..=8 if ctx.thorough => 6,
        0..=8 => 5,
        9..=20 => 3,
        _ => 2,
    };
    let d = derivations(g, &mut Vec::new(), len);
    ctx.transition(d.len() as u64);
    if let Some((w, _)) = d.iter().find(|(_, k)| **k > 1) {
        ctx.violation(text, format!("{} is accepted but {:?} has more than one derivation", text, w), text);
    }
    if let Some(e) = covers(g, &mut Vec::new(), &n, "root", len) {
        ctx.violation(text, format!("{}: {}", text, e), text);
    }
}

/// Does the inferred type of every part cover what the part's language contains?
fn covers(g: &G, env: &mut Vec<Den>, n: &Node, path: &str, len: usize) -> Option<String> {
    let d = den(g, env, len);
    if d.words.contains("") && !n.ty.null {
        return Some(format!("{} matches the empty text but is inferred not to", path));
    }
    let first: BTreeSet<char> = d.vp.iter().filter_map(|w| w.chars().next()).collect();
    if let Some(c) = first.difference(&n.ty.first).next() {
        return Some(format!("{} can start with {:?} but the inferred first set is {:?}", path, c, n.ty.first));
    }
    for w in d.words.iter().filter(|w| !w.is_empty()) {
        for p in d.vp.range(w.clone()..).take_while(|p| p.starts_with(w.as_str())) {
            if let Some(c) = p[w.len()..].chars().next() {
                if !n.ty.flast.contains(&c) {
                    return Some(format!("in {} {:?} may be followed by {:?} but the inferred follow-last set is {:?}", path, w, c, n.ty.flast));
                }
            }
        }
    }
    let sub: Vec<&G> = match g {
        G::Cat(v) | G::Alt(v) => v.iter().collect(),
        G::Fix(b) => vec![b],
        _ => vec![],
    };
    if sub.len() != n.parts.len() {
        return Some(format!("{} has {} parts in the typed tree instead of {}", path, n.parts.len(), sub.len()));
    }
    let bind = matches!(g, G::Fix(_));
    if bind {
        env.push(d);
    }
    let mut r = None;
    for (i, (g, m)) in sub.iter().zip(&n.parts).enumerate() {
        r = covers(g, env, m, &format!("{}.{}", path, i), len);
        if r.is_some() {
            break;
        }
    }
    if bind {
        env.pop();
    }
    r
}
