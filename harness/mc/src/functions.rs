//! C08 and C09: expansion of definitions and applications against call-by-name evaluation.
use crate::pipeline::{self, Fail};
use chomp::chomp::ast::{Expression, NamedExpression};
use refmodel::gram::G;
use refmodel::families;
use refmodel::report::{par, Ctx};
use refmodel::term::*;

/// The expanded expression as a core grammar.
pub fn core(e: &NamedExpression) -> Result<G, String> {
    Ok(match &e.expr {
        Expression::Epsilon(_) => G::Eps,
        Expression::Literal(l) => G::Lit(l.clone()),
        Expression::Variable(v) => G::Ref(v.index),
        Expression::Cat(c) => G::Cat(std::iter::once(&*c.first).chain(c.rest.iter().map(|p| &p.1)).map(core).collect::<Result<_, _>>()?),
        Expression::Alt(a) => G::Alt(std::iter::once(&*a.first).chain(a.rest.iter().map(|p| &p.1)).map(core).collect::<Result<_, _>>()?),
        Expression::Fix(f) => match &f.inner.expr {
            Expression::Lambda(l) if l.args.len() == 1 => G::Fix(Box::new(core(&l.inner)?)),
            _ => return Err("a fixed point of something that is not a one-parameter function is left".into()),
        },
        Expression::Call(_) => return Err("an application is left".into()),
        Expression::Lambda(_) => return Err("a function is left".into()),
        Expression::Let(_) => return Err("a definition is left".into()),
    })
}

const FUEL: usize = 4000;

pub fn run(ctx: &'static Ctx) {
    for (name, ps) in families::programs(ctx.thorough) {
        ctx.count(&format!("programs_{}", name), ps.len() as u64);
        if let Some(p) = ps.last() {
            ctx.sample(|| p.text());
        }
        par(ctx, ps.len(), 64, |i| one(ctx, &ps[i]));
    }
    let ps = arities(ctx.thorough);
    ctx.count("programs_arities", ps.len() as u64);
    par(ctx, ps.len(), 1, |i| one(ctx, &ps[i]));
}

/// Every number of parameters with every number of arguments, out of numbers around powers of two.
fn arities(t: bool) -> Vec<Prog> {
    let mut ns = vec![1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258];
    if t {
        ns.extend([511, 512, 513, 514, 1023, 1024, 1025, 1026]);
    }
    let mut pairs: Vec<(usize, usize)> = ns.iter().flat_map(|n| ns.iter().map(move |m| (*n, *m))).collect();
    pairs.extend([(1, 65536), (1, 65537), (2, 65538), (65536, 1), (65537, 1), (65538, 2), (65536, 65537), (4097, 1), (1, 4097)]);
    let mut v = Vec::new();
    for &n in &ns {
        for at in [0, 1, n / 2, n.saturating_sub(2), n - 1] {
            if at >= n {
                continue;
            }
            let x = U::Var;
            // arguments with a variable of their own; all of them, one of them
            let args = |i: usize| (0..n).map(|k| if k % 3 == i { ucat(vec![ulit("a"), x(0)]) } else { ulit("b") }).collect::<Vec<_>>();
            for i in 0..3 {
                v.push(Prog::goal(ufix(lam(1, ucat(vec![ulit("c"), call(lam(n, ucat(vec![x(at), x(n)])), args(i))])))));
                v.push(Prog { lets: vec![lam(n, ucat(vec![x(at), x(n - 1)]))], goal: ufix(lam(1, ucat(vec![ulit("c"), call(x(1), args(i))]))) });
            }
            // a function of many parameters within an argument that goes under another binder
            let many = call(lam(n, ucat(vec![x(at), x(n), x(n - 1 - at)])), args(1));
            let under = |b: U| lam(1, ufix(lam(1, ualt(vec![ucat(vec![ulit("e"), b]), ucat(vec![ulit("d"), x(0)])]))));
            v.push(Prog::goal(ufix(lam(1, ucat(vec![ulit("c"), call(under(x(1)), vec![many.clone()])])))));
            v.push(Prog::goal(ufix(lam(1, ucat(vec![ulit("c"), call(under(x(1)), vec![ufix(lam(1, ucat(vec![ulit("g"), call(lam(n, ucat(vec![x(at), x(n), x(n + 1)])), args(1))])))])])))));
            // a parameter used within a function of many parameters
            let inner = call(lam(n, ucat(vec![x(at), x(n), x(n + 1), x(n + 2)])), (0..n).map(|k| if k % 3 == 1 { x(k % 2) } else { ulit("b") }).collect());
            v.push(Prog::goal(ufix(lam(1, ucat(vec![ulit("c"), call(lam(2, inner), vec![ucat(vec![ulit("p"), x(0)]), ulit("q")])])))));
        }
    }
    // many binders between a variable and its use
    for n in [2usize, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] {
        for at in [0, n / 2, n - 1] {
            let x = U::Var;
            let lets: Vec<U> = (0..n).map(|k| if k == 0 { ulit("a") } else { ucat(vec![ulit("b"), x(k - 1)]) }).collect();
            let used = (0..n).map(|k| if k > 0 && (k < 2 || k == at) { ucat(vec![ulit("b"), x(k - 1)]) } else { ulit("c") }).collect();
            if n <= 33 {
                v.push(Prog { lets: lets.clone(), goal: ucat(vec![ulit("d"), x(at)]) });
            }
            v.push(Prog { lets: used, goal: ufix(lam(1, ucat(vec![ulit("d"), x(n - at), x(0)]))) });
            // one function within another, each of one parameter
            let mut b = ucat(vec![x(at), x(0), x(n - 1), x(n)]);
            for _ in 0..n {
                b = lam(1, b);
            }
            for k in 0..n {
                b = call(b, vec![if k % 2 == 0 { ucat(vec![ulit("a"), x(0)]) } else { ulit("b") }]);
            }
            v.push(Prog::goal(ufix(lam(1, ucat(vec![ulit("c"), b])))));
        }
    }
    for (n, m) in pairs {
        for at in [0, n / 2, n - 1] {
            let args: Vec<U> = (0..m).map(|i| ulit(["a", "b", "c"][(i + at) % 3])).collect();
            v.push(Prog { lets: vec![lam(n, U::Var(at))], goal: call(U::Var(0), args.clone()) });
            v.push(Prog::goal(call(lam(n, ucat(vec![ulit("d"), U::Var(at)])), args)));
        }
    }
    v
}

fn one(ctx: &Ctx, p: &Prog) {
    let (g, mistakes) = match expand(p, FUEL) {
        Err(Stop::Fuel) => {
            ctx.count("skipped_not_terminating_within_the_budget", 1);
            return;
        }
        Err(Stop::Unbound) => unreachable!(),
        Err(Stop::Mistake(m)) => (G::Eps, vec![m]),
        Ok(x) => x,
    };
    ctx.state(1);
    if ctx.id == "C08" {
        if !mistakes.is_empty() {
            return;
        }
        let text = p.text();
        ctx.trace(1);
        ctx.transition(g.size() as u64);
        let r = ctx.guarded(&text, || pipeline::expand(pipeline::resolve(pipeline::read(&text)?)?).map(|e| core(&e)));
        match r {
            Err(e) => ctx.violation(&text, format!("{}: expansion panics: {}", text, e), &text),
            Ok(Err(e)) => ctx.violation(&text, format!("{} is well formed but is rejected: {:?}", text, e), &text),
            Ok(Ok(Err(e))) => ctx.violation(&text, format!("{}: after expansion {}", text, e), &text),
            Ok(Ok(Ok(h))) => {
                if h != g {
                    ctx.violation(&text, format!("{}\nexpands to {}\ninstead of {}", text, h.text(), g.text()), &text)
                }
            }
        }
    } else {
        let text = p.text();
        ctx.trace(1);
        ctx.transition(1);
        let r = ctx.guarded(&text, || {
            pipeline::infer(pipeline::expand(pipeline::resolve(pipeline::read(&text)?)?)?).map(|_| ()).map_err(|e| e)
        });
        match r {
            Err(e) => ctx.violation(&text, format!("{}: the compiler panics: {}", text, e), &text),
            Ok(Ok(())) => {
                if !mistakes.is_empty() {
                    ctx.violation(&text, format!("{} is accepted although it contains {:?}", text, mistakes), &text)
                }
            }
            Ok(Err(e)) => {
                if mistakes.is_empty() {
                    ctx.count("well_formed_rejected_by_types", 1);
                    let function_error = !matches!(e, Fail::Type(_));
                    if function_error {
                        ctx.violation(&text, format!("{} is free of mistakes in function use but is rejected: {:?}", text, e), &text)
                    }
                } else {
                    ctx.count("ill_formed_rejected", 1);
                    for m in &mistakes {
                        ctx.count(&format!("ill_formed_{}", match m {
                            Mistake::NotAFunction => "not_a_function",
                            Mistake::ArgCount(..) => "argument_count",
                            Mistake::LambdaAsGrammar => "function_as_grammar",
                            Mistake::FixOfNonFunction => "fix_of_non_function",
                            Mistake::FixOfManyParameters => "fix_of_many_parameters",
                        }), 1);
                    }
                }
            }
        }
    }
}
