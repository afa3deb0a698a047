//! What the compiler's front ends produce, in the notation of the reference reader.
use chomp::chomp::ast::{Expression, NamedExpression};
use refmodel::syntax::{Expr, Node};

pub const FREE: [&str; 11] = ["x", "y", "let", "match", "z", "a", "b", "k", "l", "m", "q"];

pub fn shape(e: &NamedExpression, scope: &mut Vec<String>) -> Node {
    let name = e.name.as_ref().map(|n| n.to_string());
    let list = |first: &NamedExpression, rest: &mut dyn Iterator<Item = &NamedExpression>, scope: &mut Vec<String>| {
        let mut v = vec![shape(first, scope)];
        for r in rest {
            v.push(shape(r, scope));
        }
        v
    };
    let expr = match &e.expr {
        Expression::Epsilon(_) => Expr::Eps,
        Expression::Literal(l) => Expr::Lit(l.clone()),
        Expression::Variable(v) => Expr::Var(scope.iter().rev().nth(v.index).cloned().unwrap_or_else(|| format!("'{}", v.index))),
        Expression::Cat(c) => Expr::Cat(list(&c.first, &mut c.rest.iter().map(|p| &p.1), scope)),
        Expression::Alt(a) => Expr::Alt(list(&a.first, &mut a.rest.iter().map(|p| &p.1), scope)),
        Expression::Call(c) => Expr::Call(list(&c.on, &mut c.args.iter(), scope)),
        Expression::Fix(f) => Expr::Fix(Box::new(shape(&f.inner, scope))),
        Expression::Lambda(l) => {
            let n = scope.len();
            let args: Vec<String> = l.args.iter().map(|a| a.to_string()).collect();
            scope.extend(args.iter().cloned());
            let b = shape(&l.inner, scope);
            scope.truncate(n);
            Expr::Lam(args, Box::new(b))
        }
        Expression::Let(l) => {
            let b = shape(&l.bound, scope);
            scope.push(l.name.to_string());
            let n = shape(&l.body, scope);
            scope.pop();
            Expr::Let(l.name.to_string(), Box::new(b), Box::new(n))
        }
    };
    Node { name, expr }
}

