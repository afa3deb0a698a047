//! The compiler under test, stage by stage.
use chomp::chomp::{
    ast::{substitute::Reduce, NamedExpression},
    typed::{
        context::{Context, GetVariableError},
        error::TypeError,
        lower::{Backend, GenerateCode},
        TypeInfer, TypedExpression,
    },
    visit::Visitable,
};
use chomp::lower::RustBackend;
use chomp::nibble::{
    convert::{self, Convert},
    Statement,
};
use proc_macro2::Span;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Syntax(String),
    Scope(String),
    Reduce(String),
    Type(String),
    /// a type error about the use of functions
    Use(String),
}

impl Fail {
    pub fn msg(&self) -> &str {
        match self {
            Fail::Syntax(s) | Fail::Scope(s) | Fail::Reduce(s) | Fail::Type(s) | Fail::Use(s) => s,
        }
    }
}

pub fn read(text: &str) -> Result<Statement, Fail> {
    syn::parse_str::<Statement>(text).map_err(|e| Fail::Syntax(e.to_string()))
}

pub fn resolve(s: Statement) -> Result<NamedExpression, Fail> {
    s.convert(&mut convert::Context::default()).map_err(|e| Fail::Scope(e.to_string()))
}

pub fn expand(e: NamedExpression) -> Result<NamedExpression, Fail> {
    e.fold(&mut Reduce).map_err(|e| Fail::Reduce(e.to_string()))
}

pub fn infer(e: NamedExpression) -> Result<TypedExpression, Fail> {
    let mut context = Context::default();
    e.fold(&mut TypeInfer { context: &mut context }).map_err(|e| match &e {
        TypeError::Cat(_) | TypeError::Alt(_) => Fail::Type(e.to_string()),
        TypeError::Variable(v) if v.inner == GetVariableError::GuardedVariable => Fail::Type(e.to_string()),
        _ => Fail::Use(e.to_string()),
    })
}

pub fn emit(t: TypedExpression) -> String {
    let mut b = RustBackend::default();
    let id = t.gen(&mut b);
    b.emit_code(None, Span::call_site(), id).to_string()
}

pub fn compile(text: &str) -> Result<String, Fail> {
    Ok(emit(infer(expand(resolve(read(text)?)?)?)?))
}
