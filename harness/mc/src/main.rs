mod cursor;
mod emitted;
mod equal;
mod functions;
mod lang;
mod names;
mod pipeline;
mod scope;
mod shape;
mod space;
mod syntax;
mod trees;
mod typecheck;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("sizes") { return lang::sizes() }
    refmodel::report::drive(|ctx| match ctx.id.as_str() {
        "C01" | "C02" | "C04" | "C05" => lang::run(ctx),
        "ORACLES" => lang::oracles(ctx),
        "C03" => trees::run(ctx),
        "C06" | "C07" => typecheck::run(ctx),
        "C08" | "C09" => functions::run(ctx),
        "C10" => scope::run(ctx),
        "C11" => syntax::run(ctx),
        "C13" => names::run(ctx),
        "C25" => equal::run(ctx),
        "C16" | "C17" | "C18" | "C19" | "C20" => cursor::run(ctx),
        id => panic!("no check {}", id),
    })
}
