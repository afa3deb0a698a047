//! C22 and C23: the parsers of the benchmark suite.
mod arith;
mod json;

fn main() {
    refmodel::report::drive(|ctx| match ctx.id.as_str() {
        "C22" => json::run(ctx),
        "C23" => arith::run(ctx),
        id => panic!("no check {}", id),
    })
}
