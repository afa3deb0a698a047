//! C14, C15, C24: whole tools.
#[path = "../../mc/src/pipeline.rs"]
#[allow(dead_code)]
mod pipeline;

mod clean;
mod history;
mod proc;
mod texts;
mod ways;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--outputs") {
        return history::outputs();
    }
    refmodel::report::drive(|ctx| match ctx.id.as_str() {
        "C14" => clean::run(ctx),
        "C15" => history::run(ctx),
        "C24" => ways::run(ctx),
        id => panic!("no check {}", id),
    })
}
