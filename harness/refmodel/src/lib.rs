//! Reference models for chomp: grammars, denotations, typing rules, expansion,
//! naming, positions; plus the exploration and reporting runtime shared by all checks.
//! This crate depends on nothing from /repo.
pub mod binders;
pub mod blame;
pub mod enumerate;
pub mod gram;
pub mod long;
pub mod pos;
pub mod report;
pub mod shard;
pub mod tree;
pub mod term;
pub mod syntax;
pub mod families;
