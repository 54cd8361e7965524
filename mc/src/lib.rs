extern crate self as mc;
pub mod all;
pub mod alloc;
pub mod big;
pub mod builtin;
pub mod choose;
pub mod core_checks;
pub mod derived;
pub mod gen;
pub mod handle;
pub mod plan;
pub mod rec;
pub mod refdec;
pub mod run;
pub mod tables;
pub mod shapes;
pub mod targets;
pub mod tcheck;
pub mod ty;
pub mod universe;
pub mod walk;
pub mod yields;
