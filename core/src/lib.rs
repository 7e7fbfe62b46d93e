//! Shared machinery of the binschema checks: reference model of the format, reference model of
//! the coder state machine, enumerators, fault injecting I/O, reporting.
pub mod alloc;
pub mod gen;
pub mod io;
pub mod machine;
pub mod refm;
pub mod report;
pub mod term;
pub mod text;
pub mod ty;
