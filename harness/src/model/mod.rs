//! Reference model of HDDL-Parser, written from the language description and the property
//! texts, not from the implementation's data structures.  `lex` and `grammar` model the file
//! format, `sem` the well-formedness rules (as the *set* of all true defects), `tdg` the task
//! decomposition graph analyses.
pub mod grammar;
pub mod lex;
pub mod sem;
pub mod tdg;
