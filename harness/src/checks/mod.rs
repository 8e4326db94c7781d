pub mod text;
pub mod sem;
pub mod tdgs;
pub mod meta;
pub mod lsp;
pub mod cli;
