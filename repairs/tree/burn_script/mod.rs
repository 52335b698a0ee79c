
mod lexer;
mod parser;
mod tokens;
pub mod compiler;
