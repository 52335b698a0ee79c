pub mod compiler;
pub mod assembler;
mod lexer;
mod parser;
mod compound_chunk;
mod token;
mod header;
