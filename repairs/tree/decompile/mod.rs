pub mod decompiler;
mod sector;
mod format;
