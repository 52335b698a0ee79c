
pub mod engine;
pub mod test;
mod calc_eval;
mod database;
mod layout_mgr;
mod relation_mgr;
mod calc_tokens;
