pub mod fm_script_engine;
pub mod fm_script_engine_instructions;
