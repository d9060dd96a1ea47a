mod env;
mod rex;
mod sh;
use env::*;
use rex::*;
vp::harnesses!(h_rex_statement, h_rex_raw, h_rex_env, h_rex_expand, h_rex_kinds, h_rex_shell, h_rex_sections, h_rex_quotes, h_env_phases, h_env_refs, h_env_path, h_env_config, h_env_script);
