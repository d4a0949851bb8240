//! Types drawn for one run (see build.rs).
#![allow(clippy::all, unused_parens, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_imports, unused_mut)]
include!(concat!(env!("OUT_DIR"), "/gen.rs"));
