pub mod types;
pub mod reflex;
pub mod refparse;
pub mod src;
pub mod json;
pub mod engine;
pub mod common;
pub mod gen;
pub mod layout;
pub mod lexgen;
pub mod scale;
pub mod enumer;
pub mod edits;
pub mod gaps;
pub mod many;
pub mod pairs;
pub mod chars;
pub mod checks;

pub fn main(sub: types::Subject) { std::process::exit(engine::run(&checks::all(), sub)) }
