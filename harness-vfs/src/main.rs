#[path = "../../harness-formats/src/common.rs"]
mod common;
mod context;
mod disk;
mod names;
mod places;

fn main() {
    pbt::main(&[&context::C60, &context::C61, &context::C62, &names::C63]);
}
