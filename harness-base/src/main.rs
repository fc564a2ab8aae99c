mod checksums;
mod core;
mod datetime;
mod encodings;
mod hashes;
mod hexdump;
mod sigscan;
mod types;

fn main() {
    let arguments: Vec<String> = std::env::args().collect();
    if arguments.len() > 1 && arguments[1] == "mediator-child" {
        core::mediator_child(&arguments[2..]);
        return;
    }
    pbt::main(&[
        &hashes::C01,
        &checksums::C02,
        &checksums::C03,
        &datetime::C04,
        &datetime::C05,
        &datetime::C06,
        &core::C07,
        &core::C08,
        &core::C09,
        &encodings::C10,
        &encodings::C11,
        &encodings::C12,
        &encodings::C13,
        &types::C14,
        &types::C15,
        &types::C16,
        &types::C17,
        &types::C18,
        &sigscan::C19,
    ]);
}
