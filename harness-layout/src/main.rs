#[path = "../../harness-base/src/hexdump.rs"]
mod hexdump;
mod layout;

fn main() {
    let arguments: Vec<String> = std::env::args().collect();
    if arguments.len() > 1 && arguments[1] == "layout-child" {
        layout::layout_child(&arguments[2..]);
        return;
    }
    pbt::main(&[&layout::C20]);
}
