mod bindings;
#[path = "../../harness-formats/src/common.rs"]
mod common;
#[path = "../../harness-vfs/src/disk.rs"]
mod disk;
#[path = "../../harness-vfs/src/places.rs"]
mod places;

fn main() {
    pbt::main(&[&bindings::C75]);
}
