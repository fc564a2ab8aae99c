#[path = "../../build/overlay/keramics-tools/src/bodyfile.rs"]
mod bodyfile;
#[path = "../../harness-formats/src/common.rs"]
mod common;
#[path = "../../harness-vfs/src/disk.rs"]
mod disk;
#[path = "../../build/overlay/keramics-tools/src/display_path.rs"]
mod display_path;
#[path = "../../build/overlay/keramics-tools/src/enums.rs"]
mod enums;
#[path = "../../build/overlay/keramics-tools/src/formatters.rs"]
mod formatters;
#[path = "../../harness-base/src/hashes.rs"]
mod hashes;
mod image;
mod info;
#[path = "../../harness-vfs/src/places.rs"]
mod places;
mod run;

fn main() {
    pbt::main(&[&image::C70, &image::C71, &image::C72, &image::C73, &info::C74]);
}
