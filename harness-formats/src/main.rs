mod debug;
mod apple;
mod common;
mod detect;
mod ewf;
mod ext;
mod fat;
mod ntfs;
mod pack;
mod paths;
mod qcow;
mod vhd;
mod vhdx;
mod volumes;

fn main() {
    pbt::main(&[&volumes::C40, &volumes::C41, &volumes::C42, &qcow::C43, &vhd::C44, &vhdx::C45, &apple::C46, &apple::C47, &ewf::C48, &fat::C49, &ext::C50, &ntfs::C51, &paths::C52, &apple::C53, &detect::C54, &debug::C55]);
}
