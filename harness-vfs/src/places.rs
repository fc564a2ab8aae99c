//! What there is at every location of a disk, and how to see that it is there.

use crate::common::*;
use crate::disk::*;
use keramics_core::DataStreamReference;
use keramics_datetime::*;
use keramics_formats::ext::ExtPath;
use keramics_formats::fat::{FatPath, FatString};
use keramics_formats::ntfs::NtfsPath;
use keramics_types::{ByteString, Ucs2String};
use keramics_vfs::*;
use pbt::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

/// A directory for the files of a case.
pub struct Scratch {
    pub path: PathBuf,
}

impl Scratch {
    pub fn new() -> Scratch {
        static NUMBER: AtomicUsize = AtomicUsize::new(0);
        let path = std::env::temp_dir().join(format!("keramics-vfs-{}-{}", std::process::id(), NUMBER.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&path).unwrap();
        Scratch { path }
    }

    pub fn write(&self, disk: &Disk) {
        for (name, data) in &disk.files {
            write_sparse(&self.path.join(name), data);
        }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

pub fn write_sparse(path: &Path, data: &Sparse) {
    use std::os::unix::fs::FileExt;
    let file = std::fs::File::create(path).unwrap();
    file.set_len(data.size).unwrap();
    for (at, part) in &data.extents {
        file.write_all_at(part, *at).unwrap();
    }
}

pub enum What<'a> {
    /// A file of the operating system.
    Os(Sparse),
    /// The root of an image or of a volume system, with the sizes of what is in it.
    Root(Vec<&'a [u8]>),
    /// A layer or a partition.
    Part(&'a [u8]),
    Node(&'a Fs, &'a Node),
}

pub struct Place<'a> {
    pub location: VfsLocation,
    pub what: What<'a>,
    /// In the root of a file system.
    pub root: bool,
}

pub fn type_of(kind: FsKind) -> VfsType {
    match kind {
        FsKind::Ext => VfsType::Ext,
        FsKind::Ntfs => VfsType::Ntfs,
        _ => VfsType::Fat,
    }
}

pub fn scheme_type(s: Scheme) -> (VfsType, &'static str) {
    match s {
        Scheme::Mbr => (VfsType::Mbr, "mbr"),
        Scheme::Gpt => (VfsType::Gpt, "gpt"),
        Scheme::Apm => (VfsType::Apm, "apm"),
    }
}

pub fn wrap_type(w: Wrap) -> Option<(VfsType, &'static str)> {
    match w {
        Wrap::None => None,
        Wrap::Qcow => Some((VfsType::Qcow, "qcow")),
        Wrap::Vhd => Some((VfsType::Vhd, "vhd")),
        Wrap::Vhdx => Some((VfsType::Vhdx, "vhdx")),
        Wrap::Ewf => Some((VfsType::Ewf, "ewf")),
        Wrap::SparseImage => Some((VfsType::SparseImage, "sparseimage")),
        Wrap::Udif => Some((VfsType::Udif, "udif")),
    }
}

/// The path of names in a file system.
pub fn path_of(kind: FsKind, names: &[String]) -> VfsPath {
    match kind {
        FsKind::Ext => VfsPath::Ext(ExtPath { components: std::iter::once("").chain(names.iter().map(|n| n.as_str())).map(ByteString::from).collect() }),
        FsKind::Ntfs => VfsPath::Ntfs(NtfsPath { components: std::iter::once("").chain(names.iter().map(|n| n.as_str())).map(Ucs2String::from).collect() }),
        _ => VfsPath::Fat(FatPath { components: std::iter::once("").chain(names.iter().map(|n| n.as_str())).map(FatString::from).collect() }),
    }
}

/// Every place of a disk of which the main file is at a location.
pub fn places<'a>(disk: &'a Disk, file: &VfsLocation, out: &mut Vec<Place<'a>>) {
    let mut base = file.clone();
    if let Some((t, prefix)) = wrap_type(disk.wrap) {
        let layers: Vec<&[u8]> = disk.layers.iter().map(|l| l.as_slice()).collect();
        let root = file.new_with_layer(&t, VfsPath::from_path(&t, "/"));
        for (i, l) in layers.iter().enumerate() {
            let location = file.new_with_layer(&t, VfsPath::from_path(&t, &format!("/{}{}", prefix, i + 1)));
            base = location.clone();
            out.push(Place { location, what: What::Part(l), root: false });
        }
        out.push(Place { location: root, what: What::Root(layers), root: true });
    }
    match &disk.volume {
        Volume::Raw => {}
        Volume::Fs(fs) => fs_places(fs, &base, out),
        Volume::Parts(scheme, parts) => {
            let (t, prefix) = scheme_type(*scheme);
            let data: Vec<&[u8]> = parts.iter().map(|p| &disk.top()[p.at..p.at + p.size]).collect();
            for (i, p) in parts.iter().enumerate() {
                let location = base.new_with_layer(&t, VfsPath::from_path(&t, &format!("/{}{}", prefix, i + 1)));
                if let Volume::Fs(fs) = &p.volume {
                    fs_places(fs, &location, out);
                }
                out.push(Place { location, what: What::Part(data[i]), root: false });
            }
            let location = base.new_with_layer(&t, VfsPath::from_path(&t, "/"));
            out.push(Place { location, what: What::Root(data), root: true });
        }
    }
}

pub fn fs_places<'a>(fs: &'a Fs, base: &VfsLocation, out: &mut Vec<Place<'a>>) {
    fn visit<'a>(fs: &'a Fs, node: &'a Node, names: &mut Vec<String>, base: &VfsLocation, out: &mut Vec<Place<'a>>) {
        let location = base.new_with_layer(&type_of(fs.kind), path_of(fs.kind, names));
        if let Some(inner) = &node.inner {
            places(inner, &location, out);
        }
        out.push(Place { location, what: What::Node(fs, node), root: names.is_empty() });
        for c in &node.children {
            names.push(c.name.clone());
            visit(fs, c, names, base, out);
            names.pop();
        }
    }
    visit(fs, &fs.root, &mut Vec::new(), base, out);
}

pub fn type_name(t: &VfsFileType) -> &'static str {
    match t {
        VfsFileType::BlockDevice => "block device",
        VfsFileType::CharacterDevice => "character device",
        VfsFileType::Device => "device",
        VfsFileType::Directory => "directory",
        VfsFileType::File => "file",
        VfsFileType::NamedPipe => "named pipe",
        VfsFileType::Socket => "socket",
        VfsFileType::SymbolicLink => "symbolic link",
        VfsFileType::Unknown(_) => "unknown",
        VfsFileType::Whiteout => "whiteout",
    }
}

pub fn type_of_node(n: &Node) -> &'static str {
    match n.kind {
        Kind::Directory => "directory",
        Kind::File => "file",
        Kind::Link => "symbolic link",
        Kind::Pipe => "named pipe",
        Kind::Socket => "socket",
        Kind::Character => "character device",
        Kind::Block => "block device",
    }
}

/// The name in the form that the file system stores it.
pub fn name_of(kind: FsKind, name: &str) -> VfsString {
    match kind {
        FsKind::Ext => VfsString::Byte(ByteString::from(name)),
        FsKind::Ntfs => VfsString::Ucs2(Ucs2String::from(name)),
        _ => match short_of(name) {
            Some(_) => VfsString::Byte(ByteString::from(name)),
            None => VfsString::Ucs2(Ucs2String::from(name)),
        },
    }
}

pub fn same_name(got: &VfsString, want: &VfsString) -> bool {
    if got.is_empty() != got.to_string().is_empty() {
        return false;
    }
    match (got, want) {
        (VfsString::Byte(a), VfsString::Byte(b)) => a.elements == b.elements,
        (VfsString::Ucs2(a), VfsString::Ucs2(b)) => a.elements == b.elements,
        _ => got == want,
    }
}

/// Modification, access, change, and creation.
pub fn times_of(fs: &Fs, node: &Node) -> [Option<DateTime>; 4] {
    let t = &node.times;
    match fs.kind {
        FsKind::Ext if fs.small => {
            let f = |v: u64| Some(if v == 0 { DateTime::NotSet } else { DateTime::PosixTime32(PosixTime32::new(v as u32 as i32)) });
            [f(t[0]), f(t[1]), f(t[2]), None]
        }
        FsKind::Ext => t.map(|v| Some(DateTime::PosixTime64Ns(PosixTime64Ns::new((v >> 32) as i64, (v & 0xffffffff) as u32)))),
        FsKind::Ntfs => t.map(|v| Some(if v == 0 { DateTime::NotSet } else { DateTime::Filetime(Filetime::new(v)) })),
        _ => {
            let p = |v: u64| ((v >> 16) as u16, v as u16);
            let (d, s) = p(t[0]);
            let (cd, cs) = p(t[3]);
            [Some(DateTime::FatTimeDate(FatTimeDate::new(d, s))), Some(DateTime::FatDate(FatDate::new(p(t[1]).0))), None, Some(DateTime::FatTimeDate10Ms(FatTimeDate10Ms::new(cd, cs, (t[3] >> 32) as u8)))]
        }
    }
}

fn stream_is(g: &mut Gen, what: &str, got: Option<DataStreamReference>, want: &Sparse) -> CaseResult {
    match got {
        Some(s) => check_stream(g, what, &mut *s.write().unwrap(), want, 512, &[]),
        None => fail(format!("{}: no data stream", what)),
    }
}

/// What a file entry says of itself.
pub fn check_entry(g: &mut Gen, place: &Place, entry: &mut VfsFileEntry) -> CaseResult {
    let what = &shown(&place.location);
    match &place.what {
        What::Os(data) => {
            check_eq!(type_name(&entry.get_file_type()), "file", "{}: file type", what);
            let want = VfsString::OsString(match place.location.get_path() {
                VfsPath::Os(p) => p.file_name().unwrap().to_os_string(),
                _ => return fail(format!("{}: not a path of the operating system", what)),
            });
            check_eq!(entry.get_name(), Some(want), "{}: name", what);
            check_eq!(entry.get_number_of_data_forks().map_err(|e| e.to_string()), Ok(1), "{}: data forks", what);
            let s = entry.get_data_stream().map_err(|e| Stop::Fail(format!("{}: {}", what, e.to_string())))?;
            stream_is(g, what, s, data)?;
        }
        What::Root(parts) => {
            check_eq!(type_name(&entry.get_file_type()), "directory", "{}: file type", what);
            check_eq!(entry.get_name(), None, "{}: name", what);
            check_eq!(entry.get_number_of_data_forks().map_err(|e| e.to_string()), Ok(0), "{}: data forks", what);
            check!(matches!(entry.get_data_stream(), Ok(None)), "{}: a data stream of a root", what);
            check_eq!(entry.get_number_of_sub_file_entries().map_err(|e| e.to_string()), Ok(parts.len()), "{}: sub file entries", what);
            let prefix = place.location.get_type().as_str().to_lowercase();
            for (i, data) in parts.iter().enumerate() {
                let name = format!("{}{}", prefix, i + 1);
                match entry.get_sub_file_entry_by_index(i) {
                    Ok(mut e) => check_part(g, &format!("{} sub file entry {}", what, i), &mut e, &name, data)?,
                    Err(e) => return fail(format!("{}: sub file entry {}: {}", what, i, e.to_string())),
                }
            }
            check!(entry.get_sub_file_entry_by_index(parts.len()).is_err(), "{}: there is a sub file entry {}", what, parts.len());
            check_iterator(what, entry)?;
        }
        What::Part(data) => {
            let name = place.location.get_path().to_string()[1..].to_string();
            check_part(g, what, entry, &name, data)?;
        }
        What::Node(fs, node) => check_node(g, what, fs, node, place.root, entry)?,
    }
    Ok(())
}

fn check_part(g: &mut Gen, what: &str, entry: &mut VfsFileEntry, name: &str, data: &[u8]) -> CaseResult {
    check_eq!(type_name(&entry.get_file_type()), "file", "{}: file type", what);
    check_eq!(entry.get_name(), Some(VfsString::from(name)), "{}: name", what);
    check_eq!(entry.get_number_of_data_forks().map_err(|e| e.to_string()), Ok(1), "{}: data forks", what);
    check_eq!(entry.get_number_of_sub_file_entries().map_err(|e| e.to_string()), Ok(0), "{}: sub file entries", what);
    check!(entry.get_sub_file_entry_by_index(0).is_err(), "{}: there is a sub file entry", what);
    check_iterator(what, entry)?;
    check!(entry.get_modification_time().is_none() && entry.get_access_time().is_none() && entry.get_change_time().is_none() && entry.get_creation_time().is_none(), "{}: there is a time", what);
    check!(matches!(entry.get_symbolic_link_target(), Ok(None)), "{}: a symbolic link target", what);
    let s = entry.get_data_stream().map_err(|e| Stop::Fail(format!("{}: {}", what, e.to_string())))?;
    stream_is(g, what, s, &Sparse::of(data.to_vec()))
}

pub fn check_node(g: &mut Gen, what: &str, fs: &Fs, node: &Node, root: bool, entry: &mut VfsFileEntry) -> CaseResult {
    check_eq!(type_name(&entry.get_file_type()), type_of_node(node), "{}: file type", what);
    check_eq!(entry.is_root_directory(), root, "{}: is the root", what);
    if !root {
        let want = name_of(fs.kind, &node.name);
        match entry.get_name() {
            Some(got) => check!(same_name(&got, &want), "{}: name {:?}, expected {:?}", what, got, want),
            None => return fail(format!("{}: no name", what)),
        }
    }
    if !root || !fs.kind.is_fat() {
        let got = [entry.get_modification_time(), entry.get_access_time(), entry.get_change_time(), entry.get_creation_time()];
        let want = times_of(fs, node);
        for (i, t) in ["modification", "access", "change", "creation"].iter().enumerate() {
            check_eq!(got[i], want[i].as_ref(), "{}: {} time", what, t);
        }
    }
    let link = entry.get_symbolic_link_target();
    match (node.kind, link) {
        (Kind::Link, Ok(Some(p))) => check_eq!(p, target_of(fs.kind, &node.target), "{}: symbolic link target {:?}", what, node.target),
        (Kind::Link, Ok(None)) => return fail(format!("{}: no symbolic link target", what)),
        (_, Ok(None)) => {}
        (_, Ok(Some(p))) => return fail(format!("{}: a symbolic link target {:?}", what, p)),
        (_, Err(e)) => return fail(format!("{}: symbolic link target: {}", what, e.to_string())),
    }
    // The data, by default, by index, and by name.
    let is_file = node.kind == Kind::File;
    let data = Sparse::of(node.data.clone());
    let forks = if is_file { 1 + node.forks.len() } else { 0 };
    check_eq!(entry.get_number_of_data_forks().map_err(|e| e.to_string()), Ok(forks), "{}: data forks", what);
    if is_file {
        check_eq!(entry.get_size(), data.size, "{}: size", what);
        let s = entry.get_data_stream().map_err(|e| Stop::Fail(format!("{}: {}", what, e.to_string())))?;
        stream_is(g, what, s, &data)?;
        let s = entry.get_data_stream_by_name(None).map_err(|e| Stop::Fail(format!("{}: {}", what, e.to_string())))?;
        stream_is(g, what, s, &data)?;
        let mut seen = Vec::new();
        for i in 0..forks {
            let f = entry.get_data_fork_by_index(i).map_err(|e| Stop::Fail(format!("{}: data fork {}: {}", what, i, e.to_string())))?;
            let (name, want) = match f.get_name() {
                None => (String::new(), data.clone()),
                Some(n) => {
                    let n = n.to_string();
                    match node.forks.iter().find(|f| VfsString::Ucs2(Ucs2String::from(&f.0)).to_string() == n) {
                        Some(f) => (f.0.clone(), Sparse::of(f.1.clone())),
                        None => return fail(format!("{}: a data fork {:?}", what, n)),
                    }
                }
            };
            check!(!seen.contains(&name), "{}: data fork {:?} twice", what, name);
            let s = f.get_data_stream().map_err(|e| Stop::Fail(format!("{}: data fork {:?}: {}", what, name, e.to_string())))?;
            stream_is(g, &format!("{} data fork {:?}", what, name), Some(s), &want)?;
            seen.push(name);
        }
        for (name, want) in &node.forks {
            let s = entry.get_data_stream_by_name(Some(name)).map_err(|e| Stop::Fail(format!("{}: {}", what, e.to_string())))?;
            stream_is(g, &format!("{} data fork {:?} by name", what, name), s, &Sparse::of(want.clone()))?;
        }
    } else {
        check!(matches!(entry.get_data_stream(), Ok(None)), "{}: there is a data stream", what);
    }
    check!(entry.get_data_fork_by_index(forks).is_err(), "{}: there is a data fork {}", what, forks);
    check!(matches!(entry.get_data_stream_by_name(Some("no such fork")), Ok(None)), "{}: a data stream that is not there", what);
    // What is below.
    check_eq!(entry.get_number_of_sub_file_entries().map_err(|e| e.to_string()), Ok(node.children.len()), "{}: sub file entries", what);
    let mut seen: Vec<VfsString> = Vec::new();
    for i in 0..node.children.len() {
        match entry.get_sub_file_entry_by_index(i) {
            Ok(e) => {
                let name = e.get_name().unwrap_or(VfsString::Empty);
                check!(!seen.iter().any(|s| same_name(s, &name)), "{}: sub file entry {:?} twice", what, name);
                match node.children.iter().find(|c| same_name(&name, &name_of(fs.kind, &c.name))) {
                    Some(c) => check_eq!(type_name(&e.get_file_type()), type_of_node(c), "{}: file type of sub file entry {:?}", what, name),
                    None => return fail(format!("{}: a sub file entry {:?}", what, name)),
                }
                seen.push(name);
            }
            Err(e) => return fail(format!("{}: sub file entry {}: {}", what, i, e.to_string())),
        }
    }
    check!(entry.get_sub_file_entry_by_index(node.children.len()).is_err(), "{}: there is a sub file entry {}", what, node.children.len());
    check_iterator(what, entry)
}

/// The iterator gives the sub entries that there are by index, in that order.
fn check_iterator(what: &str, entry: &mut VfsFileEntry) -> CaseResult {
    let count = entry.get_number_of_sub_file_entries().map_err(|e| Stop::Fail(format!("{}: {}", what, e.to_string())))?;
    let mut want = Vec::new();
    for i in 0..count {
        want.push(entry.get_sub_file_entry_by_index(i).map_err(|e| Stop::Fail(format!("{}: {}", what, e.to_string())))?.get_name());
    }
    let sub_file_entries = entry.sub_file_entries().map_err(|e| Stop::Fail(format!("{}: iterator: {}", what, e.to_string())))?;
    let mut got = Vec::new();
    for sub_file_entry in sub_file_entries.take(count + 2) {
        match sub_file_entry {
            Ok(e) => got.push(e.get_name()),
            Err(e) => return fail(format!("{}: iterator: {}", what, e.to_string())),
        }
    }
    check_eq!(got, want, "{}: sub file entries by iterator", what);
    Ok(())
}

/// The path of a target; that of NTFS may be in the name space of objects.
pub fn target_of(kind: FsKind, target: &str) -> VfsPath {
    match kind {
        FsKind::Ext => VfsPath::Ext(ExtPath { components: target.split('/').map(ByteString::from).collect() }),
        _ => VfsPath::Ntfs(NtfsPath { components: target.strip_prefix("\\??\\").unwrap_or(target).split('\\').map(Ucs2String::from).collect() }),
    }
}

pub fn shown(location: &VfsLocation) -> String {
    let own = format!("{}:{}", location.get_type().as_str(), location.get_path().to_string());
    match location.get_parent() {
        Some(p) => format!("{} {}", shown(p), own),
        None => own,
    }
}
