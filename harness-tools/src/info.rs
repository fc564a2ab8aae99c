//! C74: what keramicsinfo tells.

use crate::common::*;
use crate::disk::*;
use crate::places::*;
use crate::run::*;
use keramics_datetime::DateTime;
use pbt::*;
use std::ffi::OsStr;
use std::path::Path;

/// Lines of a label and a value, what stands before the label does not matter.
struct Told {
    fields: Vec<(String, String)>,
    text: String,
}

impl Told {
    fn of(text: &str) -> Told {
        let fields = text
            .split('\n')
            .filter_map(|l| {
                let (label, rest) = l.trim_start().split_once('\t')?;
                let value = rest.trim_start_matches('\t').strip_prefix(": ").or_else(|| rest.trim_start_matches('\t').strip_prefix(":"))?;
                Some((label.to_string(), value.to_string()))
            })
            .collect();
        Told { fields, text: text.to_string() }
    }

    /// All values of a label.
    fn all(&self, label: &str) -> Vec<&str> {
        self.fields.iter().filter(|(l, _)| l == label).map(|(_, v)| v.as_str()).collect()
    }

    fn is(&self, label: &str, want: &str) -> CaseResult {
        check!(self.all(label) == [want], "{}: {:?}, expected {:?}\n{}", label, self.all(label), want, self.text);
        Ok(())
    }

    fn is_maybe(&self, label: &str, want: Option<String>) -> CaseResult {
        match want {
            Some(want) => self.is(label, &want),
            None => {
                check!(self.all(label).is_empty(), "{}: {:?}, expected none\n{}", label, self.all(label), self.text);
                Ok(())
            }
        }
    }

    fn is_size(&self, label: &str, want: u64) -> CaseResult {
        let all = self.all(label);
        check!(all.len() == 1, "{}: {:?}\n{}", label, all, self.text);
        size_is(label, all[0], want)
    }
}

/// A number of bytes that is rounded to one decimal of the largest unit.
fn rounded(text: &str, want: u64, base: u64) -> bool {
    let mut units = 0;
    let mut factor = 1u128;
    while factor * base as u128 <= want as u128 {
        factor *= base as u128;
        units += 1;
    }
    if units == 0 {
        return text == format!("{} B", want);
    }
    let unit = format!(" {}{}", ["", "K", "M", "G", "T", "P", "E", "Z"][units], if base == 1024 { "iB" } else { "B" });
    let Some((whole, tenth)) = text.strip_suffix(&unit).and_then(|n| n.split_once('.')) else {
        return false;
    };
    let (Ok(whole), Ok(tenth)) = (whole.parse::<u128>(), tenth.parse::<u128>()) else {
        return false;
    };
    // Half of a tenth, and what a floating point number may be off.
    tenth < 10 && ((whole * 10 + tenth) * factor).abs_diff(want as u128 * 10) <= factor / 2 + factor / 1024
}

fn size_is(label: &str, got: &str, want: u64) -> CaseResult {
    if want < 1024 {
        let bare = got.strip_suffix(" bytes").unwrap_or(got);
        check!(bare == want.to_string(), "{}: {:?}, expected {} bytes", label, got, want);
        return Ok(());
    }
    match got.strip_suffix(" bytes)").and_then(|g| g.split_once(" (")) {
        Some((short, exact)) => check!(exact == want.to_string() && rounded(short, want, 1024), "{}: {:?}, expected {} bytes", label, got, want),
        None => return fail(format!("{}: {:?}, expected {} bytes", label, got, want)),
    }
    Ok(())
}

fn info(arguments: &[&str], directory: &Path) -> Result<Output, Stop> {
    let arguments: Vec<&OsStr> = arguments.iter().map(|a| OsStr::new(*a)).collect();
    run("keramicsinfo", &arguments, &[], directory)
}

fn told(arguments: &[&str], directory: &Path, title: &str) -> Result<Told, Stop> {
    let arguments: Vec<&OsStr> = arguments.iter().map(|a| OsStr::new(*a)).collect();
    let o = succeed("keramicsinfo", &arguments, &[], directory)?;
    check!(o.text.lines().next() == Some(title), "{:?}: the first line is {:?}, expected {:?}", arguments, o.text.lines().next(), title);
    Ok(Told::of(&o.text))
}

// File systems.

fn long_name(kind: FsKind) -> &'static str {
    match kind {
        FsKind::Ext => "Extended File System (ext)",
        FsKind::Ntfs => "New Technologies File System (NTFS)",
        _ => "File Allocation Table (FAT)",
    }
}

fn time_text(t: &DateTime) -> String {
    match t {
        DateTime::NotSet => "Not set (0)".to_string(),
        DateTime::FatDate(t) => t.to_iso8601_string(),
        DateTime::FatTimeDate(t) => t.to_iso8601_string(),
        DateTime::FatTimeDate10Ms(t) => t.to_iso8601_string(),
        DateTime::Filetime(t) => t.to_iso8601_string(),
        DateTime::PosixTime32(t) => t.to_iso8601_string(),
        DateTime::PosixTime64Ns(t) => t.to_iso8601_string(),
        _ => "?".to_string(),
    }
}

fn entry_is(fs: &Fs, node: &Node, root: bool, by_path: bool, told: &Told) -> CaseResult {
    if by_path {
        // A root directory has no name of its own.
        if !root {
            told.is("Name", &node.name)?;
        }
    } else if !fs.kind.is_fat() {
        told.is_maybe("Name", None)?;
    }
    let size = told.all("Size");
    check!(size.len() == 1, "sizes {:?}", size);
    if node.kind == Kind::File {
        check_eq!(size[0].trim_end_matches(" bytes"), node.data.len().to_string(), "size of {:?}", node.name);
    }
    let labels = match fs.kind {
        FsKind::Ext => ["Modification time", "Access time", "Inode change time", "Creation time"],
        _ => ["Modification time", "Access time", "Entry modification time", "Creation time"],
    };
    let times = if root && fs.kind.is_fat() { [None, None, None, None] } else { times_of(fs, node) };
    for (label, t) in labels.iter().zip(&times) {
        told.is_maybe(label, t.as_ref().map(time_text))?;
    }
    match fs.kind {
        FsKind::Ext => {
            told.is("Inode number", &node.identifier.to_string())?;
            told.is("Deletion time", "Not set (0)")?;
            told.is("Number of links", if node.kind == Kind::Directory { "2" } else { "1" })?;
            told.is("Owner identifier", &node.owner.to_string())?;
            told.is("Group identifier", &node.group.to_string())?;
            let (letter, kind) = match node.kind {
                Kind::Pipe => ('p', 0x1000u16),
                Kind::Character => ('c', 0x2000),
                Kind::Directory => ('d', 0x4000),
                Kind::Block => ('b', 0x6000),
                Kind::File => ('-', 0x8000),
                Kind::Link => ('l', 0xa000),
                Kind::Socket => ('s', 0xc000),
            };
            let bits: String = (0..9).map(|i| if node.mode >> (8 - i) & 1 == 1 { "rwx".chars().nth(i % 3).unwrap() } else { '-' }).collect();
            told.is("File mode", &format!("{}{} (0o{:o})", letter, bits, kind | node.mode))?;
            let device = told.all("Device number");
            let is_device = matches!(node.kind, Kind::Character | Kind::Block);
            check!(device.len() == is_device as usize && device.iter().all(|d| d.starts_with("1,")), "device numbers {:?} of a {:?}", device, node.kind);
            // Targets are shown as they are, which is not what a line can hold.
            if !node.target.chars().any(|c| c < ' ' || c == '\\') {
                told.is_maybe("Symbolic link target", (node.kind == Kind::Link).then(|| node.target.clone()))?;
            }
        }
        FsKind::Ntfs => {
            told.is("File reference", &format!("{}-1", node.identifier))?;
        }
        _ => {
            told.is("Identifier", &format!("0x{:08x}", node.identifier))?;
        }
    }
    if !root && fs.kind != FsKind::Ext {
        let flags = node.mode as u64 & 7;
        let flags = match (node.kind, fs.kind) {
            (Kind::Link, _) => flags | 0x400,
            (Kind::Directory, k) if k.is_fat() => flags | 0x10,
            _ => flags | 0x20,
        };
        let width = if fs.kind.is_fat() { 2 } else { 8 };
        told.is("File attribute flags", &format!("0x{:0w$x}", flags, w = width))?;
        for (bit, name) in [(1, "READ_ONLY"), (2, "HIDDEN"), (4, "SYSTEM"), (0x10, "DIRECTORY"), (0x20, "ARCHIVE"), (0x40, "DEVICE"), (0x80, "NORMAL"), (0x100, "TEMPORARY"), (0x400, "FLAG_REPARSE_POINT")] {
            let shown = told.text.contains(&format!("(FILE_ATTRIBUTE_{})", name));
            check!(shown == (flags & bit != 0), "flags 0x{:x}: {} is {}shown", flags, name, if shown { "" } else { "not " });
        }
    }
    Ok(())
}

/// The attributes of an MFT entry.
fn ntfs_attributes_are(node: &Node, root: bool, told: &Told) -> CaseResult {
    told.is("Is allocated", "true")?;
    told.is("File reference", &format!("{}-1", node.identifier))?;
    told.is("Base record file reference", "Not set (0)")?;
    told.is("Name", if root { "." } else { &node.name })?;
    told.is("Name space", "Windows (1)")?;
    check!(told.text.contains("Attribute: $STANDARD_INFORMATION (0x00000010)\n"), "no standard information\n{}", told.text);
    check!(told.text.contains("Attribute: $FILE_NAME (0x00000030)\n"), "no file name\n{}", told.text);
    // Those of the standard information, then those of the file name.
    let t = node.times.map(|v| time_text(&if v == 0 { DateTime::NotSet } else { DateTime::Filetime(keramics_datetime::Filetime::new(v)) }));
    for (i, label) in ["Modification time", "Access time", "Entry modification time", "Creation time"].iter().enumerate() {
        check_eq!(told.all(label), [t[i].as_str(), t[(i + 1) % 4].as_str()], "{}", label);
    }
    let links = told.all("Reparse tag");
    check!(links.len() == (node.kind == Kind::Link) as usize && links.iter().all(|l| *l == "0xa000000c"), "reparse tags {:?}", links);
    // What the attribute list tells of, and sizes of what is in this entry.
    let mut forks = 0;
    for part in told.text.split("Attribute: ").skip(1) {
        let part_told = Told::of(part);
        if part.starts_with("$DATA (0x00000080)\n") {
            forks += 1;
            let data = match part_told.all("Attribute name").as_slice() {
                [] => &node.data,
                [name] => match node.forks.iter().find(|f| f.0 == *name) {
                    Some(f) => &f.1,
                    None => return fail(format!("a data attribute {:?}\n{}", name, told.text)),
                },
                _ => return fail(format!("more names\n{}", told.text)),
            };
            part_told.is_size("Data size", data.len() as u64)?;
            part_told.is("Data flags", "0x0000")?;
            let clusters = part_told.all("VCNs");
            let last = data.len().div_ceil(4096) as i64 - 1;
            check!(clusters.is_empty() || clusters == [format!("[0-{}]", last)], "VCNs {:?} of {} bytes", clusters, data.len());
        }
        if part.starts_with("$ATTRIBUTE_LIST (0x00000020)\n") {
            let mut count = 0;
            for (label, value) in &part_told.fields {
                if !label.starts_with("Entry: ") {
                    continue;
                }
                count += 1;
                let elsewhere = value.starts_with("$DATA");
                let number = if elsewhere { node.extension.unwrap_or(0) } else { node.identifier };
                check!(value.ends_with(&format!(" with file reference: {}-1", number)), "entry of the attribute list {:?}, expected {}-1", value, number);
            }
            part_told.is("Number of entries", &count.to_string())?;
            check!(count == 3 + node.forks.len(), "{} entries in the attribute list", count);
        }
    }
    let want = if node.kind == Kind::File { 1 + node.forks.len() } else { 0 };
    check!(forks == want, "{} data attributes, expected {}\n{}", forks, want, told.text);
    Ok(())
}

fn walk<'a>(node: &'a Node, path: &str, out: &mut Vec<(String, &'a Node)>) {
    out.push((if path.is_empty() { "/".to_string() } else { path.to_string() }, node));
    for c in &node.children {
        walk(c, &format!("{}/{}", path, c.name), out);
    }
}

fn file_systems(g: &mut Gen) -> CaseResult {
    let fs = fs(g, Limits { depth: 0, large: true, odd: false, raw: false });
    let volume = Volume::Fs(fs);
    let Volume::Fs(fs) = &volume else { return discard() };
    if ambiguous(&volume, &fs.bytes, false) {
        return discard();
    }
    let scratch = Scratch::new();
    let offset = if g.bool() { *g.pick(&[512usize, 1, 4096, 32256, 1000]) } else { 0 };
    let mut bytes = vec![0x5a; offset];
    bytes.extend(&fs.bytes);
    let name = *g.pick(&["volume.raw", "a b", "é"]);
    std::fs::write(scratch.path.join(name), &bytes).unwrap();
    g.class_if(offset > 0, "at an offset");
    let shown = if g.bool() { offset.to_string() } else { format!("0x{:x}", offset) };
    let mut base: Vec<&str> = vec![name];
    if offset > 0 {
        base = vec!["--offset", &shown, name];
    }
    let with = |more: &[&'static str]| -> Vec<&str> { base.iter().copied().chain(more.iter().copied()).collect() };
    let mut all = Vec::new();
    walk(&fs.root, "", &mut all);
    if all.len() > 3 {
        g.nontrivial();
    }
    // The file system.
    let t = told(&with(&[]), &scratch.path, &format!("{} information:", long_name(fs.kind)))?;
    match fs.kind {
        FsKind::Ext => {
            t.is("Format version", "ext2")?;
            t.is("Volume label", "label")?;
            t.is("Compatible features", "0x00000000")?;
            t.is("Incompatible features", "0x00000002")?;
            check!(t.text.contains("0x00000002: Directory entry has file type"), "features\n{}", t.text);
            t.is("Read-only compatible features", "0x00000000")?;
            let inodes = u32::from_le_bytes(fs.bytes[1024..1028].try_into().unwrap());
            t.is("Number of inodes", &inodes.to_string())?;
        }
        FsKind::Ntfs => {
            t.is("Format version", "3.1")?;
            t.is("Volume label", "label")?;
            t.is("Volume serial number", "0x1122334455667788")?;
            t.is("Volume flags", "0x0000")?;
            t.is("Bytes per sector", "512 bytes")?;
            t.is("Cluster block size", "4096 bytes")?;
            t.is("MFT entry size", if fs.bytes[64] == 0xf6 { "1024 bytes" } else { "4096 bytes" })?;
            t.is("Index entry size", "4096 bytes")?;
        }
        k => {
            let n = match k {
                FsKind::Fat12 => "FAT-12",
                FsKind::Fat16 => "FAT-16",
                _ => "FAT-32",
            };
            t.is("Format version", n)?;
        }
    }
    // Its hierarchy: every file, and what is not a directory has a line per data stream.
    let o = told(&with(&["hierarchy"]), &scratch.path, &format!("{} hierarchy:", long_name(fs.kind)))?;
    let mut got: Vec<String> = o.text.lines().skip(1).map(|l| l.to_string()).collect();
    let mut want = Vec::new();
    for (path, node) in &all {
        if fs.kind != FsKind::Ntfs {
            want.push(path.clone());
        } else if node.kind == Kind::File {
            want.push(path.clone());
            want.extend(node.forks.iter().map(|f| format!("{}:{}", path, f.0)));
        } else {
            // That may or may not be listed.
            got.retain(|l| l != path);
        }
    }
    got.sort();
    want.sort();
    check!(got == want, "hierarchy: {:?}, expected {:?}", got, want);
    // Some of its files.
    for _ in 0..g.usize(1, 4) {
        let at = g.usize(0, all.len() - 1);
        let (path, node) = (all[at].0.clone(), all[at].1);
        let root = at == 0;
        let mut arguments = base.clone();
        if g.bool() {
            arguments.extend(["path", &path]);
            let t = told(&arguments, &scratch.path, &format!("{} file entry information:", long_name(fs.kind)))?;
            entry_is(fs, node, root, true, &t)?;
        } else {
            if fs.kind.is_fat() && (root || node.identifier == fs.root.identifier) {
                // The first record of the root directory is taken for the directory.
                continue;
            }
            let number = if g.bool() { node.identifier.to_string() } else { format!("0x{:x}", node.identifier) };
            arguments.extend(["entry", &number]);
            let title = match fs.kind {
                FsKind::Ntfs => format!("{} MFT entry: {} information:", long_name(fs.kind), node.identifier),
                k => format!("{} file entry information:", long_name(k)),
            };
            let t = told(&arguments, &scratch.path, &title)?;
            if fs.kind == FsKind::Ntfs {
                ntfs_attributes_are(node, root, &t)?;
            } else {
                entry_is(fs, node, root, false, &t)?;
            }
            if let Some(extension) = node.extension {
                // The entry that has the rest of the attributes.
                g.class("attribute list");
                let number = extension.to_string();
                let mut arguments = base.clone();
                arguments.extend(["entry", &number]);
                let title = format!("{} MFT entry: {} information:", long_name(fs.kind), extension);
                let t = told(&arguments, &scratch.path, &title)?;
                t.is("Base record file reference", &format!("{}-1", node.identifier))?;
            }
        }
    }
    let mut arguments = base.clone();
    arguments.extend(["path", "/no such file"]);
    let o = info(&arguments, &scratch.path)?;
    check!(o.code != 0 && o.text.contains("No such file entry"), "a path that is not there: exit status {} {}", o.code, o.text);
    Ok(())
}

// Volume systems and images.

fn volumes(g: &mut Gen) -> CaseResult {
    let (volume, top) = parts(g, Limits { depth: 0, large: false, odd: false, raw: false });
    if ambiguous(&volume, &top, false) {
        return discard();
    }
    let Volume::Parts(scheme, parts) = &volume else {
        return discard();
    };
    let (scratch, top) = (Scratch::new(), &top);
    std::fs::write(scratch.path.join("volumes.raw"), top).unwrap();
    let title = match scheme {
        Scheme::Mbr => "Master Boot Record (MBR) information:",
        Scheme::Gpt => "GUID Partition Table (GPT) information:",
        Scheme::Apm => "Apple Partition Map (APM) information:",
    };
    let t = told(&["volumes.raw"], &scratch.path, title)?;
    t.is("Bytes per sector", "512 bytes")?;
    // A partition map has itself as partition.
    let count = t.all("Number of partitions");
    let blocks: Vec<Told> = t.text.split("\nPartition: ").skip(1).map(Told::of).collect();
    check!(count == [blocks.len().to_string()], "number of partitions {:?}, {} are told of", count, blocks.len());
    let skip = (*scheme == Scheme::Apm) as usize;
    let blocks = &blocks[skip.min(blocks.len() - parts.len().min(blocks.len()))..];
    check!(blocks.len() == parts.len(), "{} partitions, expected {}\n{}", blocks.len(), parts.len(), t.text);
    if parts.len() > 1 {
        g.nontrivial();
    }
    for (i, (b, p)) in blocks.iter().zip(parts).enumerate() {
        b.is("Offset", &format!("{} (0x{:08x})", p.at, p.at))?;
        b.is_size("Size", p.size as u64)?;
        match scheme {
            Scheme::Mbr => {
                let kind = top.chunks(512).flat_map(|s| s[446..510].chunks(16)).next();
                check!(kind.is_some() && b.all("Type").len() == 1, "type {:?}", b.all("Type"));
                if i < 3 && top[446 + 16 * i + 4] != 5 {
                    let kind = top[446 + 16 * i + 4];
                    check!(b.all("Type")[0].starts_with(&format!("0x{:02x}", kind)), "type {:?}, expected 0x{:02x}", b.all("Type"), kind);
                }
            }
            Scheme::Gpt => {
                b.is("Identifier", &gpt_identifier(i + 1))?;
                b.is("Type identifier", "ebd0a0a2-b9e5-4433-87c0-68b6b72699c7")?;
            }
            Scheme::Apm => {
                b.is("Type identifier", "Apple_HFS")?;
                b.is("Name", "name")?;
                b.is("Status flags", "0x00000033")?;
                check!(b.text.contains("0x00000001: Is valid") && b.text.contains("0x00000020: Is writeable") && !b.text.contains("Is in use"), "status flags\n{}", b.text);
            }
        }
    }
    match scheme {
        Scheme::Mbr => t.is("Disk identity", "0x1020304")?,
        Scheme::Gpt => t.is("Disk identifier", "00000007-0000-0000-0000-000000000000")?,
        Scheme::Apm => {}
    }
    Ok(())
}

fn images(g: &mut Gen) -> CaseResult {
    let mut found = None;
    for _ in 0..6 {
        let d = disk(g, Limits { depth: 1, large: false, odd: false, raw: false }, false);
        // The image may begin with what it has.
        let file = &d.files.iter().find(|f| f.0 == d.name).unwrap().1;
        let head = file.get(0, (file.size as usize).min(8192));
        if d.wrap != Wrap::None && !ambiguous(&Volume::Raw, &head, false) && !ambiguous(&d.volume, d.top(), false) && !ambiguous_files(&d) {
            found = Some((d, head));
            break;
        }
    }
    let Some((d, head)) = found else { return discard() };
    let scratch = Scratch::new();
    scratch.write(&d);
    let title = match d.wrap {
        Wrap::Qcow => "QEMU Copy-On-Write (QCOW) information:",
        Wrap::Vhd => "Virtual Hard Disk (VHD) information:",
        Wrap::Vhdx => "Virtual Hard Disk (VHDX) information:",
        Wrap::Ewf => "Expert Witness Compression Format (EWF) information:",
        Wrap::SparseImage => "Sparse image (.sparseimage) information:",
        _ => "Universal Disk Image Format (UDIF) information:",
    };
    let absolute = scratch.path.join(&d.name);
    let source = if g.bool() { d.name.as_str() } else { absolute.to_str().unwrap() };
    let t = told(&[source], &scratch.path, title)?;
    t.is_size("Media size", d.top().len() as u64)?;
    g.nontrivial();
    let parent = (d.layers.len() > 1).then(|| d.files[d.layers.len() - 2].0.clone());
    let guid = |i: usize| {
        let h = format!("{:02x}", 0x20 + i);
        format!("{}-{}-{}-{}-{}", h.repeat(4), h.repeat(2), h.repeat(2), h.repeat(2), h.repeat(6))
    };
    match d.wrap {
        Wrap::Qcow => {
            t.is("Format version", &head[7].to_string())?;
            t.is_maybe("Backing file name", parent)?;
            t.is("Encryption method", "None")?;
        }
        Wrap::Vhd => {
            t.is("Format version", "1.0")?;
            let kind = if parent.is_some() {
                "Differential"
            } else if head.starts_with(b"conectix") {
                "Dynamic"
            } else {
                "Fixed"
            };
            t.is("Disk type", kind)?;
            t.is("Bytes per sector", "512 bytes")?;
            t.is("Identifier", &guid(d.layers.len()))?;
            t.is_maybe("Parent identifier", parent.as_ref().map(|_| guid(d.layers.len() - 1)))?;
            t.is_maybe("Parent name", parent)?;
        }
        Wrap::Vhdx => {
            t.is("Format version", "2.1")?;
            t.is("Disk type", if parent.is_some() { "Differential" } else { "Dynamic" })?;
            t.is("Bytes per sector", "512 bytes")?;
            t.is("Identifier", &guid(d.layers.len()))?;
            t.is_maybe("Parent identifier", parent.as_ref().map(|_| guid(d.layers.len() - 1)))?;
            t.is_maybe("Parent name", parent)?;
        }
        Wrap::Ewf => {
            t.is("Set identifier", &"03".repeat(16).chars().enumerate().flat_map(|(i, c)| if [8, 12, 16, 20].contains(&i) { vec!['-', c] } else { vec![c] }).collect::<String>())?;
            t.is("Bytes per sector", "512")?;
            t.is("Number of sectors", &(d.top().len() / 512).to_string())?;
            t.is("Error granularity", "64 sectors")?;
            let stored = d.md5.filter(|m| *m != [0; 16]).map(|m| m.iter().map(|b| format!("{:02x}", b)).collect::<String>());
            t.is_maybe("MD5", stored)?;
            for (label, value) in [("Case number", "case"), ("Description", "description"), ("Examiner name", "examiner"), ("Evidence number", "evidence"), ("Notes", "notes"), ("Software version used", "6"), ("Operating system used", "os")] {
                t.is(label, value)?;
            }
            t.is_maybe("Password", None)?;
        }
        Wrap::SparseImage => {
            t.is("Bytes per sector", "512 bytes")?;
            let sectors = u32::from_be_bytes(head[8..12].try_into().unwrap()) as u64;
            t.is_size("Band size", sectors * 512)?;
        }
        _ => t.is("Bytes per sector", "512 bytes")?,
    }
    Ok(())
}

fn sizes(g: &mut Gen) -> CaseResult {
    let base = if g.bool() { 1024u64 } else { 1000 };
    let v = match g.below_or(3) {
        0 => g.edgy(64),
        1 => {
            let p = g.below_or(6) as u32;
            let k = g.range(1, 1023);
            base.pow(p).saturating_mul(k).wrapping_add(g.below_or(4)).wrapping_sub(2)
        }
        2 => g.below_or(3000),
        _ => g.u64() >> g.below_or(63),
    };
    if v >= 1000 {
        g.nontrivial();
    }
    let got = crate::formatters::format_as_bytesize(v, base);
    check!(rounded(&got, v, base), "{} bytes in units of {}: {:?}", v, base, got);
    Ok(())
}

pub static C74: Property = Property {
    id: "C74",
    rule: "a file system of more than three files; more than one partition; an image; a size of 1000 or more",
    assumptions: &["names that need no care when they are shown"],
    facets: &[
        Facet { name: "file systems", work: Work::Random(60, 1500), case: file_systems },
        Facet { name: "volumes", work: Work::Random(40, 800), case: volumes },
        Facet { name: "images", work: Work::Random(40, 800), case: images },
        Facet { name: "sizes", work: Work::Random(5000, 200_000), case: sizes },
    ],
};
