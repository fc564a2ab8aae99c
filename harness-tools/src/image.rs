//! C70 bodyfiles, C71 digests, C72 hierarchies of storage media images.

use crate::common::*;
use crate::disk::*;
use crate::hashes;
use crate::run::*;
use pbt::*;

// Bodyfiles.

/// Seconds with a fraction of so many digits.
fn seconds(total: i128, digits: usize) -> String {
    let unit = 10i128.pow(digits as u32);
    format!("{}{}.{:0w$}", if total < 0 { "-" } else { "" }, total.abs() / unit, total.abs() % unit, w = digits)
}

fn fat_seconds(date: u64, time: u64) -> Option<i128> {
    let (y, m, d) = (1980 + (date >> 9) as i128, (date >> 5 & 15) as i128, (date & 31) as i128);
    if m < 1 || m > 12 || d < 1 {
        return None;
    }
    // Days from March of year 0.
    let (a, b) = if m > 2 { (y, m - 3) } else { (y - 1, m + 9) };
    let days = 365 * a + a / 4 - a / 100 + a / 400 + (153 * b + 2) / 5 + d - 1 - 719468;
    Some(days * 86400 + ((time >> 11) * 3600 + (time >> 5 & 63) * 60 + (time & 31) * 2) as i128)
}

fn stamp(fs: &Fs, index: usize, v: u64) -> String {
    match fs.kind {
        FsKind::Ext if fs.small => {
            if index == 3 || v == 0 {
                String::new()
            } else {
                format!("{}", v as u32 as i32)
            }
        }
        FsKind::Ext => seconds((v >> 32) as i128 * 1_000_000_000 + (v & 0xffffffff) as i128, 9),
        FsKind::Ntfs => {
            if v == 0 {
                String::new()
            } else {
                seconds(v as i128 - 116444736000000000, 7)
            }
        }
        _ => {
            let s = fat_seconds(v >> 16 & 0xffff, v & 0xffff);
            match (index, s) {
                (2, _) | (_, None) => String::new(),
                (1, Some(_)) => format!("{}", fat_seconds(v >> 16 & 0xffff, 0).unwrap()),
                (3, Some(s)) => seconds(s * 100 + (v >> 32) as i128, 2),
                (_, Some(s)) => format!("{}", s),
            }
        }
    }
}

fn mode(fs: &Fs, node: &Node, root: bool) -> String {
    let letter = match node.kind {
        Kind::Directory => "d",
        Kind::File => "-",
        Kind::Link => "l",
        Kind::Pipe => "p",
        Kind::Socket => "s",
        Kind::Character => "c",
        Kind::Block => "b",
    };
    if fs.kind == FsKind::Ext {
        let bits: String = (0..9).map(|i| if node.mode >> (8 - i) & 1 == 1 { "rwx".chars().nth(i % 3).unwrap() } else { '-' }).collect();
        format!("{}{}", letter, bits)
    } else if node.mode & 5 != 0 && !(root && fs.kind.is_fat()) {
        format!("{}r-xr-xr-x", letter)
    } else {
        format!("{}rwxrwxrwx", letter)
    }
}

fn hex_md5(data: &[u8]) -> String {
    hashes::md5(data).iter().map(|b| format!("{:02x}", b)).collect()
}

fn bodyfile_of(d: &Disk, by_identifier: bool, md5: bool) -> Vec<String> {
    let mut out = vec!["# extended bodyfile 3 format".to_string()];
    for (part, fs) in systems(d) {
        let prefix = prefix(part, by_identifier);
        for (path, node) in nodes(fs, true) {
            let root = std::ptr::eq(node, &fs.root);
            let digest = if !md5 {
                "0".to_string()
            } else if node.kind == Kind::File {
                hex_md5(&node.data)
            } else {
                "0".repeat(32)
            };
            let suffix = if node.kind == Kind::Link { format!(" -> {}", link_target(fs, node)) } else { String::new() };
            let identifier = match fs.kind {
                FsKind::Ext => format!("{}", node.identifier),
                FsKind::Ntfs => format!("{}-1", node.identifier),
                _ => format!("0x{:08x}", node.identifier),
            };
            let (owner, group) = if fs.kind == FsKind::Ext { (format!("{}", node.owner), format!("{}", node.group)) } else { (String::new(), String::new()) };
            let times = |t: &[u64; 4]| -> String {
                if root && fs.kind.is_fat() {
                    return "|||".to_string();
                }
                // Access, modification, change, and creation.
                [1, 0, 2, 3].map(|i| stamp(fs, i, t[i])).join("|")
            };
            let mode = mode(fs, node, root);
            let size = |n: usize| if node.kind == Kind::File { n.to_string() } else { "*".to_string() };
            let rest = |n: String, t: &[u64; 4]| format!("{}|{}|{}|{}|{}|{}", identifier, mode, owner, group, n, times(t));
            out.push(format!("{}|{}{}{}|{}", digest, prefix, path, suffix, rest(size(node.data.len()), &node.times)));
            for (name, data) in &node.forks {
                let digest = if md5 { hex_md5(data) } else { "0".to_string() };
                out.push(format!("{}|{}{}:{}|{}", digest, prefix, path, escaped(fs.kind, name, true), rest(data.len().to_string(), &node.times)));
            }
            if fs.kind == FsKind::Ntfs && !root {
                let t = &node.times;
                out.push(format!("{}|{}{} ($FILE_NAME)|{}", digest, prefix, path, rest(size(node.data.len()), &[t[1], t[2], t[3], t[0]])));
            }
        }
    }
    out
}

/// Targets are not escaped.
fn link_target(fs: &Fs, node: &Node) -> String {
    crate::places::target_of(fs.kind, &node.target).to_string()
}

/// The size of what is not a file is up to the file system.
fn without_size(line: &str) -> String {
    let mut parts: Vec<String> = line.split('|').map(|s| s.to_string()).collect();
    let n = parts.len();
    // From the end: a target may have what separates.
    if n >= 11 && !parts[n - 8].starts_with('-') && parts[n - 5].bytes().all(|b| b.is_ascii_digit()) {
        parts[n - 5] = "*".to_string();
    }
    parts.join("|")
}

fn bodyfiles(g: &mut Gen) -> CaseResult {
    let odd = g.bool();
    let (scratch, d) = setup(g, true, odd)?;
    // Targets are not escaped, so one of these cannot be read back.
    fn plain(n: &Node) -> bool {
        !n.target.chars().any(|c| c < ' ' || c == '|') && n.children.iter().all(plain)
    }
    if systems(&d).iter().any(|(_, fs)| !plain(&fs.root)) {
        return discard();
    }
    let (by_identifier, md5) = (g.bool(), g.bool());
    let mut arguments = vec![d.name.as_str(), "bodyfile"];
    if md5 {
        arguments.push("--calculate-md5");
    }
    if by_identifier {
        arguments.extend(["--volume-path-type", "identifier"]);
    }
    let arguments: Vec<&std::ffi::OsStr> = arguments.iter().map(|a| std::ffi::OsStr::new(*a)).collect();
    let o = succeed("keramicsimage", &arguments, &[], &scratch.path)?;
    let want = bodyfile_of(&d, by_identifier, md5);
    check_eq!(o.text.split('\n').next(), Some(want[0].as_str()), "first line");
    if want.len() > 5 {
        g.nontrivial();
    }
    let got: String = o.text.split('\n').map(without_size).collect::<Vec<String>>().join("\n");
    same_lines("bodyfile", &got, want)
}

/// Times of every kind, on their own.
fn timestamps(g: &mut Gen) -> CaseResult {
    use keramics_datetime::*;
    let fat = |g: &mut Gen| (g.edgy(16), g.edgy(16));
    let (time, want) = match g.below_or(6) {
        0 => {
            let v = match g.below_or(2) {
                0 => g.edgy(64),
                1 => 116444736000000000u64.wrapping_add(g.below_or(40_000_000)).wrapping_sub(20_000_000),
                _ => g.u64(),
            };
            (DateTime::Filetime(Filetime::new(v)), seconds(v as i128 - 116444736000000000, 7))
        }
        1 => {
            let v = g.edgy(32) as u32 as i32;
            (DateTime::PosixTime32(PosixTime32::new(v)), v.to_string())
        }
        2 => {
            let v = if g.bool() { g.edgy(64) as i64 } else { g.below_or(6) as i64 - 3 };
            let f = *g.pick(&[0u32, 1, 999_999_999, 500_000_000, 123_456_789, 100]);
            (DateTime::PosixTime64Ns(PosixTime64Ns::new(v, f)), seconds(v as i128 * 1_000_000_000 + f as i128, 9))
        }
        3 => {
            let (d, _) = fat(g);
            (DateTime::FatDate(FatDate::new(d as u16)), fat_seconds(d, 0).map_or(String::new(), |s| s.to_string()))
        }
        4 => {
            let (d, t) = fat(g);
            (DateTime::FatTimeDate(FatTimeDate::new(d as u16, t as u16)), fat_seconds(d, t).map_or(String::new(), |s| s.to_string()))
        }
        5 => {
            let (d, t) = fat(g);
            let f = g.u8();
            (DateTime::FatTimeDate10Ms(FatTimeDate10Ms::new(d as u16, t as u16, f)), fat_seconds(d, t).map_or(String::new(), |s| seconds(s * 100 + f as i128, 2)))
        }
        _ => (DateTime::NotSet, String::new()),
    };
    if want.len() > 3 {
        g.nontrivial();
    }
    let got = crate::bodyfile::Bodyfile::format_as_timestamp(Some(&time)).map_err(|e| e.to_string());
    check_eq!(got, Ok(want), "{:?}", time);
    Ok(())
}

// Digests.

const KINDS: [&str; 5] = ["md5", "sha1", "sha224", "sha256", "sha512"];

fn digest(kind: &str, data: &[u8]) -> String {
    let d = match kind {
        "md5" => hashes::md5(data),
        "sha1" => hashes::sha1(data),
        "sha224" => hashes::sha224(data),
        "sha256" => hashes::sha256(data),
        _ => hashes::sha512(data),
    };
    d.iter().map(|b| format!("{:02x}", b)).collect()
}

fn digests(g: &mut Gen) -> CaseResult {
    let odd = g.bool();
    let (scratch, d) = setup(g, true, odd)?;
    let kind = *g.pick(&KINDS);
    let by_identifier = g.bool();
    let mut arguments = vec![d.name.as_str()];
    if kind != "md5" || g.bool() {
        arguments.extend(["-d", kind]);
    }
    if by_identifier {
        arguments.extend(["--volume-path-type", "identifier"]);
    }
    g.class(kind);
    let arguments: Vec<&std::ffi::OsStr> = arguments.iter().map(|a| std::ffi::OsStr::new(*a)).collect();
    let o = succeed("keramicshash", &arguments, &[], &scratch.path)?;
    let mut want = Vec::new();
    if d.wrap == Wrap::None && matches!(d.volume, Volume::Raw) {
        want.push(format!("{}  {}", digest(kind, d.top()), d.name));
    }
    for (part, fs) in systems(&d) {
        let prefix = prefix(part, by_identifier);
        for (path, node) in nodes(fs, false) {
            if node.kind == Kind::File {
                want.push(format!("{}\t{}{}", digest(kind, &node.data), prefix, path));
                for (name, data) in &node.forks {
                    want.push(format!("{}\t{}{}:{}", digest(kind, data), prefix, path, escaped(fs.kind, name, false)));
                }
            }
        }
    }
    if want.len() > 3 {
        g.nontrivial();
    }
    same_lines("digests", &o.text, want)
}

fn streams(g: &mut Gen) -> CaseResult {
    let n = match g.below_or(2) {
        0 => g.usize(0, 300),
        1 => *g.pick(&[65535usize, 65536, 65537, 131072, 111, 112, 119, 120, 128]),
        _ => g.length(300_000, 20_000),
    };
    let data = content(g, n);
    let kind = *g.pick(&KINDS);
    g.class(kind);
    if n > 64 {
        g.nontrivial();
    }
    let scratch = crate::places::Scratch::new();
    let o = succeed("keramicshash", &["-d", kind].map(std::ffi::OsStr::new), &data, &scratch.path)?;
    check_eq!(o.text, format!("{}  -\n", digest(kind, &data)), "digest of the standard input of {} bytes", n);
    Ok(())
}

// Hierarchies and digests of media.

fn expect_volume(volume: &Volume, depth: usize, out: &mut Vec<String>) {
    let mut line = |depth: usize, text: String| out.push(format!("{}{}", " ".repeat(4 * depth), text));
    match volume {
        Volume::Raw => {}
        Volume::Fs(fs) => {
            let (t, root) = match fs.kind {
                FsKind::Ext => ("EXT", "/"),
                FsKind::Ntfs => ("NTFS", "\\"),
                _ => ("FAT", "/"),
            };
            line(depth, format!("{}: path: {}", t, root));
        }
        Volume::Parts(scheme, parts) => {
            let (t, prefix) = match scheme {
                Scheme::Mbr => ("MBR", "mbr"),
                Scheme::Gpt => ("GPT", "gpt"),
                Scheme::Apm => ("APM", "apm"),
            };
            line(depth, format!("{}: path: /", t));
            for (i, p) in parts.iter().enumerate() {
                let alias = if *scheme == Scheme::Gpt { format!(" (alias: /gpt{{{}}})", gpt_identifier(i + 1)) } else { String::new() };
                out.push(format!("{}{}: path: /{}{}{}", " ".repeat(4 * depth + 4), t, prefix, i + 1, alias));
                expect_volume(&p.volume, depth + 2, out);
            }
        }
    }
}

fn hierarchies(g: &mut Gen) -> CaseResult {
    let (scratch, d) = setup(g, true, false)?;
    let source = if g.bool() { scratch.path.join(&d.name) } else { std::path::PathBuf::from(&d.name) };
    let mut want = vec![format!("OS: path: {}", source.display())];
    let mut depth = 1;
    if let Some((_, prefix)) = crate::places::wrap_type(d.wrap) {
        want.push(format!("    {}: path: /", if d.wrap == Wrap::SparseImage { "SPARSEIMAGE".to_string() } else { prefix.to_uppercase() }));
        depth = 2;
    }
    expect_volume(&d.volume, depth, &mut want);
    if want.len() > 3 {
        g.nontrivial();
    }
    let mut arguments = vec![source.as_os_str()];
    if g.bool() {
        arguments.push(std::ffi::OsStr::new("hierarchy"));
    }
    let o = succeed("keramicsimage", &arguments, &[], &scratch.path)?;
    check_eq!(o.text, want.iter().map(|l| format!("{}\n", l)).collect::<String>(), "hierarchy");
    Ok(())
}

fn media(g: &mut Gen) -> CaseResult {
    let (scratch, d) = setup(g, false, false)?;
    let arguments = [d.name.as_str(), "hash"].map(std::ffi::OsStr::new);
    if matches!(d.wrap, Wrap::Qcow | Wrap::Vhd | Wrap::Vhdx) {
        // The tool does not support these.
        return discard();
    }
    if d.wrap == Wrap::None {
        let o = run("keramicsimage", &arguments, &[], &scratch.path)?;
        check!(o.code != 0 && !o.text.contains("hash\t"), "digest of the media of what is no image: {}", o.text);
        return Ok(());
    }
    let o = succeed("keramicsimage", &arguments, &[], &scratch.path)?;
    let mut want = format!("\nCalculated MD5 hash\t: {}\n", digest("md5", d.top()));
    if let Some(stored) = d.md5.filter(|m| *m != [0; 16]) {
        want += &format!("Stored MD5 hash\t\t: {}\n", stored.iter().map(|b| format!("{:02x}", b)).collect::<String>());
        g.class("stored digest");
    }
    g.nontrivial();
    check_eq!(o.text, want, "digest of the media");
    Ok(())
}

// Exports.

fn exports(g: &mut Gen) -> CaseResult {
    let (scratch, d) = setup(g, true, false)?;
    let systems = systems(&d);
    // Every file with its path and fork.
    let mut all: Vec<(usize, Vec<String>, Option<String>, &[u8])> = Vec::new();
    fn visit<'a>(i: usize, n: &'a Node, names: &mut Vec<String>, out: &mut Vec<(usize, Vec<String>, Option<String>, &'a [u8])>) {
        if n.kind == Kind::File {
            out.push((i, names.clone(), None, &n.data));
            for (fork, data) in &n.forks {
                out.push((i, names.clone(), Some(fork.clone()), data));
            }
        }
        for c in &n.children {
            names.push(c.name.clone());
            visit(i, c, names, out);
            names.pop();
        }
    }
    for (i, (_, fs)) in systems.iter().enumerate() {
        visit(i, &fs.root, &mut Vec::new(), &mut all);
    }
    let target = scratch.path.join("target");
    std::fs::create_dir(&target).unwrap();
    let export = |path: &str, name: Option<&str>| {
        let _ = std::fs::remove_file(target.join("keramics.bin"));
        let mut arguments = vec!["-t", "target", d.name.as_str(), "path", path];
        if let Some(name) = name {
            arguments.extend(["--name", name]);
        }
        let arguments: Vec<&std::ffi::OsStr> = arguments.iter().map(|a| std::ffi::OsStr::new(*a)).collect();
        run("keramicsexport", &arguments, &[], &scratch.path)
    };
    if systems.is_empty() {
        let o = export("/x", None)?;
        check!(!target.join("keramics.bin").exists(), "there is no file system, and something is exported: {}", o.text);
        return Ok(());
    }
    for _ in 0..g.usize(1, 3) {
        if all.is_empty() || g.chance(1, 6) {
            let o = export("/no such/file", None)?;
            check!(o.code == 0 && o.text == "No data streams exported\n" && !target.join("keramics.bin").exists(), "a file that is not there: {} {}", o.code, o.text);
            continue;
        }
        let at = g.usize(0, all.len() - 1);
        let (_, names, fork, _) = &all[at];
        let path = format!("/{}", names.join("/"));
        if fork.as_deref().is_some_and(|f| f.starts_with('-')) {
            continue;
        }
        let o = export(&path, fork.as_deref())?;
        check!(o.code == 0 && o.text.is_empty(), "{:?} {:?}: {} {}", path, fork, o.code, o.text);
        let got = std::fs::read(target.join("keramics.bin")).unwrap_or_default();
        // The same path may be in more file systems; the last one is what stays.
        let mut want: Option<&[u8]> = None;
        for (i, (_, fs)) in systems.iter().enumerate() {
            let same = |a: &str, b: &str| key(fs.kind, a) == key(fs.kind, b);
            let found = all.iter().find(|(j, n, f, _)| {
                *j == i
                    && n.len() == names.len()
                    && n.iter().zip(names).all(|(a, b)| same(a, b))
                    && match (f, fork) {
                        (None, None) => true,
                        (Some(a), Some(b)) => same(a, b),
                        _ => false,
                    }
            });
            if let Some((_, _, _, data)) = found {
                want = Some(data);
            }
        }
        let want = want.unwrap();
        if want.len() > 100 {
            g.nontrivial();
        }
        g.class_if(fork.is_some(), "named fork");
        check!(got == want, "{:?} {:?}: {}", path, fork, difference(&got, want));
    }
    Ok(())
}

pub static C73: Property = Property {
    id: "C73",
    rule: "a data stream of more than 100 bytes",
    assumptions: &["names without a slash"],
    facets: &[Facet { name: "exports", work: Work::Random(30, 800), case: exports }],
};

pub static C70: Property = Property {
    id: "C70",
    rule: "a bodyfile of more than five lines; a time of more than three characters",
    assumptions: &["targets of symbolic links are shown as paths are, which are a property of their own"],
    facets: &[Facet { name: "bodyfiles", work: Work::Random(40, 1000), case: bodyfiles }, Facet { name: "times", work: Work::Random(4000, 100_000), case: timestamps }],
};

pub static C71: Property = Property {
    id: "C71",
    rule: "more than three data forks; standard input of more than 64 bytes",
    assumptions: &[],
    facets: &[Facet { name: "disks", work: Work::Random(30, 800), case: digests }, Facet { name: "standard input", work: Work::Random(30, 800), case: streams }],
};

pub static C72: Property = Property {
    id: "C72",
    rule: "a hierarchy of more than three lines; the media of an image",
    assumptions: &[],
    facets: &[Facet { name: "hierarchies", work: Work::Random(30, 800), case: hierarchies }, Facet { name: "media", work: Work::Random(20, 500), case: media }],
};
