//! Whole disks: file systems of given files, in partitions, in images, in files of other disks.

use crate::common::*;
use pbt::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Directory,
    File,
    Link,
    Pipe,
    Socket,
    Character,
    Block,
}

#[derive(Clone)]
pub struct Node {
    pub name: String,
    pub kind: Kind,
    pub data: Vec<u8>,
    /// Named forks.
    pub forks: Vec<(String, Vec<u8>)>,
    pub target: String,
    pub mode: u16,
    pub owner: u32,
    pub group: u32,
    /// Modification, access, change, and creation as the file system stores them.
    pub times: [u64; 4],
    pub children: Vec<Node>,
    pub identifier: u64,
    /// The MFT entry that has the data of an NTFS file.
    pub extension: Option<u64>,
    pub inner: Option<Rc<Disk>>,
}

impl Node {
    pub fn new(kind: Kind, name: &str) -> Node {
        Node {
            name: name.to_string(),
            kind,
            data: Vec::new(),
            forks: Vec::new(),
            target: String::new(),
            mode: 0,
            owner: 0,
            group: 0,
            times: [0; 4],
            children: Vec::new(),
            identifier: 0,
            extension: None,
            inner: None,
        }
    }

    pub fn file(name: &str, data: Vec<u8>) -> Node {
        let mut n = Node::new(Kind::File, name);
        n.data = data;
        n
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FsKind {
    Fat12,
    Fat16,
    Fat32,
    Ext,
    Ntfs,
}

impl FsKind {
    pub fn is_fat(&self) -> bool {
        matches!(self, FsKind::Fat12 | FsKind::Fat16 | FsKind::Fat32)
    }
}

pub struct Fs {
    pub kind: FsKind,
    pub root: Node,
    pub bytes: Vec<u8>,
    /// Inodes of 128 bytes.
    pub small: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Scheme {
    Mbr,
    Gpt,
    Apm,
}

pub struct Part {
    pub at: usize,
    pub size: usize,
    pub volume: Volume,
}

pub enum Volume {
    /// Nothing that is known.
    Raw,
    Fs(Fs),
    Parts(Scheme, Vec<Part>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wrap {
    None,
    Qcow,
    Vhd,
    Vhdx,
    Ewf,
    SparseImage,
    Udif,
}

pub struct Disk {
    pub wrap: Wrap,
    /// The data of every layer, the last one is on top.
    pub layers: Vec<Vec<u8>>,
    /// What the top layer has.
    pub volume: Volume,
    pub files: Vec<(String, Sparse)>,
    pub name: String,
    /// Stored MD5.
    pub md5: Option<[u8; 16]>,
}

impl Disk {
    pub fn top(&self) -> &Vec<u8> {
        self.layers.last().unwrap()
    }
}

/// What may be generated.
#[derive(Clone, Copy)]
pub struct Limits {
    /// Disks in files of disks.
    pub depth: usize,
    pub large: bool,
    /// Names that need care when they are shown.
    pub odd: bool,
    /// Names that are not text; the character U+F7xx stands for the byte xx.
    pub raw: bool,
}

/// The bytes of a name.
pub fn raw_bytes(name: &str) -> Vec<u8> {
    let mut out = Vec::new();
    for c in name.chars() {
        if (0xf780..0xf800).contains(&(c as u32)) {
            out.push(c as u8);
        } else {
            out.extend(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    out
}

// Names and trees.

fn letter(g: &mut Gen, kind: FsKind, odd: bool) -> char {
    let plain = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-";
    let chars: Vec<char> = match g.weighted(&[12, 3, if odd { 3 } else { 0 }]) {
        0 => plain.chars().collect(),
        1 => " .+,;=[]éßΩж日本".chars().collect(),
        _ if kind.is_fat() => "~!#\u{a0}\u{ad}\u{200b}\u{2028}\u{feff}\u{301}".chars().collect(),
        _ if kind == FsKind::Ext => "\\|:*?\"<>\u{1}\u{9}\u{a}\u{1b}\u{7f}\u{85}\u{9f}\u{a0}\u{ad}\u{200b}\u{2028}\u{202e}\u{feff}\u{301}😀\u{e0001}".chars().collect(),
        _ => "/|*?\"<>\u{1}\u{9}\u{a}\u{1b}\u{7f}\u{85}\u{9f}\u{a0}\u{ad}\u{200b}\u{2028}\u{202e}\u{feff}\u{301}😀\u{e0001}".chars().collect(),
    };
    *g.pick(&chars)
}

/// Names that are the same for the file system have the same key.
pub fn key(kind: FsKind, name: &str) -> String {
    if kind == FsKind::Ext {
        name.to_string()
    } else {
        name.chars().flat_map(|c| c.to_uppercase()).collect()
    }
}

pub fn name(g: &mut Gen, kind: FsKind, odd: bool) -> String {
    if g.chance(1, 8) && !odd {
        return g.pick(&["A", "README.TXT", "file.txt", "TEST", "a.b.c"]).to_string();
    }
    let n = 1 + g.length(24, 6);
    let s: String = (0..n).map(|_| letter(g, kind, odd)).collect();
    // The end may not be a space or dot, and "." and ".." are taken.
    let s = s.trim_matches(|c: char| c == ' ' || c == '.').to_string();
    if s.is_empty() {
        "x".to_string()
    } else {
        s
    }
}

fn bytes(g: &mut Gen, limit: usize) -> Vec<u8> {
    let n = match g.below_or(3) {
        0 => g.usize(0, 40),
        1 => *g.pick(&[0usize, 511, 512, 513, 1023, 1024, 1025, 4096]),
        _ => g.length(limit, 2000),
    };
    content(g, n.min(limit))
}

fn times(g: &mut Gen, kind: FsKind, small: bool) -> [u64; 4] {
    let mut t = [0u64; 4];
    for (i, v) in t.iter_mut().enumerate() {
        *v = match kind {
            FsKind::Ext if small => {
                if i == 3 {
                    0
                } else {
                    *g.pick(&[1, 1735977482, 0x7fffffff, 0xffffffff, 86399, 0x80000000])
                }
            }
            // Seconds and nanoseconds.
            FsKind::Ext => (*g.pick(&[1u64, 1735977482, 0x7fffffff, 0xffffffff, 86399]) << 32) | *g.pick(&[0u64, 1, 999999999, 123456789, 500000000, 100]),
            FsKind::Ntfs => match g.below_or(3) {
                0 => 116444736000000000 + g.below_or(10_000_000),
                1 => 133800000000000000 + g.below_or(1 << 50),
                2 => *g.pick(&[0u64, 1, 116444735999999999, 116444736000000000]),
                _ => g.below_or(1 << 58),
            },
            _ => {
                let date = g.below_or(100) << 9 | g.range(1, 12) << 5 | g.range(1, 28);
                let time = g.below_or(23) << 11 | g.below_or(59) << 5 | g.below_or(29);
                // Date, time, and hundredths of a second.
                match i {
                    0 => date << 16 | time,
                    1 => date << 16,
                    2 => 0,
                    _ => date << 16 | time | g.below_or(199) << 32,
                }
            }
        };
    }
    t
}

fn target(g: &mut Gen, kind: FsKind) -> String {
    let n = g.usize(1, 4);
    let odd = g.chance(1, 4);
    let parts: Vec<String> = (0..n).map(|_| if g.chance(1, 4) { "..".to_string() } else { name(g, kind, odd).replace('/', "s") }).collect();
    if kind == FsKind::Ext {
        format!("{}{}", if g.bool() { "/" } else { "" }, parts.join("/"))
    } else {
        format!("{}{}", *g.pick(&["", "\\??\\C:\\", "\\"]), parts.join("\\"))
    }
}

fn tree(g: &mut Gen, kind: FsKind, small: bool, depth: usize, budget: &mut usize, l: Limits) -> Vec<Node> {
    let mut out: Vec<Node> = Vec::new();
    let mut keys: Vec<String> = Vec::new();
    let n = if depth == 0 { g.usize(0, 6) } else { g.usize(0, 4) };
    let odd = l.odd && g.chance(2, 3);
    let add = |mut node: Node, g: &mut Gen, out: &mut Vec<Node>, keys: &mut Vec<String>| {
        let k = key(kind, &node.name);
        if !keys.contains(&k) {
            keys.push(k);
            node.times = times(g, kind, small);
            node.mode = *g.pick(&[0o644u16, 0o755, 0o600, 0, 0o777]);
            if g.chance(1, 4) {
                node.mode = g.below_or(0o7777) as u16;
            }
            node.owner = *g.pick(&[0u32, 1000, 65534, 70000]);
            node.group = *g.pick(&[0u32, 100, 65535, 65536]);
            out.push(node);
        }
    };
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        if l.depth > 0 && g.chance(1, if depth == 0 { 5 } else { 9 }) {
            let below = Limits { depth: l.depth - 1, large: false, odd: l.odd, raw: l.raw };
            let d = Rc::new(disk(g, below, true));
            g.class("disk in a file of a disk");
            // All of the files, or none.
            if d.files.iter().any(|(n, _)| keys.contains(&key(kind, n))) {
                continue;
            }
            for (name, data) in &d.files {
                let mut node = Node::file(name, data.get(0, data.size as usize));
                if *name == d.name {
                    node.inner = Some(d.clone());
                }
                add(node, g, &mut out, &mut keys);
            }
            continue;
        }
        let what = match kind {
            FsKind::Ext => g.weighted(&[6, 3, 2, 1]),
            FsKind::Ntfs => g.weighted(&[6, 3, 1, 0]),
            _ => g.weighted(&[6, 3, 0, 0]),
        };
        let mut text = name(g, kind, odd);
        if l.raw && kind != FsKind::Ntfs && g.chance(1, 8) {
            // Neither of these bytes is in valid UTF-8 on its own.
            let b = *g.pick(&[0xf780u32, 0xf7a0, 0xf7bf, 0xf7f8, 0xf7ff]);
            text = format!("N{}{}", char::from_u32(b).unwrap(), g.pick(&["", "X", "1", "Z_"]));
            g.class("name that is not text");
        }
        let mut node = Node::new(Kind::File, &text);
        match what {
            0 => {
                let most = if g.chance(1, 8) { 30000 } else { 5000 };
                node.data = bytes(g, most);
                if kind == FsKind::Ntfs && g.chance(1, 3) {
                    let n = g.usize(1, 3);
                    for _ in 0..n {
                        let fork = name(g, kind, odd);
                        if !node.forks.iter().any(|f| key(kind, &f.0) == key(kind, &fork)) {
                            let data = bytes(g, 3000);
                            node.forks.push((fork, data));
                        }
                    }
                    g.class("named forks");
                }
            }
            1 => {
                node.kind = Kind::Directory;
                if depth < 3 {
                    node.children = tree(g, kind, small, depth + 1, budget, l);
                }
            }
            2 => {
                node.kind = Kind::Link;
                node.target = target(g, kind);
                g.class("symbolic link");
            }
            _ => node.kind = *g.pick(&[Kind::Pipe, Kind::Socket, Kind::Character, Kind::Block]),
        }
        add(node, g, &mut out, &mut keys);
    }
    out
}

pub fn fs(g: &mut Gen, l: Limits) -> Fs {
    let kind = *g.pick(&[FsKind::Fat12, FsKind::Ext, FsKind::Ntfs, FsKind::Ext, FsKind::Fat32, if l.large { FsKind::Fat16 } else { FsKind::Fat12 }]);
    let small = kind == FsKind::Ext && g.bool();
    let mut budget = 12;
    let mut root = Node::new(Kind::Directory, "");
    root.children = tree(g, kind, small, 0, &mut budget, l);
    root.times = times(g, kind, small);
    root.mode = 0o755;
    let bytes = match kind {
        FsKind::Ext => ext(g, &mut root, small),
        FsKind::Ntfs => ntfs(g, &mut root),
        _ => fat(g, &mut root, kind),
    };
    g.class(match kind {
        FsKind::Fat12 => "FAT-12",
        FsKind::Fat16 => "FAT-16",
        FsKind::Fat32 => "FAT-32",
        FsKind::Ext => "ext2",
        FsKind::Ntfs => "NTFS",
    });
    Fs { kind, root, bytes, small }
}

// FAT.

struct Fat {
    /// Clusters, the first one is 2.
    clusters: Vec<Vec<u8>>,
    next: Vec<u32>,
    size: usize,
    aliases: u32,
}

impl Fat {
    fn place(&mut self, data: &[u8]) -> u32 {
        if data.is_empty() {
            return 0;
        }
        let first = self.clusters.len() as u32 + 2;
        let n = data.len().div_ceil(self.size);
        for i in 0..n {
            let mut c = data[i * self.size..((i + 1) * self.size).min(data.len())].to_vec();
            c.resize(self.size, 0);
            self.clusters.push(c);
            self.next.push(if i + 1 < n { first + i as u32 + 1 } else { 0x0fffffff });
        }
        first
    }
}

pub fn short_of(name: &str) -> Option<[u8; 11]> {
    let ok = |s: &[u8]| s.iter().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b"_-~!#".contains(b) || *b >= 0x80);
    let (base, extension) = name.split_once('.').unwrap_or((name, ""));
    if !name.chars().all(|c| c.is_ascii() || (0xf780..0xf800).contains(&(c as u32))) {
        return None;
    }
    let (base, extension) = (&raw_bytes(base)[..], &raw_bytes(extension)[..]);
    if base.is_empty() || base.len() > 8 || extension.len() > 3 || !ok(base) || !ok(extension) || name.ends_with('.') {
        return None;
    }
    let mut out = [b' '; 11];
    out[..base.len()].copy_from_slice(base);
    out[8..8 + extension.len()].copy_from_slice(extension);
    Some(out)
}

fn fat_directory(f: &mut Fat, nodes: &mut [Node], own: u32, parent: u32, root: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let record = |name: &[u8; 11], attributes: u8, t: &[u64; 4], first: u32, size: usize| {
        let mut r = vec![0u8; 32];
        r.at(0, name);
        r[11] = attributes;
        r[13] = (t[3] >> 32) as u8;
        r.set_le(14, t[3] & 0xffff, 2);
        r.set_le(16, t[3] >> 16 & 0xffff, 2);
        r.set_le(18, t[1] >> 16 & 0xffff, 2);
        r.set_le(20, first as u64 >> 16, 2);
        r.set_le(22, t[0] & 0xffff, 2);
        r.set_le(24, t[0] >> 16 & 0xffff, 2);
        r.set_le(26, first as u64 & 0xffff, 2);
        r.set_le(28, size as u64, 4);
        r
    };
    if !root {
        let z = [0u64; 4];
        out.extend(record(b".          ", 0x10, &z, own, 0));
        out.extend(record(b"..         ", 0x10, &z, parent, 0));
    }
    for node in nodes.iter_mut() {
        let (first, attributes, size) = if node.kind == Kind::Directory {
            // The records need the number of the first cluster.
            let at = f.clusters.len();
            let count = 2 + node.children.iter().map(|c| 1 + c.name.encode_utf16().count().div_ceil(13)).sum::<usize>();
            let blank = vec![0u8; (count + 1) * 32];
            let first = f.place(&blank);
            let data = fat_directory(f, &mut node.children, first, own, false);
            for (i, c) in data.chunks(f.size).enumerate() {
                f.clusters[at + i][..c.len()].copy_from_slice(c);
            }
            (first, 0x10, 0)
        } else {
            (f.place(&node.data), 0x20, node.data.len())
        };
        let attributes = attributes | (node.mode & 7) as u8;
        let short = match short_of(&node.name) {
            Some(short) => short,
            None => {
                f.aliases += 1;
                let mut short = *b"N000000~1  ";
                short[9] = b' ';
                let text = format!("{:05X}~1", f.aliases);
                short[1..8].copy_from_slice(&text.as_bytes()[..7]);
                short[8..].fill(b' ');
                let sum = short.iter().fold(0u8, |s, b| s.rotate_right(1).wrapping_add(*b));
                let mut units: Vec<u16> = node.name.encode_utf16().collect();
                let n = units.len().div_ceil(13);
                if units.len() % 13 != 0 {
                    units.push(0);
                }
                units.resize(n * 13, 0xffff);
                for i in (0..n).rev() {
                    let mut r = vec![0u8; 32];
                    r[0] = (i + 1) as u8 | if i + 1 == n { 0x40 } else { 0 };
                    r[11] = 0x0f;
                    r[13] = sum;
                    for (k, u) in units[i * 13..i * 13 + 13].iter().enumerate() {
                        let at = if k < 5 { 1 + 2 * k } else if k < 11 { 14 + 2 * (k - 5) } else { 28 + 2 * (k - 11) };
                        r.set_le(at, *u as u64, 2);
                    }
                    out.extend(r);
                }
                short
            }
        };
        node.identifier = out.len() as u64;
        out.extend(record(&short, attributes, &node.times, first, size));
    }
    out
}

/// Sets identifiers of file entries: where the record of the short name is.
fn fat_identifiers(nodes: &mut [Node], chain: &dyn Fn(u64, u64) -> u64, firsts: &dyn Fn(u64) -> u64, base: u64) {
    for node in nodes.iter_mut() {
        node.identifier = chain(base, node.identifier);
        if node.kind == Kind::Directory {
            let first = firsts(node.identifier);
            fat_identifiers(&mut node.children, chain, firsts, first);
        }
    }
}

/// About the number of sectors that the nodes need.
fn weight(nodes: &[Node]) -> usize {
    nodes.iter().map(|n| 2 + n.data.len().div_ceil(512) + weight(&n.children)).sum()
}

fn fat(g: &mut Gen, root: &mut Node, kind: FsKind) -> Vec<u8> {
    let mut per = *g.pick(&[1usize, 2, 4]);
    if kind == FsKind::Fat12 {
        // FAT-12 has at most 4084 clusters.
        let sectors = weight(&root.children);
        while sectors > 3000 * per {
            per *= 2;
        }
    }
    let size = 512 * per;
    let mut f = Fat { clusters: Vec::new(), next: Vec::new(), size, aliases: 0 };
    let mut root_first = 2;
    let mut label = vec![0u8; 0];
    if g.bool() {
        label = vec![0u8; 32];
        label.at(0, b"THE LABEL  ");
        label[11] = 8;
    }
    let table = if kind == FsKind::Fat32 {
        let count = 2 + root.children.iter().map(|c| 1 + c.name.encode_utf16().count().div_ceil(13)).sum::<usize>();
        root_first = f.place(&vec![0u8; (count + 1) * 32]);
        let mut data = fat_directory(&mut f, &mut root.children, 0, 0, true);
        data.extend(&label);
        for (i, c) in data.chunks(size).enumerate() {
            f.clusters[i][..c.len()].copy_from_slice(c);
        }
        Vec::new()
    } else {
        let mut data = fat_directory(&mut f, &mut root.children, 0, 0, true);
        data.extend(&label);
        data.resize(data.len().next_multiple_of(512).max(512), 0);
        data
    };
    let clusters = match kind {
        FsKind::Fat16 => 4200.max(f.clusters.len() + 5),
        _ => f.clusters.len() + 3,
    };
    let width = match kind {
        FsKind::Fat12 => ((clusters + 2) * 3).div_ceil(2),
        FsKind::Fat16 => (clusters + 2) * 2,
        _ => (clusters + 2) * 4,
    };
    let table_sectors = width.div_ceil(512);
    let tables = g.usize(1, 2);
    let reserved = if kind == FsKind::Fat32 { 4 } else { 1 };
    let root_at = reserved + tables * table_sectors;
    let data_at = root_at + table.len() / 512;
    let sectors = data_at + clusters * per;
    let mut out = vec![0u8; sectors * 512];
    let boot = &mut out[..512];
    boot.at(0, b"\xeb\x3c\x90MSWIN4.1");
    boot.set_le(11, 512, 2);
    boot[13] = per as u8;
    boot.set_le(14, reserved as u64, 2);
    boot[16] = tables as u8;
    boot.set_le(17, table.len() as u64 / 32, 2);
    boot[21] = 0xf8;
    let short = sectors < 0x10000 && kind != FsKind::Fat32;
    boot.set_le(19, if short { sectors as u64 } else { 0 }, 2);
    boot.set_le(32, if short { 0 } else { sectors as u64 }, 4);
    let at = if kind == FsKind::Fat32 {
        boot.set_le(36, table_sectors as u64, 4);
        boot.set_le(44, root_first as u64, 4);
        66
    } else {
        boot.set_le(22, table_sectors as u64, 2);
        38
    };
    boot[at] = 0x29;
    boot.set_le(at + 1, 0x12345678, 4);
    boot.at(at + 5, b"NO NAME    ");
    boot.at(at + 16, match kind {
        FsKind::Fat12 => b"FAT12   ",
        FsKind::Fat16 => b"FAT16   ",
        _ => b"FAT32   ",
    });
    boot.at(510, &[0x55, 0xaa]);
    let mut values = vec![0x0ffffff8u32, 0x0fffffff];
    values.extend(&f.next);
    let mut bits = vec![0u8; table_sectors * 512];
    for (i, v) in values.iter().enumerate() {
        match kind {
            FsKind::Fat12 => {
                let at = i * 3 / 2;
                let v = v & 0xfff;
                if i % 2 == 0 {
                    bits[at] = v as u8;
                    bits[at + 1] = bits[at + 1] & 0xf0 | (v >> 8) as u8;
                } else {
                    bits[at] = bits[at] & 0x0f | (v << 4) as u8;
                    bits[at + 1] = (v >> 4) as u8;
                }
            }
            FsKind::Fat16 => bits.set_le(2 * i, (v & 0xffff) as u64, 2),
            _ => bits.set_le(4 * i, *v as u64, 4),
        }
    }
    for t in 0..tables {
        out.at((reserved + t * table_sectors) * 512, &bits);
    }
    out.at(root_at * 512, &table);
    for (i, c) in f.clusters.iter().enumerate() {
        out.at(data_at * 512 + i * size, c);
    }
    // Clusters of a directory follow each other.
    let place = |base: u64, at: u64| base + at;
    let image = out.clone();
    let firsts = |record: u64| {
        let r = &image[record as usize..record as usize + 32];
        let first = r[26] as u64 | (r[27] as u64) << 8 | (r[20] as u64) << 16 | (r[21] as u64) << 24;
        data_at as u64 * 512 + (first - 2) * size as u64
    };
    let base = if kind == FsKind::Fat32 { data_at as u64 * 512 } else { root_at as u64 * 512 };
    fat_identifiers(&mut root.children, &place, &firsts, base);
    root.identifier = if kind == FsKind::Fat32 { 0 } else { base };
    out
}

// ext2.

struct Ext {
    blocks: Vec<Vec<u8>>,
    first: u32,
    inodes: Vec<Vec<u8>>,
    small: bool,
}

impl Ext {
    fn block(&mut self, data: &[u8]) -> u32 {
        let mut d = data.to_vec();
        d.resize(1024, 0);
        self.blocks.push(d);
        self.first + self.blocks.len() as u32 - 1
    }

    fn map(&mut self, data: &[u8]) -> (Vec<u8>, u32) {
        let start = self.blocks.len();
        let numbers: Vec<u32> = data.chunks(1024).map(|c| if c.iter().all(|b| *b == 0) { 0 } else { self.block(c) }).collect();
        let mut reference = vec![0u8; 60];
        for (i, n) in numbers.iter().take(12).enumerate() {
            reference.set_le(4 * i, *n as u64, 4);
        }
        let table = |e: &mut Ext, numbers: &[u32]| {
            let b: Vec<u8> = numbers.iter().flat_map(|n| n.to_le_bytes()).collect();
            e.block(&b)
        };
        if numbers.len() > 12 {
            let n = table(self, &numbers[12..numbers.len().min(268)]);
            reference.set_le(48, n as u64, 4);
        }
        if numbers.len() > 268 {
            let tables: Vec<u32> = numbers[268..].chunks(256).map(|c| table(self, c)).collect();
            let n = table(self, &tables);
            reference.set_le(52, n as u64, 4);
        }
        (reference, (self.blocks.len() - start) as u32 * 2)
    }

    fn put(&mut self, node: &Node, kind: u16, size: usize, reference: &[u8], sectors: u32) {
        let mut d = vec![0u8; if self.small { 128 } else { 256 }];
        d.set_le(0, (kind | node.mode) as u64, 2);
        d.set_le(2, node.owner as u64 & 0xffff, 2);
        d.set_le(4, size as u64, 4);
        d.set_le(24, node.group as u64 & 0xffff, 2);
        d.set_le(120, node.owner as u64 >> 16, 2);
        d.set_le(122, node.group as u64 >> 16, 2);
        d.set_le(26, if kind == 0x4000 { 2 } else { 1 }, 2);
        d.set_le(28, sectors as u64, 4);
        d.at(40, reference);
        for (k, at) in [(0, 16), (1, 8), (2, 12)] {
            d.set_le(at, if self.small { node.times[k] } else { node.times[k] >> 32 }, 4);
        }
        if !self.small {
            d.set_le(128, 32, 2);
            // A time from 2038 on is one epoch later.
            let extra = |t: u64| (t & 0xffffffff) << 2 | (t >> 63);
            for (k, at) in [(2, 132), (0, 136), (1, 140), (3, 148)] {
                d.set_le(at, extra(node.times[k]), 4);
            }
            d.set_le(144, node.times[3] >> 32, 4);
        }
        self.inodes[node.identifier as usize - 1] = d;
    }

    fn node(&mut self, g: &mut Gen, node: &mut Node, parent: u64) {
        match node.kind {
            Kind::Directory => {
                let mut list: Vec<(Vec<u8>, u64, u8)> = vec![(b".".to_vec(), node.identifier, 2), (b"..".to_vec(), parent, 2)];
                let own = node.identifier;
                for c in node.children.iter_mut() {
                    self.inodes.push(Vec::new());
                    c.identifier = self.inodes.len() as u64;
                    let t = match c.kind {
                        Kind::File => 1,
                        Kind::Directory => 2,
                        Kind::Character => 3,
                        Kind::Block => 4,
                        Kind::Pipe => 5,
                        Kind::Socket => 6,
                        Kind::Link => 7,
                    };
                    list.push((raw_bytes(&c.name), c.identifier, t));
                }
                let mut children = std::mem::take(&mut node.children);
                for c in children.iter_mut() {
                    self.node(g, c, own);
                }
                node.children = children;
                let mut data: Vec<u8> = Vec::new();
                let mut last = 0;
                for (name, ino, t) in &list {
                    let size = (8 + name.len()).next_multiple_of(4);
                    if data.len() % 1024 + size > 1024 || (data.len() % 1024 == 0 && !data.is_empty()) {
                        let end = data.len().next_multiple_of(1024);
                        let n = end - last;
                        data.set_le(last + 4, n as u64, 2);
                        data.resize(end, 0);
                    }
                    last = data.len();
                    let mut e = vec![0u8; size];
                    e.set_le(0, *ino, 4);
                    e.set_le(4, size as u64, 2);
                    e[6] = name.len() as u8;
                    e[7] = *t;
                    e.at(8, name);
                    data.extend(e);
                }
                let end = data.len().next_multiple_of(1024);
                let n = end - last;
                data.set_le(last + 4, n as u64, 2);
                data.resize(end, 0);
                let (reference, sectors) = self.map(&data);
                let size = data.len();
                self.put(node, 0x4000, size, &reference, sectors);
            }
            Kind::File => {
                let data = node.data.clone();
                let (reference, sectors) = self.map(&data);
                self.put(node, 0x8000, data.len(), &reference, sectors);
            }
            Kind::Link => {
                let t = node.target.clone().into_bytes();
                if t.len() < 60 {
                    let mut reference = t.clone();
                    reference.resize(60, 0);
                    self.put(node, 0xa000, t.len(), &reference, 0);
                } else {
                    let (reference, sectors) = self.map(&t);
                    self.put(node, 0xa000, t.len(), &reference, sectors);
                }
            }
            kind => {
                let mut reference = vec![0u8; 60];
                let kind = match kind {
                    Kind::Pipe => 0x1000,
                    Kind::Character => 0x2000,
                    Kind::Block => 0x6000,
                    _ => 0xc000,
                };
                if kind == 0x2000 || kind == 0x6000 {
                    reference[0] = g.u8();
                    reference[1] = 1;
                }
                self.put(node, kind, 0, &reference, 0);
            }
        }
    }
}

fn count(node: &Node) -> usize {
    1 + node.children.iter().map(count).sum::<usize>()
}

fn ext(g: &mut Gen, root: &mut Node, small: bool) -> Vec<u8> {
    let inode_size = if small { 128 } else { 256 };
    let inodes = (12 + count(root)).next_multiple_of(8);
    let table_blocks = (inodes * inode_size).div_ceil(1024);
    let first = 5 + table_blocks as u32;
    let mut e = Ext { blocks: Vec::new(), first, inodes: vec![Vec::new(); 11], small };
    root.identifier = 2;
    e.node(g, root, 2);
    let blocks = first as usize + e.blocks.len() + 2;
    let mut out = vec![0u8; blocks * 1024];
    let s = &mut out[1024..2048];
    s.set_le(0, inodes as u64, 4);
    s.set_le(4, blocks as u64, 4);
    s.set_le(20, 1, 4);
    s.set_le(32, 8192, 4);
    s.set_le(36, 8192, 4);
    s.set_le(40, inodes as u64, 4);
    s.set_le(56, 0xef53, 2);
    s.set_le(58, 1, 2);
    s.set_le(76, 1, 4);
    s.set_le(84, 11, 4);
    s.set_le(88, inode_size as u64, 2);
    s.set_le(96, 2, 4);
    s.at(104, b"0123456789abcdef");
    s.at(120, b"label");
    let d = &mut out[2048..2080];
    d.set_le(0, 3, 4);
    d.set_le(4, 4, 4);
    d.set_le(8, 5, 4);
    for (i, inode) in e.inodes.iter().enumerate() {
        out.at(5 * 1024 + i * inode_size, inode);
    }
    for (i, b) in e.blocks.iter().enumerate() {
        out.at((first as usize + i) * 1024, b);
    }
    out
}

// NTFS.

fn units(text: &str) -> Vec<u8> {
    text.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

/// The table of upper case characters: those of one unit each.
fn upper() -> Vec<u16> {
    (0..0x10000u32)
        .map(|c| match char::from_u32(c) {
            Some(ch) => {
                let mut up = ch.to_uppercase();
                match (up.next(), up.next()) {
                    (Some(u), None) if (u as u32) < 0x10000 => u as u16,
                    _ => c as u16,
                }
            }
            None => c as u16,
        })
        .collect()
}

thread_local! {
    static UPPER: Vec<u16> = upper();
}

fn attribute(kind: u32, name: &str, data: &[u8], run: Option<(u64, u64)>) -> Vec<u8> {
    let name = units(name);
    let mut a = vec![0u8; 24];
    a.set_le(0, kind as u64, 4);
    a[9] = (name.len() / 2) as u8;
    match run {
        None => {
            a.set_le(10, 24, 2);
            a.extend(&name);
            a.resize(a.len().next_multiple_of(8), 0);
            let n = a.len() as u64;
            a.set_le(16, data.len() as u64, 4);
            a.set_le(20, n, 2);
            a.extend(data);
        }
        Some((cluster, size)) => {
            let clusters = size.div_ceil(4096);
            a.resize(64, 0);
            a[8] = 1;
            a.set_le(10, 64, 2);
            a.set_le(16, 0, 8);
            a.set_le(24, clusters.wrapping_sub(1), 8);
            a.extend(&name);
            a.resize(a.len().next_multiple_of(8), 0);
            let n = a.len() as u64;
            a.set_le(32, n, 2);
            a.set_le(40, clusters * 4096, 8);
            a.set_le(48, size, 8);
            a.set_le(56, size, 8);
            a.push(0x44);
            a.extend((clusters as u32).to_le_bytes());
            a.extend((cluster as u32).to_le_bytes());
            a.push(0);
        }
    }
    a.resize(a.len().next_multiple_of(8), 0);
    let n = a.len() as u64;
    a.set_le(4, n, 4);
    a
}

fn fix(data: &mut [u8], at: usize) {
    for i in 0..data.len() / 512 {
        let end = 512 * (i + 1) - 2;
        let old = [data[end], data[end + 1]];
        data.at(at + 2 + 2 * i, &old);
        data.at(end, &[0x5a, 1]);
    }
    data.at(at, &[0x5a, 1]);
}

struct Ntfs {
    entry: usize,
    records: Vec<Option<Vec<u8>>>,
    /// Clusters after those of the master file table and the upper case table.
    clusters: Vec<u8>,
    first: u64,
}

impl Ntfs {
    fn store(&mut self, data: &[u8]) -> u64 {
        let at = self.first + self.clusters.len() as u64 / 4096;
        self.clusters.extend(data);
        self.clusters.resize(self.clusters.len().next_multiple_of(4096), 0);
        at
    }

    fn record(&mut self, number: u64, base: u64, directory: bool, mut attributes: Vec<Vec<u8>>) {
        // By type, those without name first.
        attributes.sort_by_key(|a| u32::from_le_bytes(a[..4].try_into().unwrap()));
        let mut out = vec![0u8; self.entry];
        let header = if self.entry == 1024 { 56 } else { 72 };
        out.at(0, b"FILE");
        out.set_le(4, 48, 2);
        out.set_le(6, self.entry as u64 / 512 + 1, 2);
        out.set_le(16, 1, 2);
        out.set_le(18, 1, 2);
        out.set_le(20, header as u64, 2);
        out.set_le(22, 1 | (directory as u64) << 1, 2);
        out.set_le(28, self.entry as u64, 4);
        if base != 0 {
            out.set_le(32, base | 1 << 48, 8);
        }
        out.set_le(40, attributes.len() as u64 + 1, 2);
        out.set_le(44, number, 4);
        let mut at = header;
        for (i, a) in attributes.iter_mut().enumerate() {
            a.set_le(14, i as u64, 2);
            out.at(at, a);
            at += a.len();
        }
        out.set_le(at, 0xffffffff, 4);
        out.set_le(24, at as u64 + 8, 4);
        fix(&mut out, 48);
        self.records[number as usize] = Some(out);
    }

    fn info(node: &Node, flags: u64) -> Vec<u8> {
        let mut d = vec![0u8; 72];
        // Creation, modification, change, and access.
        for (i, k) in [3, 0, 2, 1].into_iter().enumerate() {
            d.set_le(8 * i, node.times[k], 8);
        }
        d.set_le(32, flags, 4);
        attribute(0x10, "", &d, None)
    }

    fn key(node: &Node, parent: u64, flags: u64) -> Vec<u8> {
        let mut d = vec![0u8; 66];
        d.set_le(0, parent | 1 << 48, 8);
        // Other times than those of the file itself.
        for (i, k) in [3, 0, 2, 1].into_iter().enumerate() {
            d.set_le(8 + 8 * i, node.times[(k + 1) % 4], 8);
        }
        d.set_le(40, (node.data.len() as u64).next_multiple_of(8), 8);
        d.set_le(48, node.data.len() as u64, 8);
        d.set_le(56, flags | (node.kind == Kind::Directory) as u64 * 0x10000000, 4);
        d[64] = node.name.encode_utf16().count() as u8;
        d[65] = 1;
        d.extend(units(&node.name));
        d
    }

    fn node(&mut self, g: &mut Gen, node: &mut Node, parent: u64) {
        let flags = node.mode as u64 & 7 | if node.kind == Kind::Link { 0x400 } else { 0x20 };
        let mut name = node.clone();
        if parent == node.identifier {
            name.name = ".".to_string();
        }
        let mut list = vec![Ntfs::info(node, flags), attribute(0x30, "", &Ntfs::key(&name, parent, flags), None)];
        let mut room = self.entry - 100 - list.iter().map(|a| a.len()).sum::<usize>();
        if node.kind == Kind::Directory {
            let own = node.identifier;
            for c in node.children.iter_mut() {
                self.records.push(None);
                c.identifier = self.records.len() as u64 - 1;
            }
            let mut children = std::mem::take(&mut node.children);
            for c in children.iter_mut() {
                self.node(g, c, own);
            }
            let fold = |name: &str| UPPER.with(|u| name.encode_utf16().map(|c| u[c as usize]).collect::<Vec<u16>>());
            let mut sorted: Vec<&Node> = children.iter().collect();
            sorted.sort_by_key(|c| fold(&c.name));
            let mut values: Vec<u8> = Vec::new();
            for c in sorted {
                let flags = if c.kind == Kind::Link { 0x400 } else { 0x20 };
                let k = Ntfs::key(c, own, flags);
                let mut v = vec![0u8; 16];
                v.set_le(0, c.identifier | 1 << 48, 8);
                v.set_le(10, k.len() as u64, 2);
                v.extend(k);
                v.resize(v.len().next_multiple_of(8), 0);
                let n = v.len() as u64;
                v.set_le(8, n, 2);
                values.extend(v);
            }
            node.children = children;
            let mut end = vec![0u8; 16];
            end.set_le(8, 16, 2);
            end.set_le(12, 2, 2);
            let large = values.len() + 200 > room || g.chance(1, 4);
            if large {
                // All in one block.
                let mut b = vec![0u8; 4096];
                b.at(0, b"INDX");
                b.set_le(4, 40, 2);
                b.set_le(6, 9, 2);
                values.extend(&end);
                b.set_le(24, 40, 4);
                b.set_le(28, values.len() as u64 + 40, 4);
                b.set_le(32, 4096 - 24, 4);
                b.at(64, &values);
                fix(&mut b, 40);
                let at = self.store(&b);
                values.clear();
                end = vec![0u8; 24];
                end.set_le(8, 24, 2);
                end.set_le(12, 3, 2);
                list.push(attribute(0xa0, "$I30", &[], Some((at, 4096))));
                list.push(attribute(0xb0, "$I30", &[1, 0, 0, 0, 0, 0, 0, 0], None));
            }
            values.extend(&end);
            let mut r = vec![0u8; 32];
            r.set_le(0, 0x30, 4);
            r.set_le(4, 1, 4);
            r.set_le(8, 4096, 4);
            r[12] = 1;
            r.set_le(16, 16, 4);
            r.set_le(20, values.len() as u64 + 16, 4);
            r.set_le(24, values.len() as u64 + 16, 4);
            r.set_le(28, large as u64, 4);
            r.extend(values);
            list.push(attribute(0x90, "$I30", &r, None));
        } else {
            let mut forks: Vec<(String, Vec<u8>)> = vec![(String::new(), node.data.clone())];
            forks.extend(node.forks.iter().cloned());
            forks[1..].sort_by_key(|f| f.0.encode_utf16().collect::<Vec<u16>>());
            if node.kind == Kind::Link {
                let t = units(&node.target);
                let relative = !node.target.starts_with('\\');
                let mut b = vec![0u8; 20];
                b.set_le(0, 0xa000000c, 4);
                b.set_le(4, 12 + 2 * t.len() as u64, 2);
                b.set_le(8, t.len() as u64, 2);
                b.set_le(10, t.len() as u64, 2);
                b.set_le(12, 0, 2);
                b.set_le(14, t.len() as u64, 2);
                b.set_le(16, relative as u64, 4);
                b.extend(&t);
                b.extend(&t);
                list.push(attribute(0xc0, "", &b, None));
                forks.clear();
            }
            for (name, data) in &forks {
                let resident = attribute(0x80, name, data, None);
                let left = (forks.len() + 1) * 150;
                if resident.len() + left < room && g.chance(2, 3) {
                    room -= resident.len();
                    list.push(resident);
                } else if data.is_empty() {
                    list.push(resident);
                } else {
                    let at = self.store(data);
                    list.push(attribute(0x80, name, &[], Some((at, data.len() as u64))));
                }
            }
        }
        if node.kind == Kind::File && list.len() > 2 && g.chance(1, 6) {
            // The data is in another entry.
            self.records.push(None);
            let other = self.records.len() as u64 - 1;
            node.extension = Some(other);
            let moved = list.split_off(2);
            let mut entries = Vec::new();
            let mut entry = |a: &[u8], id: usize, number: u64| {
                let name = &a[a[10] as usize..][..a[9] as usize * 2];
                let mut e = vec![0u8; 26];
                e.at(0, &a[..4]);
                e[6] = a[9];
                e[7] = 26;
                e.set_le(16, number | 1 << 48, 8);
                e.set_le(24, id as u64, 2);
                e.extend(name);
                e.resize(e.len().next_multiple_of(8), 0);
                let n = e.len() as u64;
                e.set_le(4, n, 2);
                entries.extend(e);
            };
            entry(&list[0], 0, node.identifier);
            entry(&list[1], 2, node.identifier);
            for (i, a) in moved.iter().enumerate() {
                entry(a, i, other);
            }
            list.push(attribute(0x20, "", &entries, None));
            if list.iter().map(|a| a.len()).sum::<usize>() + 100 > self.entry {
                // It needs a cluster of its own.
                let at = self.store(&entries);
                list[2] = attribute(0x20, "", &[], Some((at, entries.len() as u64)));
            }
            g.class("NTFS attribute list");
            self.record(other, node.identifier, false, moved);
        }
        self.record(node.identifier, 0, node.kind == Kind::Directory, list);
    }
}

fn ntfs(g: &mut Gen, root: &mut Node) -> Vec<u8> {
    let entry = *g.pick(&[1024usize, 4096]);
    // A file may need another entry.
    let total = 24 + 2 * count(root);
    let table = (total * entry).div_ceil(4096) as u64;
    let mut n = Ntfs { entry, records: vec![None; 24], clusters: Vec::new(), first: 4 + table };
    let case = UPPER.with(|u| u.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<u8>>());
    let case_at = n.store(&case);
    root.identifier = 5;
    n.node(g, root, 5);
    let system = |name: &str| Node::new(Kind::File, name);
    let named = |name: &str| vec![Ntfs::info(&system(name), 6), attribute(0x30, "", &Ntfs::key(&system(name), 5, 6), None)];
    let mut list = named("$MFT");
    list.push(attribute(0x80, "", &[], Some((4, table * 4096))));
    n.record(0, 0, false, list);
    let mut list = named("$Volume");
    list.push(attribute(0x60, "", &units("label"), None));
    list.push(attribute(0x70, "", &[0, 0, 0, 0, 0, 0, 0, 0, 3, 1, 0, 0], None));
    n.record(3, 0, false, list);
    let mut list = named("$UpCase");
    list.push(attribute(0x80, "", &[], Some((case_at, case.len() as u64))));
    n.record(10, 0, false, list);
    let clusters = n.first + n.clusters.len() as u64 / 4096 + 1;
    let mut out = vec![0u8; clusters as usize * 4096];
    let b = &mut out[..512];
    b.at(0, b"\xeb\x52\x90NTFS    ");
    b.set_le(11, 512, 2);
    b[13] = 8;
    b[21] = 0xf8;
    b.set_le(40, clusters * 8, 8);
    b.set_le(48, 4, 8);
    b.set_le(56, 2, 8);
    b[64] = if entry == 1024 { 0xf6 } else { 1 };
    b[68] = 1;
    b.set_le(72, 0x1122334455667788, 8);
    b.at(510, &[0x55, 0xaa]);
    for (i, r) in n.records.iter().enumerate() {
        if let Some(r) = r {
            out.at(4 * 4096 + i * entry, r);
        }
    }
    out.at(n.first as usize * 4096, &n.clusters);
    out
}

// Volume systems.

fn raw(g: &mut Gen) -> Vec<u8> {
    let n = g.usize(1, 12) * 512;
    match g.below_or(2) {
        0 => vec![0; n],
        1 => (0..n).map(|i| b'a' + (i % 23) as u8).collect(),
        _ => {
            let seed = g.u8();
            (0..n).map(|i| 0x20 | (i as u8).wrapping_mul(seed) & 0x1f).collect()
        }
    }
}

/// A volume system and its data.
pub fn parts(g: &mut Gen, l: Limits) -> (Volume, Vec<u8>) {
    let scheme = *g.pick(&[Scheme::Mbr, Scheme::Gpt, Scheme::Apm]);
    let n = match scheme {
        Scheme::Mbr => g.usize(1, 5),
        _ => g.usize(0, 4),
    };
    let mut contents: Vec<(Volume, Vec<u8>)> = Vec::new();
    for _ in 0..n {
        contents.push(if g.chance(1, 3) {
            (Volume::Raw, raw(g))
        } else {
            let f = fs(g, l);
            let mut data = f.bytes.clone();
            data.resize(data.len().next_multiple_of(512) + 512 * g.usize(0, 2), 0);
            (Volume::Fs(f), data)
        });
    }
    let mut out = vec![0u8; 0];
    let mut list = Vec::new();
    let put = |out: &mut Vec<u8>, at: usize, data: &[u8]| {
        if out.len() < at + data.len() {
            out.resize(at + data.len(), 0);
        }
        out[at..at + data.len()].copy_from_slice(data);
    };
    match scheme {
        Scheme::Mbr => {
            let slots = if n > 4 { 3 } else { g.usize(n.min(3), n.min(4)) };
            let mut boot = vec![0u8; 512];
            boot.set_le(440, 0x01020304, 4);
            boot.at(510, &[0x55, 0xaa]);
            // The size of sectors is derived from where the last partition ends.
            let mut next = 8 + g.usize(0, 4);
            let item = |t: u8, start: usize, count: usize| {
                let mut e = [0u8; 16];
                e[4] = t;
                e.set_le(8, start as u64, 4);
                e.set_le(12, count as u64, 4);
                e
            };
            let kinds = [0x07u8, 0x0c, 0x83, 0x01];
            let logical = contents.split_off(slots.min(n));
            for (i, (volume, data)) in contents.into_iter().enumerate() {
                let count = data.len() / 512;
                boot.at(446 + 16 * i, &item(*g.pick(&kinds), next, count));
                put(&mut out, next * 512, &data);
                list.push(Part { at: next * 512, size: data.len(), volume });
                next += count + g.usize(0, 2);
            }
            if !logical.is_empty() {
                g.class("logical partitions");
                let first = next;
                let total = logical.iter().map(|l| l.1.len() / 512 + 2).sum::<usize>() + 2;
                boot.at(446 + 48, &item(5, first, total));
                let n = logical.len();
                for (i, (volume, data)) in logical.into_iter().enumerate() {
                    let count = data.len() / 512;
                    let mut record = vec![0u8; 512];
                    record.at(510, &[0x55, 0xaa]);
                    record.at(446, &item(*g.pick(&kinds), 2, count));
                    put(&mut out, (next + 2) * 512, &data);
                    list.push(Part { at: (next + 2) * 512, size: data.len(), volume });
                    let following = next + 2 + count;
                    if i + 1 < n {
                        record.at(462, &item(5, following - first, first + total - following));
                    }
                    put(&mut out, next * 512, &record);
                    next = following;
                }
                next = next.max(first + total);
            }
            put(&mut out, 0, &boot);
            out.resize(out.len().max(next * 512), 0);
        }
        Scheme::Gpt => {
            let number = *g.pick(&[128usize, 8, 4]);
            let sectors = (number * 128).div_ceil(512);
            let mut table = vec![0u8; number * 128];
            let mut next = 2 + sectors + g.usize(0, 3);
            let area = next;
            for (i, (volume, data)) in contents.into_iter().enumerate() {
                let count = data.len() / 512;
                let e = &mut table[i * 128..i * 128 + 128];
                e.at(0, b"\xa2\xa0\xd0\xeb\xe5\xb9\x33\x44\x87\xc0\x68\xb6\xb7\x26\x99\xc7");
                e.at(16, &[i as u8 + 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0xf0]);
                e.set_le(32, next as u64, 8);
                e.set_le(40, (next + count - 1) as u64, 8);
                e.at(56, &units("part"));
                put(&mut out, next * 512, &data);
                list.push(Part { at: next * 512, size: data.len(), volume });
                next += count + g.usize(0, 2);
            }
            let backup_table = next;
            let backup = next + sectors;
            let header = |current: usize, other: usize, at: usize| {
                let mut h = vec![0u8; 512];
                h.at(0, b"EFI PART");
                h.set_le(8, 0x10000, 4);
                h.set_le(12, 92, 4);
                h.set_le(24, current as u64, 8);
                h.set_le(32, other as u64, 8);
                h.set_le(40, area as u64, 8);
                h.set_le(48, next as u64 - 1, 8);
                h[56] = 7;
                h.set_le(72, at as u64, 8);
                h.set_le(80, number as u64, 4);
                h.set_le(84, 128, 4);
                h.set_le(88, crc32(&table) as u64, 4);
                let sum = crc32(&h[..92]);
                h.set_le(16, sum as u64, 4);
                h
            };
            let mut protective = vec![0u8; 512];
            protective[446 + 4] = 0xee;
            protective.set_le(446 + 8, 1, 4);
            protective.set_le(446 + 12, backup as u64, 4);
            protective.at(510, &[0x55, 0xaa]);
            put(&mut out, 0, &protective);
            put(&mut out, 512, &header(1, backup, 2));
            put(&mut out, 1024, &table);
            put(&mut out, backup_table * 512, &table);
            put(&mut out, backup * 512, &header(backup, 1, backup_table));
        }
        Scheme::Apm => {
            let number = n + 1;
            let mut next = 1 + number + g.usize(0, 5);
            let e = |kind: &str, start: usize, count: usize| {
                let mut e = vec![0u8; 512];
                e.at(0, b"PM");
                e.set_be(4, number as u64, 4);
                e.set_be(8, start as u64, 4);
                e.set_be(12, count as u64, 4);
                e.at(16, b"name");
                e.at(48, kind.as_bytes());
                e.set_be(88, 0x33, 4);
                e
            };
            put(&mut out, 512, &e("Apple_partition_map", 1, next - 1));
            for (i, (volume, data)) in contents.into_iter().enumerate() {
                put(&mut out, 512 * (2 + i), &e("Apple_HFS", next, data.len() / 512));
                put(&mut out, next * 512, &data);
                list.push(Part { at: next * 512, size: data.len(), volume });
                next += data.len() / 512 + g.usize(0, 2);
            }
            let mut block = vec![0u8; 512];
            block.at(0, b"ER");
            block.set_be(2, 512, 2);
            block.set_be(4, next as u64, 4);
            put(&mut out, 0, &block);
            out.resize(out.len().max(next * 512), 0);
        }
    }
    g.class(match scheme {
        Scheme::Mbr => "MBR",
        Scheme::Gpt => "GPT",
        Scheme::Apm => "APM",
    });
    (Volume::Parts(scheme, list), out)
}

// Images.

fn is_zero(data: &[u8]) -> bool {
    data.iter().all(|b| *b == 0)
}

fn qcow(g: &mut Gen, data: &[u8], below: Option<(&str, &[u8])>) -> Sparse {
    let bits = *g.pick(&[9u32, 12, 16]);
    let cluster = 1usize << bits;
    let references = cluster / 8;
    let version = g.range(2, 3);
    let clusters = data.len().div_ceil(cluster);
    let tables = clusters.div_ceil(references);
    let mut header = vec![0u8; 104];
    header.at(0, b"QFI\xfb");
    header.set_be(4, version, 4);
    header.set_be(20, bits as u64, 4);
    header.set_be(24, data.len() as u64, 8);
    header.set_be(36, tables as u64, 4);
    if version == 3 {
        header.set_be(96, 4, 4);
        header.set_be(100, 104, 4);
    } else {
        header.truncate(72);
    }
    if let Some((name, _)) = below {
        header.resize(header.len() + 8, 0);
        let at = header.len() as u64;
        header.set_be(8, at, 8);
        header.set_be(16, name.len() as u64, 4);
        header.extend(name.as_bytes());
    }
    let mut next = header.len().div_ceil(cluster);
    let level1_at = next * cluster;
    header.set_be(40, level1_at as u64, 8);
    next += (tables * 8).div_ceil(cluster).max(1);
    let mut level1 = vec![0u8; tables * 8];
    let mut out = Sparse::new(0);
    out.put(0, &header);
    for t in 0..tables {
        let mut level2 = vec![0u8; cluster];
        let at = next * cluster;
        next += 1;
        for i in 0..references {
            let start = (t * references + i) * cluster;
            if start >= data.len() {
                break;
            }
            let part = &data[start..(start + cluster).min(data.len())];
            let same = match below {
                Some((_, b)) => (start..start + part.len()).all(|i| b.get(i).copied().unwrap_or(0) == data[i]),
                None => is_zero(part),
            };
            if !same {
                let mut part = part.to_vec();
                part.resize(cluster, 0);
                out.put((next * cluster) as u64, &part);
                level2.set_be(i * 8, (next * cluster) as u64 | 1 << 63, 8);
                next += 1;
            }
        }
        out.put(at as u64, &level2);
        level1.set_be(t * 8, at as u64 | 1 << 63, 8);
    }
    out.put(level1_at as u64, &level1);
    out.size = out.size.max((next * cluster) as u64);
    out
}

fn vhd_sum(data: &[u8]) -> u64 {
    !data.iter().fold(0u32, |s, b| s.wrapping_add(*b as u32)) as u64
}

fn vhd(g: &mut Gen, data: &[u8], below: Option<(&str, &[u8])>, identifier: u8) -> Sparse {
    let sparse = below.is_some() || g.bool();
    let mut f = vec![0u8; 512];
    f.at(0, b"conectix");
    f.set_be(8, 2, 4);
    f.set_be(12, 0x10000, 4);
    f.set_be(16, if sparse { 512 } else { u64::MAX }, 8);
    f.at(28, b"win ");
    f.at(36, b"Wi2k");
    f.set_be(40, data.len() as u64, 8);
    f.set_be(48, data.len() as u64, 8);
    f.set_be(60, if below.is_some() { 4 } else if sparse { 3 } else { 2 }, 4);
    f.at(68, &[identifier; 16]);
    let s = vhd_sum(&f);
    f.set_be(64, s, 4);
    let mut out = Sparse::new(0);
    if !sparse {
        out.put(0, data);
        out.put(data.len() as u64, &f);
        return out;
    }
    let block = *g.pick(&[4096usize, 65536, 1 << 21]);
    let blocks = data.len().div_ceil(block);
    let mut h = vec![0u8; 1024];
    h.at(0, b"cxsparse");
    h.set_be(8, u64::MAX, 8);
    h.set_be(16, 1536, 8);
    h.set_be(24, 0x10000, 4);
    h.set_be(28, blocks as u64, 4);
    h.set_be(32, block as u64, 4);
    if let Some((name, _)) = below {
        h.at(40, &[identifier - 1; 16]);
        for (i, c) in name.encode_utf16().enumerate() {
            h.set_be(64 + 2 * i, c as u64, 2);
        }
    }
    let s = vhd_sum(&h);
    h.set_be(36, s, 4);
    let mut next = 3 + (blocks * 4).div_ceil(512);
    let mut table = vec![0xffu8; blocks * 4];
    let bitmap_size = (block / 4096).div_ceil(512) * 512;
    for b in 0..blocks {
        let start = b * block;
        let end = (start + block).min(data.len());
        let old = |i: usize| below.map_or(0, |(_, d)| d.get(i).copied().unwrap_or(0));
        let mut bitmap = vec![0u8; bitmap_size];
        let mut any = false;
        for s in 0..(end - start).div_ceil(512) {
            let from = start + s * 512;
            let to = (from + 512).min(end);
            if (from..to).any(|i| old(i) != data[i]) {
                bitmap[s / 8] |= 0x80 >> (s % 8);
                out.put((next * 512 + bitmap_size + s * 512) as u64, &data[from..to]);
                any = true;
            }
        }
        if any {
            out.put((next * 512) as u64, &bitmap);
            table.set_be(4 * b, next as u64, 4);
            next += (bitmap_size + block) / 512;
        }
    }
    out.put(0, &f);
    out.put(512, &h);
    out.put(1536, &table);
    out.put((next * 512) as u64, &f);
    out
}

fn guid(text: &str) -> Vec<u8> {
    let h: Vec<u8> = text.bytes().filter(|b| *b != b'-').map(|b| (b as char).to_digit(16).unwrap() as u8).collect();
    let b: Vec<u8> = h.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
    [3usize, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15].iter().map(|i| b[*i]).collect()
}

fn vhdx(data: &[u8], below: Option<(&str, &[u8])>, identifier: u8) -> Sparse {
    const MIB: usize = 1 << 20;
    let mut out = Sparse::new(0);
    let blocks = data.len().div_ceil(MIB);
    let chunk = 4096;
    let kind = if below.is_some() { 2u64 } else { 0 };
    // Metadata at 2, blocks table at 3, bitmap at 4, then the blocks.
    let mut table = vec![0u8; if kind == 2 { (chunk + 1) * 8 } else { blocks * 8 }];
    let mut bits = vec![0u8; MIB];
    let mut next = 5;
    for b in 0..blocks {
        let start = b * MIB;
        let end = (start + MIB).min(data.len());
        let part = &data[start..end];
        let state = match below {
            Some((_, old)) => {
                let mut any = false;
                for s in 0..part.len().div_ceil(512) {
                    let from = start + s * 512;
                    let to = (from + 512).min(end);
                    if (from..to).any(|i| old.get(i).copied().unwrap_or(0) != data[i]) {
                        any = true;
                        let bit = b * 2048 + s;
                        bits[bit / 8] |= 1 << (bit % 8);
                        out.put((next * MIB + s * 512) as u64, &data[from..to]);
                    }
                }
                if any { 7 } else { 0 }
            }
            None if is_zero(part) => 0,
            None => {
                out.put((next * MIB) as u64, part);
                6
            }
        };
        if state != 0 {
            table.set_le(8 * b, (next * MIB) as u64 | state, 8);
            next += 1;
        }
    }
    if kind == 2 {
        table.set_le(8 * chunk, 4 * MIB as u64 | 6, 8);
        let n = bits.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        out.put(4 * MIB as u64, &bits[..n]);
    }
    out.put(3 * MIB as u64, &table);
    let mut parameters = vec![0u8; 8];
    parameters.set_le(0, MIB as u64, 4);
    parameters.set_le(4, kind, 4);
    let mut items = vec![
        ("caa16737-fa36-4d43-b3b6-33f0aa44e76b", parameters),
        ("2fa54224-cd1b-4876-b211-5dbed83bf4b8", (data.len() as u64).to_le_bytes().to_vec()),
        ("8141bf1d-a96f-4709-ba47-f233a8faab5f", 512u32.to_le_bytes().to_vec()),
        ("beca12ab-b2e6-4523-93ef-c309e000c746", vec![5; 16]),
    ];
    if let Some((name, _)) = below {
        let h = format!("{:02x}", identifier - 1);
        let linkage = format!("{{{}-{}-{}-{}-{}}}", h.repeat(4), h.repeat(2), h.repeat(2), h.repeat(2), h.repeat(6));
        let pairs = [("parent_linkage", linkage), ("relative_path", name.to_string())];
        let mut d = vec![0u8; 44];
        d.at(0, &guid("b04aefb7-d19e-4a81-b789-25b8e9445913"));
        d.set_le(18, 2, 2);
        for (i, (k, v)) in pairs.iter().enumerate() {
            let (k, v) = (units(k), units(v));
            let at = 20 + 12 * i;
            let o = d.len() as u64;
            d.set_le(at, o, 4);
            d.set_le(at + 4, o + k.len() as u64, 4);
            d.set_le(at + 8, k.len() as u64, 2);
            d.set_le(at + 10, v.len() as u64, 2);
            d.extend(k);
            d.extend(v);
        }
        items.push(("a8d35f2d-b30b-454d-abf7-d3d84834ab0c", d));
    }
    let mut m = vec![0u8; 65536];
    m.at(0, b"metadata");
    m.set_le(10, items.len() as u64, 2);
    for (i, (id, data)) in items.iter().enumerate() {
        let at = m.len();
        let e = 32 + 32 * i;
        m.at(e, &guid(id));
        m.set_le(e + 16, at as u64, 4);
        m.set_le(e + 20, data.len() as u64, 4);
        m.set_le(e + 24, if i == 0 { 4 } else { 6 }, 4);
        m.extend(data);
    }
    out.put(2 * MIB as u64, &m);
    let mut r = vec![0u8; 65536];
    r.at(0, b"regi");
    r.set_le(8, 2, 4);
    for (i, (id, at)) in [("2dc27766-f623-4200-9d64-115e9bfd4a08", 3), ("8b7ca206-4790-4b9a-b8fe-575f050f886e", 2)].iter().enumerate() {
        let e = 16 + 32 * i;
        r.at(e, &guid(id));
        r.set_le(e + 16, (at * MIB) as u64, 8);
        r.set_le(e + 24, MIB as u64, 4);
        r.set_le(e + 28, 1, 4);
    }
    let sum = crc32c(&r) as u64;
    r.set_le(4, sum, 4);
    out.put(3 * 65536, &r);
    out.put(4 * 65536, &r);
    out.put(0, b"vhdxfile");
    for i in 0..2 {
        let mut h = vec![0u8; 4096];
        h.at(0, b"head");
        h.set_le(8, 1 + i, 8);
        h.at(16, &[9; 16]);
        h.at(32, &[identifier; 16]);
        h.set_le(66, 1, 2);
        h.set_le(68, MIB as u64, 4);
        h.set_le(72, MIB as u64, 8);
        let sum = crc32c(&h) as u64;
        h.set_le(4, sum, 4);
        out.put((1 + i) * 65536, &h);
    }
    out.size = (next * MIB) as u64;
    out
}

/// A zlib stream of stored blocks.
fn stored(data: &[u8]) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let n = data.len().div_ceil(65535).max(1);
    for i in 0..n {
        let part = &data[i * 65535..((i + 1) * 65535).min(data.len())];
        out.push((i + 1 == n) as u8);
        out.extend((part.len() as u16).to_le_bytes());
        out.extend((!(part.len() as u16)).to_le_bytes());
        out.extend(part);
    }
    out.extend(adler32(data).to_be_bytes());
    out
}

fn ewf(g: &mut Gen, name: &str, data: &[u8], md5: Option<[u8; 16]>) -> Vec<(String, Sparse)> {
    let per = *g.pick(&[64usize, 16, 8]);
    let chunk = per * 512;
    let chunks = data.len().div_ceil(chunk);
    let segments = if chunks > 1 { g.usize(1, 3.min(chunks)) } else { 1 };
    let mut volume = vec![0u8; 1048];
    volume[0] = 1;
    volume.set_le(4, chunks as u64, 4);
    volume.set_le(8, per as u64, 4);
    volume.set_le(12, 512, 4);
    volume.set_le(16, data.len() as u64 / 512, 8);
    volume[36] = 1;
    volume.set_le(56, 64, 4);
    volume.at(64, &[3; 16]);
    let sealed = |d: &[u8]| {
        let mut d = d.to_vec();
        let sum = adler32(&d).to_le_bytes();
        d.extend(sum);
        d
    };
    let header = stored(b"1\r\nmain\r\nc\tn\ta\te\tt\tav\tov\tm\tu\tp\r\ncase\tevidence\tdescription\texaminer\tnotes\t6\tos\t2020 1 2 3 4 5\t2020 1 2 3 4 5\t0\r\n\r\n");
    let mut out = Vec::new();
    let mut done = 0;
    for number in 1..=segments {
        let count = if number == segments { chunks - done } else { chunks / segments };
        let mut s = b"EVF\x09\x0d\x0a\xff\x00\x01".to_vec();
        s.extend((number as u16).to_le_bytes());
        s.extend([0, 0]);
        let section = |s: &mut Vec<u8>, kind: &str, body: &[u8]| {
            let at = s.len();
            let mut d = vec![0u8; 72];
            d.at(0, kind.as_bytes());
            let end = matches!(kind, "done" | "next");
            d.set_le(16, if end { at } else { at + 76 + body.len() } as u64, 8);
            d.set_le(24, if end { 0 } else { 76 + body.len() as u64 }, 8);
            let sum = adler32(&d).to_le_bytes();
            d.extend(sum);
            s.extend(d);
            s.extend(body);
        };
        if number == 1 {
            section(&mut s, "header", &header);
            section(&mut s, "volume", &sealed(&volume));
        } else {
            section(&mut s, "data", &sealed(&volume));
        }
        let base = s.len() + 76;
        let mut body = Vec::new();
        let mut entries = Vec::new();
        for i in done..done + count {
            let part = &data[i * chunk..((i + 1) * chunk).min(data.len())];
            let compress = g.chance(1, 3);
            entries.extend((body.len() as u32 | (compress as u32) << 31).to_le_bytes());
            body.extend(if compress { stored(part) } else { sealed(part) });
        }
        done += count;
        if count > 0 {
            let mut head = vec![0u8; 20];
            head.set_le(0, count as u64, 4);
            head.set_le(8, base as u64, 8);
            let mut table = sealed(&head);
            table.extend(sealed(&entries));
            section(&mut s, "sectors", &body);
            section(&mut s, "table", &table);
            section(&mut s, "table2", &table);
        }
        if number == segments {
            if let Some(md5) = md5 {
                let mut d = md5.to_vec();
                d.resize(32, 0);
                section(&mut s, "hash", &sealed(&d));
            }
        }
        section(&mut s, if number == segments { "done" } else { "next" }, &[]);
        out.push((format!("{}.E{:02}", name, number), Sparse::of(s)));
    }
    out
}

fn sparse_image(g: &mut Gen, data: &[u8]) -> Sparse {
    let sectors = *g.pick(&[2048usize, 16, 64, 128]).max(&(data.len() / 512).div_ceil(1000));
    let band = sectors * 512;
    let bands = data.len().div_ceil(band);
    let mut header = vec![0u8; 4096];
    header.at(0, b"sprs");
    header.set_be(4, 3, 4);
    header.set_be(8, sectors as u64, 4);
    header.set_be(12, 1, 4);
    header.set_be(16, data.len() as u64 / 512, 4);
    let mut out = Sparse::new(0);
    let mut order: Vec<usize> = (0..bands).filter(|b| !is_zero(&data[b * band..((b + 1) * band).min(data.len())])).collect();
    if g.bool() {
        order.reverse();
    }
    for (slot, b) in order.iter().enumerate() {
        header.set_be(64 + 4 * slot, *b as u64 + 1, 4);
        out.put((4096 + slot * band) as u64, &data[b * band..((b + 1) * band).min(data.len())]);
        out.size = (4096 + (slot + 1) * band) as u64;
    }
    out.put(0, &header);
    out
}

fn base64(data: &[u8]) -> String {
    let set = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            out.push(if i <= c.len() { set[(v >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    out
}

fn udif(g: &mut Gen, data: &[u8]) -> Sparse {
    let mut out = Sparse::new(0);
    let mut f = vec![0u8; 512];
    f.at(0, b"koly");
    f.set_be(4, 4, 4);
    f.set_be(8, 512, 4);
    f.set_be(12, 1, 4);
    f.set_be(488, 1, 4);
    if g.chance(1, 3) {
        out.put(0, data);
        f.set_be(32, data.len() as u64, 8);
        out.put(data.len() as u64, &f);
        return out;
    }
    let mut table = vec![0u8; 204];
    table.at(0, b"mish");
    table.set_be(4, 1, 4);
    table.set_be(16, data.len() as u64 / 512, 8);
    let per = g.usize(1, 200).max((data.len() / 512).div_ceil(300));
    let mut entries = 0;
    for (i, part) in data.chunks(per * 512).enumerate() {
        let mut e = vec![0u8; 40];
        e.set_be(8, (i * per) as u64, 8);
        e.set_be(16, part.len() as u64 / 512, 8);
        e.set_be(24, out.size, 8);
        if is_zero(part) && g.bool() {
            e.set_be(0, *g.pick(&[0u64, 2]), 4);
        } else if g.chance(1, 4) {
            let packed = stored(part);
            e.set_be(0, 0x80000005, 4);
            e.set_be(32, packed.len() as u64, 8);
            out.put(out.size, &packed);
        } else {
            e.set_be(0, 1, 4);
            e.set_be(32, part.len() as u64, 8);
            out.put(out.size, part);
        }
        table.extend(e);
        entries += 1;
    }
    let mut e = vec![0u8; 40];
    e.set_be(0, 0xffffffff, 4);
    e.set_be(8, data.len() as u64 / 512, 8);
    table.extend(e);
    table.set_be(200, entries + 1, 4);
    let plist = format!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\">\n<plist version=\"1.0\">\n<dict>\n<key>resource-fork</key>\n<dict>\n<key>blkx</key>\n<array>\n<dict>\n<key>Attributes</key>\n<string>0x0050</string>\n<key>Data</key>\n<data>\n{}\n</data>\n<key>ID</key>\n<string>-1</string>\n<key>Name</key>\n<string>whole disk</string>\n</dict>\n</array>\n</dict>\n</dict>\n</plist>\n",
        base64(&table)
    );
    f.set_be(32, out.size, 8);
    f.set_be(216, out.size, 8);
    f.set_be(224, plist.len() as u64, 8);
    out.put(out.size, plist.as_bytes());
    out.put(out.size, &f);
    out
}

/// A disk of its own, or one in a file of another.
pub fn disk(g: &mut Gen, l: Limits, nested: bool) -> Disk {
    let (volume, mut data) = match g.weighted(&[4, 4, 1]) {
        0 => {
            let f = fs(g, l);
            let data = f.bytes.clone();
            (Volume::Fs(f), data)
        }
        1 => parts(g, l),
        _ => (Volume::Raw, raw(g)),
    };
    data.resize(data.len().next_multiple_of(512), 0);
    let wrap = match g.below_or(if nested { 6 } else { 7 }) {
        0 | 1 => Wrap::None,
        2 => Wrap::Qcow,
        3 => Wrap::Vhd,
        4 => Wrap::Ewf,
        5 => Wrap::SparseImage,
        6 => Wrap::Udif,
        _ => Wrap::Vhdx,
    };
    let stem = g.pick(&["image", "disk", "évidence", "a b"]).to_string();
    let stem = if g.bool() && !nested { stem } else { format!("{}{}", stem, g.below_or(9)) };
    let mut layers = vec![data];
    let mut files = Vec::new();
    let mut md5 = None;
    let depth = if matches!(wrap, Wrap::Qcow | Wrap::Vhd | Wrap::Vhdx) { *g.pick(&[1usize, 1, 2, 3]) } else { 1 };
    for _ in 1..depth {
        // What was there before.
        let mut old = layers[0].clone();
        for _ in 0..g.usize(1, 4) {
            let at = g.usize(0, old.len() / 512 - 1) * 512;
            let n = (512 * g.usize(1, 9)).min(old.len() - at);
            let v = *g.pick(&[0u8, 0x11, 0xee]);
            old[at..at + n].fill(v);
        }
        layers.insert(0, old);
    }
    g.class_if(depth > 1, "image of more layers");
    let extension = match wrap {
        Wrap::Qcow => ".qcow2",
        Wrap::Vhd => ".vhd",
        Wrap::Vhdx => ".vhdx",
        Wrap::SparseImage => ".sparseimage",
        Wrap::Udif => ".dmg",
        Wrap::Ewf => ".E01",
        Wrap::None => ".raw",
    };
    let mut name = String::new();
    for i in 0..depth {
        let below_name = name.clone();
        name = if i + 1 == depth { format!("{}{}", stem, extension) } else { format!("{}-{}{}", stem, i, extension) };
        let below = if i > 0 { Some((below_name.as_str(), layers[i - 1].as_slice())) } else { None };
        let data = &layers[i];
        let file = match wrap {
            Wrap::None => Sparse::of(data.clone()),
            Wrap::Qcow => qcow(g, data, below),
            Wrap::Vhd => vhd(g, data, below, 0x21 + i as u8),
            Wrap::Vhdx => vhdx(data, below, 0x21 + i as u8),
            Wrap::SparseImage => sparse_image(g, data),
            Wrap::Udif => udif(g, data),
            Wrap::Ewf => {
                if g.bool() {
                    md5 = Some(g.bytes(16).try_into().unwrap());
                }
                files = ewf(g, &stem, data, md5);
                break;
            }
        };
        files.push((name.clone(), file));
    }
    g.class(match wrap {
        Wrap::None => "no image",
        Wrap::Qcow => "QCOW",
        Wrap::Vhd => "VHD",
        Wrap::Vhdx => "VHDX",
        Wrap::Ewf => "EWF",
        Wrap::SparseImage => "sparse image",
        Wrap::Udif => "UDIF",
    });
    Disk { wrap, layers, volume, files, name, md5 }
}

/// Whether data happens to look like something it is not, such as a small file system with a disk in its
/// first file.
pub fn ambiguous(volume: &Volume, data: &[u8], part: bool) -> bool {
    let is = |at: usize, what: &[u8]| data.len() >= at + what.len() && &data[at..at + what.len()] == what;
    let (ext, fat, ntfs) = match volume {
        Volume::Fs(f) => (f.kind == FsKind::Ext, f.kind.is_fat(), f.kind == FsKind::Ntfs),
        _ => (false, false, false),
    };
    let scheme = match volume {
        Volume::Parts(s, parts) => {
            if parts.iter().any(|p| ambiguous(&p.volume, &data[p.at..p.at + p.size], true)) {
                return true;
            }
            Some(*s)
        }
        _ => None,
    };
    if !ext && is(1080, b"\x53\xef") || !ntfs && is(3, b"NTFS    ") {
        return true;
    }
    if !fat && (is(54, b"FAT12   ") || is(54, b"FAT16   ") || is(82, b"FAT32   ")) {
        return true;
    }
    if part {
        return false;
    }
    let gpt = |at: usize| is(at, b"EFI PART");
    let mbr = |at: usize| is(at - 2, b"\x55\xaa");
    let footer = data.len() >= 512 && (is(data.len() - 512, b"koly") || is(data.len() - 512, b"conectix"));
    gpt(1024)
        || gpt(2048)
        || gpt(4096)
        || gpt(512) && scheme != Some(Scheme::Gpt)
        || is(560, b"Apple_partition_map\0") && scheme != Some(Scheme::Apm)
        || scheme.is_none() && !fat && !ntfs && [512, 1024, 2048, 4096].iter().any(|at| mbr(*at))
        || footer
}

/// Whether the end of a file of the disk happens to look like that of an image of another format.
pub fn ambiguous_files(disk: &Disk) -> bool {
    disk.files.iter().any(|(_, f)| {
        let end = if f.size >= 512 { f.get(f.size - 512, 8) } else { vec![0; 8] };
        disk.wrap != Wrap::Udif && end.starts_with(b"koly") || disk.wrap != Wrap::Vhd && end == b"conectix"
    })
}
