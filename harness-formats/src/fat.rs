//! FAT volumes: FAT-12, FAT-16 and FAT-32, with short and long names.

use crate::common::*;
use keramics_core::DataStream;
use keramics_datetime::{DateTime, FatDate, FatTimeDate, FatTimeDate10Ms};
use keramics_formats::fat::{FatFileEntry, FatFileSystem, FatFormat, FatPath, FatString};
use keramics_types::constants::UCS2_CASE_MAPPINGS;
use keramics_types::{ByteString, Ucs2String};
use keramics_encodings::CharacterEncoding;
use pbt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Fat12,
    Fat16,
    Fat32,
}

/// What a volume holds.
struct Node {
    identifier: u64,
    short: Vec<u8>,
    long: Option<Vec<u16>>,
    attributes: u8,
    times: [u16; 5],
    size: u32,
    data: Sparse,
    sub: Option<Vec<Node>>,
}

struct Volume {
    image: Sparse,
    kind: Kind,
    sector: u64,
    cluster: u64,
    label: Option<Vec<u8>>,
    serial: u32,
    root: Vec<Node>,
    root_identifier: u64,
    hot: Vec<(u64, u64)>,
}

struct Layout {
    kind: Kind,
    sector: u64,
    cluster: u64,
    clusters: u64,
    first: u64,
    /// Where searches for a free cluster start.
    high: bool,
    /// Whether there is a file of more than 256 MiB.
    wide: bool,
    table: BTreeMap<u64, u32>,
    image: Sparse,
    hot: Vec<(u64, u64)>,
    budget: usize,
}

fn fold(name: &[u16]) -> Vec<u16> {
    static MAP: OnceLock<HashMap<u16, u16>> = OnceLock::new();
    let map = MAP.get_or_init(|| UCS2_CASE_MAPPINGS.into_iter().collect());
    name.iter().map(|c| *map.get(c).unwrap_or(c)).collect()
}

fn checksum(short: &[u8]) -> u8 {
    let mut sum = 0u32;
    for b in short {
        sum = ((sum & 1) * 0x80 + sum / 2 + *b as u32) & 0xff;
    }
    sum as u8
}

impl Layout {
    fn last(&self) -> u64 {
        let limit = match self.kind {
            Kind::Fat12 => 0xfef,
            Kind::Fat16 => 0xffef,
            Kind::Fat32 => 0x0fffffef,
        };
        (self.clusters + 1).min(limit)
    }

    fn place(&self, cluster: u64) -> u64 {
        self.first + (cluster - 2) * self.cluster
    }

    fn free(&mut self, g: &mut Gen, after: u64, directory: bool) -> Option<u64> {
        let last = self.last();
        // The code searches the table for what precedes a cluster of a directory.
        let top = if directory && last > 5000 && !g.chance(1, 12) { 5000 } else { last };
        let mut at = match g.below_or(5) {
            0 | 1 if after >= 2 => after + 1,
            2 => 2 + g.below_or(9),
            3 => top.saturating_sub(g.below_or(3)),
            4 if self.high && !directory => last - g.below_or((last - 2) / 2),
            _ => 2 + g.below_or(top.max(2) - 2),
        };
        for _ in 0..64 {
            if at < 2 || at > last {
                at = 2;
            }
            if !self.table.contains_key(&at) {
                return Some(at);
            }
            at += 1;
        }
        (2..=last.min(400)).find(|c| !self.table.contains_key(c))
    }

    /// A chain of clusters; shorter if there are none left.
    fn chain(&mut self, g: &mut Gen, n: usize, directory: bool) -> Vec<u64> {
        let mut out: Vec<u64> = Vec::new();
        while out.len() < n {
            if n > 400 {
                // Runs of clusters.
                let next = out.last().map_or(2, |c| c + 1);
                let mut at = if g.bool() { 2 + g.below_or(self.last() - 2) } else { next.min(self.last()) };
                while self.table.contains_key(&at) {
                    at = if at >= self.last() { 2 } else { at + 1 };
                }
                let most = (n - out.len()).min(g.usize(1, 6000).max(g.usize(1, 20)));
                for c in (at..=self.last()).take(most) {
                    if self.table.contains_key(&c) {
                        break;
                    }
                    self.table.insert(c, 0);
                    out.push(c);
                }
                continue;
            }
            let after = out.last().copied().unwrap_or(0);
            let Some(c) = self.free(g, after, directory) else { break };
            self.table.insert(c, 0);
            out.push(c);
        }
        for w in out.windows(2) {
            self.table.insert(w[0], w[1] as u32);
        }
        if let Some(c) = out.last() {
            let end = 8 + g.below_or(7) as u32;
            let mark = match self.kind {
                Kind::Fat12 => 0xff0 + end,
                Kind::Fat16 => 0xfff0 + end,
                Kind::Fat32 => 0x0ffffff0 + end,
            };
            self.table.insert(*c, mark);
        }
        if self.kind == Kind::Fat32 && g.chance(1, 4) {
            // The upper bits are not part of the number.
            for c in &out {
                let v = self.table[c] | (g.below_or(15) as u32) << 28;
                self.table.insert(*c, v);
            }
            g.class("reserved bits in the allocation table");
        }
        out
    }
}

const SHORT: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()-@^_`{}~";

fn short_name(g: &mut Gen) -> [u8; 11] {
    let mut name = [b' '; 11];
    let n = g.usize(1, 8);
    let e = if g.bool() { g.usize(0, 3) } else { 0 };
    let wide = g.chance(1, 8);
    for i in 0..n + e {
        let at = if i < n { i } else { 8 + i - n };
        name[at] = if wide && g.bool() { g.range(0x80, 0xff) as u8 } else { *g.pick(SHORT) };
    }
    if name[0] == 0xe5 {
        name[0] = b'E';
    }
    if n >= 3 && g.chance(1, 8) {
        // Space within a name.
        name[1] = b' ';
    }
    name
}

fn long_name(g: &mut Gen) -> Vec<u16> {
    let n = match g.below_or(3) {
        0 => *g.pick(&[1usize, 4, 5, 6, 10, 11, 12, 13, 14, 25, 26, 27, 39, 254, 255]),
        1 => g.usize(1, 255),
        _ => g.usize(1, 40),
    };
    let style = g.below_or(3);
    (0..n)
        .map(|i| match style {
            0 => *g.pick(b"abcXYZ .-_0~") as u16,
            1 => (b'a' as u64 + (i as u64 * 7 + n as u64) % 26) as u16,
            2 => match g.range(1, 0xfffe) as u16 {
                c if c == b'/' as u16 || c == b'\\' as u16 => b'x' as u16,
                c => c,
            },
            _ => *g.pick(&[0xe9u16, 0x131, 0x17f, 0x3c3, 0x416, 0x2160, 0x24d0, 0xd800, 0xdc00, 0xff41, 0x41, 0x69]),
        })
        .collect()
}

/// Records of a long name in the order in which they are stored.
fn long_records(name: &[u16], sum: u8) -> Vec<[u8; 32]> {
    let pieces: Vec<&[u16]> = name.chunks(13).collect();
    let mut out = Vec::new();
    for (i, piece) in pieces.iter().enumerate().rev() {
        let mut r = [0u8; 32];
        r[0] = i as u8 + 1 + if i + 1 == pieces.len() { 0x40 } else { 0 };
        r[11] = 0x0f;
        r[13] = sum;
        for k in 0..13 {
            let v = if k < piece.len() {
                piece[k]
            } else if k == piece.len() {
                0
            } else {
                0xffff
            };
            let at = if k < 5 { 1 + 2 * k } else if k < 11 { 14 + 2 * (k - 5) } else { 28 + 2 * (k - 11) };
            r.set_le(at, v as u64, 2);
        }
        out.push(r);
    }
    out
}

fn junk_record(g: &mut Gen) -> [u8; 32] {
    let mut r = [0u8; 32];
    r.copy_from_slice(&g.bytes(32));
    r[..11].copy_from_slice(&short_name(g));
    r[11] = *g.pick(&[0u8, 0x20, 0x10, 1]);
    r
}

/// An entry that is to be placed in a directory: its records, and what they stand for.
enum Item {
    Noise([u8; 32]),
    Entry(Vec<[u8; 32]>, Node),
}

fn entry(g: &mut Gen, l: &mut Layout, parent: u64, depth: usize, names: &mut BTreeSet<Vec<u16>>, shorts: &mut BTreeSet<[u8; 11]>) -> Option<(Vec<[u8; 32]>, Node)> {
    let mut short = short_name(g);
    let mut tries = 0;
    let long = if g.chance(3, 5) { Some(long_name(g)) } else { None };
    while shorts.contains(&short) {
        tries += 1;
        if tries > 20 {
            return None;
        }
        short = short_name(g);
    }
    let mut record = [0u8; 32];
    record[..11].copy_from_slice(&short);
    let case = if g.chance(1, 3) { g.u8() & 0x18 } else { 0 };
    record[12] = case;
    let mut shown = Vec::new();
    let trim = |part: &[u8]| part.iter().rposition(|b| *b != b' ').map_or(0, |i| i + 1);
    for b in &short[..trim(&short[..8])] {
        shown.push(if case & 8 != 0 { b.to_ascii_lowercase() } else { *b });
    }
    let e = trim(&short[8..]);
    if e > 0 {
        shown.push(b'.');
        for b in &short[8..8 + e] {
            shown.push(if case & 16 != 0 { b.to_ascii_lowercase() } else { *b });
        }
    }
    let key = match &long {
        Some(n) => fold(n),
        None => shown.iter().map(|b| b.to_ascii_uppercase() as u16).collect(),
    };
    if !names.insert(key) {
        return None;
    }
    shorts.insert(short);
    let mut times = [0u16; 5];
    for t in times.iter_mut() {
        *t = g.edgy(16) as u16;
    }
    record[13] = times[0] as u8;
    record.set_le(14, times[1] as u64, 2);
    record.set_le(16, times[2] as u64, 2);
    record.set_le(18, times[3] as u64, 2);
    record.set_le(22, times[4] as u64, 2);
    record.set_le(24, times[1] as u64 ^ 0x1234, 2);
    let directory = depth < 4 && g.chance(1, 3);
    let mut attributes = *g.pick(&[0u8, 0x20, 0x01, 0x02, 0x04, 0x27, 0x80]);
    let mut node = Node { identifier: 0, short: shown, long: long.clone(), attributes, times, size: 0, data: Sparse::new(0), sub: None };
    let mut start = 0;
    if directory {
        attributes |= 0x10;
        if g.chance(1, 10) {
            // Without a cluster it is empty.
            node.sub = Some(Vec::new());
        } else {
            let (nodes, at) = directory_of(g, l, parent, depth + 1, None)?;
            node.sub = Some(nodes);
            start = at;
        }
    } else {
        let most = (6 * l.cluster).min(120_000);
        let size = match g.below_or(5) {
            0 => 0,
            1 => near(g, most, l.cluster, &[]),
            2 => g.below_or(40),
            _ => l.cluster * g.below_or(5) + *g.pick(&[0, 1, l.cluster - 1]),
        };
        let wide = l.cluster >= 1 << 17 && l.clusters > 60_000 && !l.wide && g.chance(1, 40);
        let size = if wide {
            l.wide = true;
            match g.below_or(2) {
                0 => *g.pick(&[0xffff_ffffu64, 0x8000_0000, 0x7fff_ffff, 0xffff_f000]),
                1 => g.range(1 << 31, 0xffff_ffff),
                _ => g.range(1 << 28, 1 << 30),
            }
        } else {
            size
        };
        let mut n = size.div_ceil(l.cluster) as usize;
        let spare = g.chance(1, 8);
        if spare {
            n += g.usize(1, 3);
            g.class("file with clusters to spare");
        }
        let chain = l.chain(g, n, false);
        let size = size.min(chain.len() as u64 * l.cluster);
        g.class_if(size > 1 << 28, "file of more than 256 MiB");
        g.class_if(size >= 1 << 31, "file of 2 GiB or more");
        let mut data = Sparse::new(size);
        if size > 0 {
            if size < 60_000 {
                data.put(0, &content(g, size as usize));
            } else {
                for k in 0..if wide { 9 } else { 4 } {
                    let at = if k < 4 { near(g, size - 1, l.cluster, &[]) } else { (*g.pick(&[1u64 << 28, 1 << 29, 1 << 30, 1 << 31, 3 << 30]) + g.below_or(4000)).saturating_sub(2000).min(size - 1) };
                    let n = g.usize(1, 3000).min((size - at) as usize);
                    data.poke(at, &content(g, n));
                }
            }
        }
        for (i, c) in chain.iter().enumerate() {
            let at = i as u64 * l.cluster;
            let left = size.saturating_sub(at).min(l.cluster);
            let to = l.place(*c);
            for (offset, piece) in data.slice(at, left.max(1)).extents {
                let n = (left.saturating_sub(offset) as usize).min(piece.len());
                l.image.poke(to + offset, &piece[..n]);
            }
            if left < l.cluster {
                let n = (l.cluster - left).min(64) as usize;
                l.image.poke(to + left, &vec![0x5a; n]);
            }
        }
        l.image.size = l.image.size.max(l.first + l.clusters * l.cluster);
        g.class_if(chain.windows(2).any(|w| w[1] != w[0] + 1), "scattered file");
        g.class_if(chain.last().is_some_and(|c| *c == l.clusters + 1), "last cluster used");
        g.class_if(chain.iter().any(|c| *c > 0xffff), "cluster beyond 65535");
        node.data = data;
        node.size = size as u32;
        start = chain.first().copied().unwrap_or(0);
        record.set_le(28, size, 4);
    }
    node.attributes = attributes;
    record[11] = attributes;
    record.set_le(26, start & 0xffff, 2);
    if l.kind == Kind::Fat32 {
        record.set_le(20, start >> 16, 2);
    } else if g.chance(1, 4) {
        // An extended attribute of OS/2.
        record.set_le(20, g.u16() as u64, 2);
    }
    let mut records = match &long {
        Some(n) => long_records(n, checksum(&short)),
        None => Vec::new(),
    };
    records.push(record);
    Some((records, node))
}

/// Writes a directory, into `place` or into clusters, and returns what it holds and where it starts.
fn directory_of(g: &mut Gen, l: &mut Layout, parent: u64, depth: usize, place: Option<(u64, u64, Option<[u8; 11]>)>) -> Option<(Vec<Node>, u64)> {
    let chain = match place {
        Some((_, size, _)) if size > 0 => Vec::new(),
        _ => {
            let per = l.cluster / 32;
            let n = if g.chance(2, 5) { g.usize(1, if per > 64 { 2 } else { 6 }) } else { 1 };
            let chain = l.chain(g, n, true);
            if chain.is_empty() {
                return None;
            }
            chain
        }
    };
    let own = chain.first().copied().unwrap_or(0);
    let capacity = match place {
        Some((_, size, _)) if size > 0 => (size / 32) as usize,
        _ => chain.len() * (l.cluster / 32) as usize,
    };
    let mut items = Vec::new();
    let root = place.is_some();
    let label = place.and_then(|p| p.2);
    if !root {
        for (dots, cluster) in [(&b".          "[..], own), (&b"..         "[..], parent)] {
            let mut r = [0u8; 32];
            r[..11].copy_from_slice(dots);
            r[11] = 0x10;
            r.set_le(26, cluster & 0xffff, 2);
            if l.kind == Kind::Fat32 {
                r.set_le(20, cluster >> 16, 2);
            }
            items.push(Item::Noise(r));
        }
    } else if l.kind == Kind::Fat32 && l.clusters > 20000 {
        let mut r = junk_record(g);
        r[0] = 0xe5;
        items.push(Item::Noise(r));
    }
    let mut names = BTreeSet::new();
    let mut shorts = BTreeSet::new();
    let many = if l.budget == 0 { 0 } else { up_to(g, &[1, 4, 12, 30]) as usize };
    let label_at = g.usize(0, many.min(3));
    let mut used = items.len() + label.is_some() as usize;
    let mut full = false;
    for i in 0..=many {
        if i == label_at {
            if let Some(label) = label {
                let mut r = [0u8; 32];
                r[..11].copy_from_slice(&label);
                r[11] = *g.pick(&[0x08u8, 0x28]);
                items.push(Item::Noise(r));
            }
        }
        if i == many || l.budget == 0 {
            continue;
        }
        l.budget -= 1;
        if g.chance(1, 6) {
            // Something deleted, with its long name or what is left of it.
            let short = short_name(g);
            let mut records = if g.chance(2, 3) { long_records(&long_name(g), checksum(&short)) } else { Vec::new() };
            let lost = g.chance(1, 3) && !records.is_empty();
            for r in records.iter_mut() {
                if !lost {
                    r[0] = 0xe5;
                }
            }
            let mut r = junk_record(g);
            r[..11].copy_from_slice(&short);
            r[0] = 0xe5;
            records.push(r);
            if used + records.len() <= capacity {
                used += records.len();
                g.class_if(lost, "long name of a deleted entry");
                items.extend(records.into_iter().map(Item::Noise));
            }
            continue;
        }
        if g.chance(1, 12) {
            // A long name whose entry is gone, and now another.
            let records = long_records(&long_name(g), 0);
            if used + records.len() + 1 <= capacity {
                if let Some((own, node)) = entry(g, l, if root { 0 } else { own }, depth, &mut names, &mut shorts) {
                    let last = own.last().unwrap();
                    let wrong = checksum(&last[..11]).wrapping_add(g.range(1, 255) as u8);
                    if used + records.len() + own.len() <= capacity {
                        used += records.len() + own.len();
                        // One part that is wrong is enough.
                        let part = if g.bool() { Some(g.usize(0, records.len() - 1)) } else { None };
                        g.class_if(part.is_some() && records.len() > 1, "long name with one wrong part");
                        for (k, mut r) in records.into_iter().enumerate() {
                            r[13] = if part.is_none_or(|p| p == k) { wrong } else { checksum(&last[..11]) };
                            items.push(Item::Noise(r));
                        }
                        items.push(Item::Entry(own, node));
                        g.class("long name that belongs to no entry");
                    }
                }
            }
            continue;
        }
        let Some((records, node)) = entry(g, l, if root { 0 } else { own }, depth, &mut names, &mut shorts) else { continue };
        if used + records.len() > capacity {
            full = true;
            continue;
        }
        used += records.len();
        items.push(Item::Entry(records, node));
    }
    g.class_if(full, "full directory");
    // A long name with the volume label after it belongs to no entry.
    if label.is_some() && g.chance(1, 3) {
        let is_label = |i: &Item| matches!(i, Item::Noise(r) if r[11] & 0xdf == 0x08 && r[0] == b'L');
        if let Some(k) = items.iter().position(is_label) {
            let short: Option<[u8; 32]> = match items.get(k + 1) {
                Some(Item::Entry(records, node)) if node.long.is_none() => records.last().copied(),
                _ => None,
            };
            if let Some(short) = short {
                let records = long_records(&long_name(g), checksum(&short[..11]));
                if used + records.len() <= capacity {
                    items.splice(k..k, records.into_iter().map(Item::Noise));
                    g.class("volume label after a long name");
                }
            }
        }
    }
    // Records one after another.
    let mut nodes = Vec::new();
    let mut all: Vec<[u8; 32]> = Vec::new();
    let offset_of = |l: &Layout, i: usize| -> u64 {
        match place {
            Some((at, size, _)) if size > 0 => at + i as u64 * 32,
            _ => {
                let per = (l.cluster / 32) as usize;
                l.place(chain[i / per]) + (i % per) as u64 * 32
            }
        }
    };
    for item in items {
        match item {
            Item::Noise(r) => all.push(r),
            Item::Entry(records, mut node) => {
                let first = all.len();
                all.extend(records);
                node.identifier = offset_of(l, all.len() - 1);
                if chain.len() > 1 {
                    let per = (l.cluster / 32) as usize;
                    g.class_if(first / per != (all.len() - 1) / per, "long name across clusters");
                }
                nodes.push(node);
            }
        }
    }
    if all.len() < capacity {
        let mut r = [0u8; 32];
        if g.chance(1, 4) {
            r[1..].copy_from_slice(&g.bytes(31));
        }
        all.push(r);
        if g.chance(1, 3) {
            // What comes after the end does not count.
            let n = g.usize(1, 40).min(capacity - all.len());
            for _ in 0..n {
                let r = junk_record(g);
                all.push(r);
            }
            g.class("records after the end of a directory");
        }
    }
    let mut i = 0;
    while i < all.len() {
        let at = offset_of(l, i);
        let mut data = Vec::new();
        while i < all.len() && offset_of(l, i) == at + data.len() as u64 {
            data.extend_from_slice(&all[i]);
            i += 1;
        }
        l.image.poke(at, &data);
        l.hot.push((at, data.len() as u64));
    }
    g.class_if(depth > 1, "directory in a directory");
    g.class_if(chain.len() > 1, "directory of several clusters");
    Some((nodes, own))
}

fn label(g: &mut Gen) -> [u8; 11] {
    let mut label = [b' '; 11];
    let n = g.usize(1, 11);
    for b in label[..n].iter_mut() {
        *b = *g.pick(b"ABCXYZ019_ ");
    }
    label[n - 1] = b'Z';
    label[0] = b'L';
    label
}

fn trimmed(label: &[u8; 11]) -> Vec<u8> {
    let n = label.iter().rposition(|b| *b != b' ').map_or(0, |i| i + 1);
    label[..n].to_vec()
}

fn volume(g: &mut Gen, kind: Kind, large: bool) -> Volume {
    let sector = *g.pick(&[512u64, 512, 512, 1024, 2048, 4096]);
    let per: u64 = if large { 64 } else { 1 << *g.pick(&[0u32, 0, 0, 1, 2, 3, 5, 7]) };
    let sector = if large { 4096 } else { sector };
    let clusters = match kind {
        Kind::Fat12 => match g.below_or(3) {
            0 => 4084 - g.below_or(3),
            1 => g.range(1, 40),
            _ => g.range(3, 4084),
        },
        Kind::Fat16 => match g.below_or(3) {
            0 => 65524 - g.below_or(40),
            1 => 4085 + g.below_or(3),
            _ => g.range(4085, 65524),
        },
        Kind::Fat32 => match g.below_or(4) {
            0 => 65525 + g.below_or(3),
            1 => g.range(5, 3000),
            _ => g.range(65525, 300_000),
        },
    };
    let clusters = if large { g.range(66_000, 200_000) } else { clusters };
    let cluster = sector * per;
    // 2^32 - 1 sectors at most.
    let width = match kind {
        Kind::Fat12 => (clusters + 2) * 3 / 2 + 1,
        Kind::Fat16 => (clusters + 2) * 2,
        Kind::Fat32 => (clusters + 2) * 4,
    };
    let table_sectors = width.div_ceil(sector) + g.below_or(3) * g.below_or(1);
    let tables = g.range(1, 3);
    let reserved = if g.bool() { *g.pick(&[1u64, 32, 6]) } else { g.range(1, 300) };
    let entries = if kind == Kind::Fat32 { 0 } else { sector / 32 * if g.chance(1, 30) { 65535 / (sector / 32) - g.below_or(2) } else { 1 + up_to(g, &[1, 31]) } };
    g.class_if(entries > 8192, "root directory of more than 8192 entries");
    let root_at = (reserved + tables * table_sectors) * sector;
    let first = root_at + entries * 32;
    let extra = g.below_or(per - 1);
    let sectors = first / sector + clusters * per + extra;
    let mut l = Layout { kind, sector, cluster, clusters, first, high: large || g.bool(), wide: false, table: BTreeMap::new(), image: Sparse::new(0), hot: Vec::new(), budget: 40 };
    let signed = g.chance(3, 4);
    let boot_label = label(g);
    let serial = g.u32();
    let root_label = if g.chance(1, 2) { Some(label(g)) } else { None };
    let mut boot = vec![0u8; 512];
    if g.chance(1, 3) {
        let n = boot.len();
        boot.at(0, &g.bytes(n));
    }
    boot.at(0, b"\xeb\x3c\x90MSWIN4.1");
    boot.set_le(11, sector, 2);
    boot[13] = per as u8;
    boot.set_le(14, reserved, 2);
    boot[16] = tables as u8;
    boot.set_le(17, entries, 2);
    boot[21] = 0xf8;
    boot.at(510, &[0x55, 0xaa]);
    l.image.size = sectors * sector;
    let (nodes, root_start) = {
        let place = if kind == Kind::Fat32 { (0, 0, root_label) } else { (root_at, entries * 32, root_label) };
        directory_of(g, &mut l, 0, 1, Some(place)).unwrap_or((Vec::new(), 2))
    };
    let small = sectors <= 0xffff && kind != Kind::Fat32 && g.bool();
    boot.set_le(19, if small { sectors } else { 0 }, 2);
    boot.set_le(32, if small { 0 } else { sectors }, 4);
    let at = if kind == Kind::Fat32 {
        boot.set_le(22, 0, 2);
        boot.set_le(36, table_sectors, 4);
        boot.set_le(40, 0, 4);
        boot.set_le(44, root_start, 4);
        66
    } else {
        boot.set_le(22, table_sectors, 2);
        38
    };
    boot[at] = if signed { 0x29 } else { *g.pick(&[0u8, 0x28, 0xff]) };
    if signed {
        boot.set_le(at + 1, serial as u64, 4);
        boot.at(at + 5, &boot_label);
    }
    l.image.poke(0, &boot);
    // The tables.
    let mut table = vec![0u8; (table_sectors * sector) as usize];
    let put = |table: &mut [u8], i: u64, v: u32| match kind {
        Kind::Fat12 => {
            for bit in 0..12 {
                let at = i * 12 + bit;
                let mask = 1u8 << (at % 8);
                if v >> bit & 1 != 0 {
                    table[(at / 8) as usize] |= mask;
                } else {
                    table[(at / 8) as usize] &= !mask;
                }
            }
        }
        Kind::Fat16 => table.set_le((i * 2) as usize, v as u64, 2),
        Kind::Fat32 => table.set_le((i * 4) as usize, v as u64, 4),
    };
    put(&mut table, 0, 0x0ffffff8);
    put(&mut table, 1, 0x0fffffff);
    let marks: Vec<u64> = l.table.keys().copied().collect();
    for (i, v) in &l.table {
        put(&mut table, *i, *v);
    }
    // Bad clusters and others.
    for _ in 0..g.below_or(4) {
        let c = 2 + g.below_or(l.last() - 2);
        if !l.table.contains_key(&c) {
            put(&mut table, c, 0x0ffffff7);
        }
    }
    let table_at = reserved * sector;
    let end = table.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
    l.image.poke(table_at, &table[..end]);
    for i in 1..tables {
        if !g.chance(1, 4) {
            l.image.poke(table_at + i * table_sectors * sector, &table[..end]);
        }
    }
    let mut hot = vec![(11, 53), (11, 25), (0, 512)];
    for c in marks {
        hot.push((table_at + c * (width / (clusters + 2)).max(1) * 3 / if kind == Kind::Fat12 { 2 } else { 3 }, 6));
    }
    hot.extend(l.hot.clone());
    let label = match root_label {
        Some(label) => Some(trimmed(&label)),
        None if signed => Some(trimmed(&boot_label)),
        None => None,
    };
    Volume { image: l.image, kind, sector: l.sector, cluster, label, serial: if signed { serial } else { 0 }, root: nodes, root_identifier: if kind == Kind::Fat32 { 0 } else { root_at }, hot }
}

fn name_of(node: &Node) -> FatString {
    match &node.long {
        Some(n) => FatString::Ucs2String(Ucs2String { elements: n.clone() }),
        None => FatString::ByteString(ByteString { encoding: CharacterEncoding::Ascii, elements: node.short.clone() }),
    }
}

fn swap_case(node: &Node) -> Option<FatString> {
    let swap = |b: u8| if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() };
    match &node.long {
        Some(n) => Some(FatString::Ucs2String(Ucs2String { elements: n.iter().map(|c| if *c < 128 { swap(*c as u8) as u16 } else { *c }).collect() })),
        None => Some(FatString::ByteString(ByteString { encoding: CharacterEncoding::Ascii, elements: node.short.iter().map(|b| if *b < 128 { swap(*b) } else { *b }).collect() })),
    }
}

fn check_entry(g: &mut Gen, what: &str, entry: &mut FatFileEntry, node: &Node, cluster: u64, deep: bool) -> CaseResult {
    check_eq!(entry.identifier, node.identifier, "{}: identifier", what);
    check!(!entry.is_root_directory(), "{}: is the root directory", what);
    check_eq!(entry.get_name(), Some(name_of(node)), "{}: name", what);
    check_eq!(entry.get_file_attribute_flags(), node.attributes, "{}: attributes", what);
    check_eq!(entry.get_size(), node.size as u64, "{}: size", what);
    check_eq!(entry.is_directory(), node.sub.is_some(), "{}: is a directory", what);
    let t = &node.times;
    check_eq!(entry.get_creation_time(), Some(&DateTime::FatTimeDate10Ms(FatTimeDate10Ms::new(t[2], t[1], t[0] as u8))), "{}: creation time", what);
    check_eq!(entry.get_access_time(), Some(&DateTime::FatDate(FatDate::new(t[3]))), "{}: access time", what);
    check_eq!(entry.get_modification_time(), Some(&DateTime::FatTimeDate(FatTimeDate::new(t[1] ^ 0x1234, t[4]))), "{}: modification time", what);
    let stream = match entry.get_data_stream() {
        Ok(s) => s,
        Err(e) => return fail(format!("{}: data stream: {}", what, e.to_string())),
    };
    check_eq!(stream.is_some(), node.sub.is_none(), "{}: data stream", what);
    if let Some(stream) = stream {
        let mut stream = stream.write().unwrap();
        let stream: &mut dyn DataStream = &mut *stream;
        check_stream(g, what, stream, &node.data, cluster, &[])?;
        if deep {
            check_all(what, stream, &node.data, *g.pick(&[4096usize, 65536, 1000]))?;
        }
        match entry.get_number_of_sub_file_entries() {
            Ok(n) => check_eq!(n, 0, "{}: entries of a file", what),
            Err(e) => return fail(format!("{}: entries of a file: {}", what, e.to_string())),
        }
    }
    Ok(())
}

fn check_directory(g: &mut Gen, what: &str, directory: &mut FatFileEntry, nodes: &[Node], cluster: u64, system: &FatFileSystem, path: &[FatString]) -> CaseResult {
    // Before anything else was asked, at times.
    if g.chance(1, 3) && !nodes.is_empty() {
        let node = g.pick(nodes);
        check_name(g, what, directory, node, cluster)?;
    }
    let n = match directory.get_number_of_sub_file_entries() {
        Ok(n) => n,
        Err(e) => return fail(format!("{}: number of entries: {}", what, e.to_string())),
    };
    check_eq!(n, nodes.len(), "{}: number of entries", what);
    let mut seen = BTreeSet::new();
    for i in 0..n {
        let mut entry = match directory.get_sub_file_entry_by_index(i) {
            Ok(e) => e,
            Err(e) => return fail(format!("{}: entry {}: {}", what, i, e.to_string())),
        };
        let Some(node) = nodes.iter().find(|n| n.identifier == entry.identifier) else {
            return fail(format!("{}: entry {} with identifier 0x{:x} is none of those that were written", what, i, entry.identifier));
        };
        check!(seen.insert(node.identifier), "{}: entry {} comes twice", what, i);
        let name = format!("{}/{}", what, name_of(node).to_string().chars().take(20).collect::<String>());
        check_entry(g, &name, &mut entry, node, cluster, true)?;
        if let Some(sub) = &node.sub {
            let mut path = path.to_vec();
            path.push(name_of(node));
            check_directory(g, &name, &mut entry, sub, cluster, system, &path)?;
        }
    }
    check!(directory.get_sub_file_entry_by_index(n).is_err(), "{}: entry {} of {}", what, n, n);
    for node in nodes {
        if g.chance(1, 2) {
            check_name(g, what, directory, node, cluster)?;
        }
        // Known finding: an entry in the first record of the root directory of FAT-12 and FAT-16
        // has the identifier of the root directory.
        let first = path.is_empty() && node.identifier == system.root_directory_offset;
        g.class_if(first, "known: identifier of the root directory");
        if g.chance(1, 2) && !first {
            match system.get_file_entry_by_identifier(node.identifier) {
                Ok(mut e) => check_entry(g, &format!("{}: by identifier 0x{:x}", what, node.identifier), &mut e, node, cluster, false)?,
                Err(e) => return fail(format!("{}: by identifier 0x{:x}: {}", what, node.identifier, e.to_string())),
            }
        }
        if g.chance(1, 3) {
            let mut components = vec![FatString::new()];
            components.extend_from_slice(path);
            components.push(name_of(node));
            let mut full = FatPath { components };
            match system.get_file_entry_by_path(&full) {
                Ok(Some(mut e)) => check_entry(g, &format!("{}: by path", what), &mut e, node, cluster, false)?,
                Ok(None) => return fail(format!("{}: {} is not found by its path", what, short(&full.components))),
                Err(e) => return fail(format!("{}: by path: {}", what, e.to_string())),
            }
            let relative = FatPath { components: if g.bool() { full.components[1..].to_vec() } else { Vec::new() } };
            match system.get_file_entry_by_path(&relative) {
                Ok(found) => check!(found.is_none(), "{}: a path that does not start at the root directory is found", what),
                Err(e) => return fail(format!("{}: by a path that does not start at the root directory: {}", what, e.to_string())),
            }
            full.push(FatString::from("no such"));
            match system.get_file_entry_by_path(&full) {
                Ok(None) => {}
                Ok(Some(_)) => {
                    let there = node.sub.as_ref().is_some_and(|s| s.iter().any(|n| fold(&Ucs2String::from("no such").elements) == key_of(n)));
                    check!(there, "{}: {} is found", what, short(&full.components));
                }
                Err(e) => return fail(format!("{}: by a path that is not there: {}", what, e.to_string())),
            }
        }
    }
    let absent = FatString::Ucs2String(Ucs2String { elements: long_name(g) });
    if let FatString::Ucs2String(name) = &absent {
        if !nodes.iter().any(|n| key_of(n) == fold(&name.elements)) {
            match directory.get_sub_file_entry_by_name(&absent) {
                Ok(found) => check!(found.is_none(), "{}: {} is found", what, short(&absent)),
                Err(e) => return fail(format!("{}: {}: {}", what, short(&absent), e.to_string())),
            }
        }
    }
    Ok(())
}

fn key_of(node: &Node) -> Vec<u16> {
    match &node.long {
        Some(n) => fold(n),
        None => node.short.iter().map(|b| b.to_ascii_uppercase() as u16).collect(),
    }
}

fn check_name(g: &mut Gen, what: &str, directory: &mut FatFileEntry, node: &Node, cluster: u64) -> CaseResult {
    let mut name = name_of(node);
    match g.below_or(2) {
        0 => {
            if let Some(n) = swap_case(node) {
                name = n;
            }
        }
        1 if node.long.is_none() && node.short.iter().all(|b| *b < 128) => {
            name = FatString::Ucs2String(Ucs2String { elements: node.short.iter().map(|b| *b as u16).collect() });
        }
        _ => {}
    }
    match directory.get_sub_file_entry_by_name(&name) {
        Ok(Some(mut e)) => check_entry(g, &format!("{}: by name {}", what, short(&name)), &mut e, node, cluster, false),
        Ok(None) => fail(format!("{}: {} is not found", what, short(&name))),
        Err(e) => fail(format!("{}: {}: {}", what, short(&name), e.to_string())),
    }
}

fn describe(g: &mut Gen, v: &Volume) {
    let (kind, sector, cluster, n) = (v.kind, v.sector, v.cluster, v.root.len());
    g.note(|| format!("{:?}, sectors of {}, clusters of {}, {} bytes, {} entries in the root directory", kind, sector, cluster, v.image.size, n));
}

fn whole(g: &mut Gen, kind: Kind, large: bool) -> CaseResult {
    let v = volume(g, kind, large);
    describe(g, &v);
    let mut system = FatFileSystem::new();
    if let Err(e) = system.read_data_stream(&v.image.stream()) {
        return fail(format!("the volume is refused: {}", e.to_string()));
    }
    let format = match kind {
        Kind::Fat12 => FatFormat::Fat12,
        Kind::Fat16 => FatFormat::Fat16,
        Kind::Fat32 => FatFormat::Fat32,
    };
    check!(system.format == format, "not taken for {:?}", kind);
    check_eq!(system.bytes_per_sector as u64, v.sector, "bytes per sector");
    check_eq!(system.volume_serial_number, v.serial, "serial number");
    check_eq!(system.get_volume_label().map(|l| l.elements.clone()), v.label, "label");
    if !v.root.is_empty() {
        g.nontrivial();
    }
    let mut root = match system.get_root_directory() {
        Ok(r) => r,
        Err(e) => return fail(format!("root directory: {}", e.to_string())),
    };
    check!(root.is_directory() && root.is_root_directory(), "the root directory is not one");
    check_eq!(root.identifier, v.root_identifier, "identifier of the root directory");
    check!(root.get_name().is_none() && root.get_modification_time().is_none(), "the root directory has a name or time");
    check_directory(g, "", &mut root, &v.root, v.cluster, &system, &[])?;
    let by = if g.bool() { system.get_file_entry_by_identifier(v.root_identifier).map(Some) } else { system.get_file_entry_by_path(&FatPath::from("/")) };
    match by {
        Ok(Some(mut root)) => match root.get_number_of_sub_file_entries() {
            Ok(n) => check_eq!(n, v.root.len(), "entries of the root directory"),
            Err(e) => return fail(format!("root directory: {}", e.to_string())),
        },
        Ok(None) => return fail("the root directory is not found"),
        Err(e) => return fail(format!("root directory: {}", e.to_string())),
    }
    Ok(())
}

fn fat12(g: &mut Gen) -> CaseResult {
    whole(g, Kind::Fat12, false)
}

fn fat16(g: &mut Gen) -> CaseResult {
    whole(g, Kind::Fat16, false)
}

fn fat32(g: &mut Gen) -> CaseResult {
    whole(g, Kind::Fat32, false)
}

fn large(g: &mut Gen) -> CaseResult {
    whole(g, Kind::Fat32, true)
}

/// What a boot record must not say.
fn refused(g: &mut Gen) -> CaseResult {
    let kind = *g.pick(&[Kind::Fat12, Kind::Fat16, Kind::Fat32]);
    let mut v = volume(g, kind, false);
    g.nontrivial();
    let what = match g.below_or(if kind == Kind::Fat32 { 5 } else { 3 }) {
        0 => {
            let at = 510 + g.below_or(1);
            let old = v.image.get(at, 1)[0];
            let new = old ^ g.range(1, 255) as u8;
            v.image.poke(at, &[new]);
            "sector signature"
        }
        1 => {
            let n = loop {
                let n = g.edgy(16) as u16;
                if ![512, 1024, 2048, 4096].contains(&n) {
                    break n;
                }
            };
            v.image.poke(11, &n.to_le_bytes());
            "bytes per sector"
        }
        2 => {
            let n = loop {
                let n = g.u8();
                if !n.is_power_of_two() {
                    break n;
                }
            };
            v.image.poke(13, &[n]);
            "sectors per cluster"
        }
        3 => {
            v.image.truncate(g.below_or(511));
            "end of the volume"
        }
        4 => {
            v.image.poke(44, &(g.below_or(1) as u32).to_le_bytes());
            "cluster of the root directory"
        }
        _ => {
            v.image.poke(32, &(g.below_or(1) as u32).to_le_bytes());
            "number of sectors"
        }
    };
    g.note(|| format!("{:?} with an unsupported {}", kind, what));
    let mut system = FatFileSystem::new();
    check!(system.read_data_stream(&v.image.stream()).is_err(), "a volume with an unsupported {} is read", what);
    Ok(())
}

fn walk(g: &mut Gen, entry: &mut FatFileEntry, depth: usize, budget: &mut usize) {
    let n = entry.get_number_of_sub_file_entries().unwrap_or(0);
    for i in 0..n {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        let Ok(mut sub) = entry.get_sub_file_entry_by_index(i) else { continue };
        let name = sub.get_name();
        if let Some(name) = &name {
            let _ = name.to_string();
            let _ = entry.get_sub_file_entry_by_name(name);
        }
        if let Ok(Some(stream)) = sub.get_data_stream() {
            touch(g, &mut *stream.write().unwrap());
        } else if depth < 5 {
            walk(g, &mut sub, depth + 1, budget);
        }
    }
}

fn damaged(g: &mut Gen) -> CaseResult {
    let kind = *g.pick(&[Kind::Fat12, Kind::Fat12, Kind::Fat16, Kind::Fat32]);
    let mut v = volume(g, kind, false);
    damage(g, &mut v.image, &v.hot);
    describe(g, &v);
    let mut system = FatFileSystem::new();
    if system.read_data_stream(&v.image.stream()).is_err() {
        g.class("refused");
        return Ok(());
    }
    g.nontrivial();
    let mut budget = 60;
    if let Ok(mut root) = system.get_root_directory() {
        walk(g, &mut root, 0, &mut budget);
    }
    for _ in 0..2 {
        let id = match g.below_or(3) {
            0 => g.edgy(64),
            1 => g.below_or(v.image.size),
            _ => {
                let (at, size) = *g.pick(&v.hot);
                at + g.below_or(size / 32) * 32
            }
        };
        if kind == Kind::Fat12 || g.chance(1, 8) {
            if let Ok(e) = system.get_file_entry_by_identifier(id) {
                let _ = e.get_name().map(|n| n.to_string());
            }
        }
    }
    Ok(())
}

pub static C49: Property = Property {
    id: "C49",
    rule: "a case counts as non-trivial when its volume holds at least one file or directory, or when it was changed so that it must be refused, or was damaged and is still read",
    assumptions: &[
        "the volumes are written by the harness after docs/formats/src/fat.md: sectors of 512 to 4096 bytes, clusters of 1 to 128 sectors, 1 to 3 allocation tables, up to 300000 clusters (of up to 256 KiB in the facet of large volumes), files of at most 6 clusters",
        "cluster numbers from 0xff0, 0xfff0 and 0x0ffffff0 are not used for data, as the specification reserves them",
        "names in a directory differ regardless of case; short names do not start with 0x05, and their bytes from 0x80 are looked up as byte strings only, as the codepage is not known",
        "FAT-32 volumes keep their allocation tables mirrored (the extended flags are 0); exFAT is not supported by the code",
    ],
    facets: &[
        Facet { name: "fat12", work: Work::Random(60, 600), case: fat12 },
        Facet { name: "fat16", work: Work::Random(40, 400), case: fat16 },
        Facet { name: "fat32", work: Work::Random(40, 400), case: fat32 },
        Facet { name: "large", work: Work::Random(15, 150), case: large },
        Facet { name: "refused", work: Work::Random(60, 600), case: refused },
        Facet { name: "damaged", work: Work::Random(80, 800), case: damaged },
    ],
};
