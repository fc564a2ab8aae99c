//! New Technologies File System volumes.

use crate::common::*;
use keramics_core::DataStream;
use keramics_datetime::{DateTime, Filetime};
use keramics_formats::ntfs::{NtfsAttribute, NtfsFileEntry, NtfsFileSystem, NtfsPath};
use keramics_types::Ucs2String;
use pbt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

const INFO: u32 = 0x10;
const LIST: u32 = 0x20;
const NAME: u32 = 0x30;
const LABEL: u32 = 0x60;
const VERSION: u32 = 0x70;
const DATA: u32 = 0x80;
const ROOT: u32 = 0x90;
const ALLOCATION: u32 = 0xa0;
const BITMAP: u32 = 0xb0;
const REPARSE: u32 = 0xc0;

const POSIX: u8 = 0;
const WINDOWS: u8 = 1;
const DOS: u8 = 2;
const BOTH: u8 = 3;

fn wide(text: &str) -> Vec<u16> {
    text.encode_utf16().collect()
}

fn ucs2(name: &[u16]) -> Ucs2String {
    Ucs2String {
        elements: name.to_vec(),
    }
}

fn bytes_of(name: &[u16]) -> Vec<u8> {
    name.iter().flat_map(|c| c.to_le_bytes()).collect()
}

fn shown(name: &[u16]) -> String {
    String::from_utf16_lossy(&name[..name.len().min(20)])
}

fn align(n: usize) -> usize {
    n.div_ceil(8) * 8
}

/// Upper case as a volume has it, mostly.
fn upper() -> &'static Vec<u16> {
    static TABLE: OnceLock<Vec<u16>> = OnceLock::new();
    TABLE.get_or_init(|| {
        (0..=0xffffu16)
            .map(|c| {
                match char::from_u32(c as u32).map(|c| c.to_uppercase().collect::<Vec<char>>()) {
                    Some(up) if up.len() == 1 && (up[0] as u32) < 0x10000 => up[0] as u16,
                    _ => c,
                }
            })
            .collect()
    })
}

#[derive(Clone, Copy, Debug)]
struct Run {
    size: u64,
    at: Option<u64>,
}

fn total(runs: &[Run]) -> u64 {
    runs.iter().map(|r| r.size).sum()
}

enum Body {
    Resident(Vec<u8>),
    Runs {
        runs: Vec<Run>,
        allocated: u64,
        size: u64,
        valid: u64,
        unit: u16,
        total: u64,
    },
}

struct Attr {
    kind: u32,
    name: Vec<u16>,
    flags: u16,
    body: Body,
}

impl Attr {
    fn resident(kind: u32, name: &[u16], data: Vec<u8>) -> Attr {
        Attr {
            kind,
            name: name.to_vec(),
            flags: 0,
            body: Body::Resident(data),
        }
    }
}

/// A signed number in as few bytes as it takes.
fn signed(g: &mut Gen, n: i64) -> Vec<u8> {
    let bytes = n.to_le_bytes();
    let mut size = 8;
    while size > 1
        && (i64::from_le_bytes(bytes) << (64 - 8 * (size - 1))) >> (64 - 8 * (size - 1)) == n
    {
        size -= 1;
    }
    if size < 8 && g.chance(1, 20) {
        size += 1;
    }
    bytes[..size].to_vec()
}

fn runs_list(g: &mut Gen, runs: &[Run]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut last = 0i64;
    for run in runs {
        let size = signed(g, run.size as i64);
        let at = match run.at {
            Some(at) => {
                let bytes = signed(g, at as i64 - last);
                last = at as i64;
                bytes
            }
            None => Vec::new(),
        };
        out.push((at.len() << 4 | size.len()) as u8);
        out.extend(size);
        out.extend(at);
    }
    out.push(0);
    out
}

fn le(data: &[u8]) -> u64 {
    data.iter().rev().fold(0, |v, b| v << 8 | *b as u64)
}

/// An attribute, or a part of one, as a record has it.
fn piece(
    g: &mut Gen,
    attr: &Attr,
    identifier: u16,
    first: u64,
    part: &[Run],
    twist: u8,
) -> Vec<u8> {
    let name = bytes_of(&attr.name);
    let mut out;
    match &attr.body {
        Body::Resident(data) => {
            let at = align(24 + name.len());
            out = vec![0u8; align(at + data.len())];
            out.set_le(16, data.len() as u64, 4);
            out.set_le(20, at as u64, 2);
            out[22] = (attr.kind == NAME) as u8;
            out.set_le(10, 24, 2);
            out.at(24, &name);
            out.at(at, data);
        }
        Body::Runs {
            allocated,
            size,
            valid,
            unit,
            total: compressed,
            ..
        } => {
            let list = runs_list(g, part);
            let unit = if first == 0 { *unit } else { 0 };
            let header = if unit > 0 { 72 } else { 64 };
            let at = align(header + name.len());
            out = vec![0u8; align(at + list.len())];
            out[8] = 1;
            out.set_le(10, header as u64, 2);
            out.set_le(16, first, 8);
            out.set_le(24, (first + total(part)).wrapping_sub(1), 8);
            out.set_le(32, at as u64, 2);
            out.set_le(34, unit as u64, 2);
            if first == 0 {
                out.set_le(40, *allocated, 8);
                out.set_le(48, *size, 8);
                out.set_le(56, *valid, 8);
            }
            if unit > 0 {
                out.set_le(64, *compressed, 8);
            }
            out.at(header, &name);
            out.at(at, &list);
            if twist == 1 && g.chance(1, 3) {
                let (at, n) = *g.pick(&[
                    (16usize, 8usize),
                    (24, 8),
                    (32, 2),
                    (34, 2),
                    (34, 1),
                    (40, 8),
                    (48, 8),
                    (56, 8),
                    (64, 8),
                ]);
                let value = if g.bool() {
                    g.edgy(8 * n as u32)
                } else {
                    le(&out[at..at + n])
                        .wrapping_add(g.edgy(20))
                        .wrapping_sub(g.edgy(20))
                };
                if unit > 0 && g.chance(1, 3) {
                    out.set_le(34, g.range(unit as u64, 40), 2);
                    let size = 1 << g.range(20, 62);
                    for at in [40, 48, 56] {
                        out.set_le(at, size, 8);
                    }
                } else if at + n <= header {
                    out.set_le(at, value, n);
                }
            }
        }
    }
    let size = out.len();
    out.set_le(0, attr.kind as u64, 4);
    out.set_le(4, size as u64, 4);
    out[9] = attr.name.len() as u8;
    out.set_le(12, attr.flags as u64, 2);
    out.set_le(14, identifier as u64, 2);
    out
}

#[derive(Clone)]
struct Key {
    name: Vec<u16>,
    space: u8,
    reference: u64,
    parent: u64,
}

#[derive(Default, Clone)]
struct File {
    number: u64,
    sequence: u16,
    journal: u64,
    base: u64,
    free: bool,
    directory: bool,
    /// Creation, modification, change and access.
    times: [u64; 4],
    informed: bool,
    flags: u32,
    versions: (u32, u32),
    owner: Option<u32>,
    streams: BTreeMap<Vec<u16>, Sparse>,
    size: u64,
    target: Option<Vec<u16>>,
    tag: Option<u32>,
    keys: Vec<Key>,
    entries: Vec<Key>,
    exact: bool,
    /// Type, name and size of the attributes that have no structure of their own.
    others: Vec<(u32, Vec<u16>, u64)>,
    attributes: usize,
    list: Option<Vec<(u32, u64)>>,
    label: Option<Vec<u16>>,
    version: Option<(u8, u8, u16)>,
}

impl File {
    fn reference(&self) -> u64 {
        self.number | (self.sequence as u64) << 48
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Filler {
    Empty,
    Bad,
}

struct Fs {
    image: Sparse,
    sector: u64,
    cluster: u64,
    clusters: u64,
    entry: usize,
    index: usize,
    stated_index: usize,
    old_header: bool,
    version: (u8, u8),
    serial: u64,
    used: BTreeMap<u64, u64>,
    last: u64,
    fold: HashMap<u16, u16>,
    numbers: BTreeSet<u64>,
    records: BTreeMap<u64, Vec<u8>>,
    files: BTreeMap<u64, File>,
    fillers: BTreeMap<u64, Filler>,
    hot: Vec<(u64, u64)>,
    places: Vec<(u64, u64)>,
    mft: Vec<Run>,
    nodes: Vec<u64>,
    budget: usize,
    twist: u8,
}

impl Fs {
    fn folded(&self, name: &[u16]) -> Vec<u16> {
        name.iter()
            .map(|c| *self.fold.get(c).unwrap_or(c))
            .collect()
    }

    fn take(&mut self, start: u64, size: u64) -> bool {
        if size == 0 || start == 0 || start.checked_add(size).is_none_or(|e| e > self.clusters) {
            return false;
        }
        if self
            .used
            .range(..start + size)
            .next_back()
            .is_some_and(|(_, end)| *end > start)
        {
            return false;
        }
        self.used.insert(start, start + size);
        true
    }

    fn run(&mut self, g: &mut Gen, size: u64) -> Option<u64> {
        if size > self.clusters {
            return None;
        }
        for _ in 0..12 {
            let at = match g.below_or(5) {
                0 | 1 => self.last,
                2 => 1 + g.below_or(400),
                3 => self.clusters.saturating_sub(size + g.below_or(3)),
                4 => self.last + g.below_or(5),
                _ => g.below_or(self.clusters - size),
            };
            if self.take(at, size) {
                self.last = at + size;
                return Some(at);
            }
        }
        let mut at = 1;
        let taken: Vec<(u64, u64)> = self.used.iter().map(|(a, b)| (*a, *b)).collect();
        for (start, end) in taken {
            if start >= at + size {
                break;
            }
            at = at.max(end);
        }
        self.take(at, size).then(|| {
            self.last = at + size;
            at
        })
    }

    /// Runs of clusters, each of a multiple of the unit, with gaps if wanted.
    fn runs(
        &mut self,
        g: &mut Gen,
        clusters: u64,
        unit: u64,
        most: usize,
        gaps: bool,
    ) -> Option<Vec<Run>> {
        let mut left = clusters / unit;
        let mut out: Vec<Run> = Vec::new();
        while left > 0 {
            let size = if out.len() + 1 >= most {
                left
            } else {
                1 + g.below_or(left.min(1 + 2 * clusters / unit / most as u64) - 1)
            };
            let gap = gaps && g.chance(1, 3);
            let at = if gap {
                None
            } else {
                Some(self.run(g, size * unit)?)
            };
            left -= size;
            let size = size * unit;
            match out.last_mut() {
                Some(run)
                    if gap == run.at.is_none()
                        && (gap || run.at.map(|a| a + run.size) == at)
                        && g.chance(3, 4) =>
                {
                    run.size += size
                }
                _ => out.push(Run { size, at }),
            }
        }
        Some(out)
    }

    /// Writes data where runs have it.
    fn store(&mut self, runs: &[Run], offset: u64, data: &[u8]) {
        let end = offset + data.len() as u64;
        let mut start = 0;
        for run in runs {
            let last = start + run.size * self.cluster;
            if let Some(at) = run.at {
                if start < end && last > offset {
                    let from = start.max(offset);
                    let to = last.min(end);
                    self.image.poke(
                        at * self.cluster + from - start,
                        &data[(from - offset) as usize..(to - offset) as usize],
                    );
                }
            }
            start = last;
        }
    }

    fn new_number(&mut self, g: &mut Gen) -> u64 {
        let mut n = 24 + g.below_or(self.numbers.len() as u64 + 8);
        while !self.numbers.insert(n) {
            n += 1;
        }
        n
    }

    fn header_size(&self) -> usize {
        let fixups = if self.old_header { 42 } else { 48 };
        align(fixups + 2 + 2 * self.entry.div_ceil(512))
    }

    fn room(&self) -> usize {
        self.entry - self.header_size() - 8
    }

    /// A record of attributes.
    fn record(
        &mut self,
        g: &mut Gen,
        file: &File,
        number: u64,
        base: u64,
        pieces: &mut Vec<(u32, Vec<u16>, Vec<u8>)>,
    ) {
        pieces.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.cmp(&b.1)));
        let mut out = vec![0u8; self.entry];
        if g.chance(1, 3) {
            let junk = g.u8();
            out[self.header_size()..].fill(junk);
            let from = self.header_size();
            out[from..].fill(g.u8());
        }
        let header = self.header_size();
        out.at(0, b"FILE");
        out.set_le(4, if self.old_header { 42 } else { 48 }, 2);
        out.set_le(6, self.entry.div_ceil(512) as u64 + 1, 2);
        out.set_le(8, file.journal, 8);
        out.set_le(16, file.sequence as u64, 2);
        out.set_le(18, file.keys.len() as u64, 2);
        out.set_le(20, header as u64, 2);
        out.set_le(22, !file.free as u64 | (file.directory as u64) << 1, 2);
        out.set_le(28, self.entry as u64, 4);
        out.set_le(32, base, 8);
        out.set_le(40, pieces.len() as u64 + 1, 2);
        if !self.old_header {
            out.set_le(44, number, 4);
        }
        let mut at = header;
        for (_, _, data) in pieces.iter() {
            out.at(at, data);
            at += data.len();
        }
        out.set_le(at, 0xffffffff, 4);
        out.set_le(24, (at + 8) as u64, 4);
        self.records.insert(number, out);
    }

    /// Lays out the attributes of a file over records.
    fn finish(&mut self, g: &mut Gen, mut file: File, attrs: Vec<Attr>) -> Option<()> {
        let room = self.room();
        let mut kinds = BTreeSet::new();
        file.attributes = 0;
        for attr in &attrs {
            if attr.kind == NAME || kinds.insert((attr.kind, attr.name.clone())) {
                file.attributes += 1;
            }
            let size = match &attr.body {
                Body::Resident(data) => data.len() as u64,
                Body::Runs { size, .. } => *size,
            };
            if ![INFO, LIST, NAME, LABEL, VERSION, REPARSE].contains(&attr.kind) {
                file.others.push((attr.kind, attr.name.clone(), size));
            }
        }
        let mft = file.number == 0;
        let mut whole = Vec::new();
        for (i, attr) in attrs.iter().enumerate() {
            let runs = match &attr.body {
                Body::Runs { runs, .. } => runs.clone(),
                _ => Vec::new(),
            };
            whole.push((
                attr.kind,
                attr.name.clone(),
                piece(g, attr, i as u16, 0, &runs, self.twist),
            ));
        }
        let sum: usize = whole.iter().map(|p| p.2.len()).sum();
        let plain = file.number == 3 || file.number == 10;
        if sum <= room && (plain || !g.chance(1, if mft { 4 } else { 10 })) {
            let base = file.base;
            self.record(g, &file, file.number, base, &mut whole);
            self.files.insert(file.number, file);
            return Some(());
        }
        if plain {
            return None;
        }
        g.class("attribute list");
        // Parts of the attributes.
        let mut parts: Vec<(usize, u64, Vec<u8>)> = Vec::new();
        for (i, attr) in attrs.iter().enumerate() {
            match &attr.body {
                Body::Runs { runs, .. } => {
                    let mut first = 0;
                    let mut at = 0;
                    loop {
                        let mut n = runs.len() - at;
                        if n > 1 && (g.chance(1, 3) || mft) {
                            n = g.usize(1, n);
                            if !mft {
                                g.class_if(n < runs.len() - at, "attribute in parts");
                            }
                        }
                        let mut data =
                            piece(g, attr, i as u16, first, &runs[at..at + n], self.twist);
                        while data.len() > room - 80 && n > 1 {
                            n -= n.div_ceil(8);
                            data = piece(g, attr, i as u16, first, &runs[at..at + n], self.twist);
                        }
                        parts.push((i, first, data));
                        first += total(&runs[at..at + n]);
                        at += n;
                        if at >= runs.len() {
                            break;
                        }
                    }
                }
                _ => {
                    let data = piece(g, attr, i as u16, 0, &[], self.twist);
                    if self.twist == 6 && g.bool() {
                        parts.push((i, g.below_or(9), data.clone()));
                    }
                    parts.push((i, 0, data));
                }
            }
        }
        // The list goes to the base record, and standard information and, for the table itself, its first runs.
        let list_size: usize = parts
            .iter()
            .map(|p| align(26 + 2 * attrs[p.0].name.len()))
            .sum();
        let resident = list_size + 32 <= room / 2 && g.chance(3, 4);
        let mut left = room - if resident { align(24 + list_size) } else { 160 };
        let mut base_pieces = Vec::new();
        let mut others = Vec::new();
        let mut spots: Vec<(u32, Vec<u16>, u64, u64, u16)> = Vec::new();
        for (i, first, data) in parts {
            let attr = &attrs[i];
            let must = attr.kind == INFO || mft && attr.kind == DATA && first == 0;
            if must {
                if data.len() > left {
                    return None;
                }
                left -= data.len();
                spots.push((
                    attr.kind,
                    attr.name.clone(),
                    first,
                    file.reference(),
                    i as u16,
                ));
                base_pieces.push((attr.kind, attr.name.clone(), data));
            } else {
                others.push((i, first, data));
            }
        }
        let mut extensions: Vec<(u64, Vec<(u32, Vec<u16>, Vec<u8>)>, usize)> = Vec::new();
        for (i, first, data) in others {
            let attr = &attrs[i];
            if data.len() <= left && !(mft && attr.kind == DATA) && g.chance(1, 3) {
                left -= data.len();
                spots.push((
                    attr.kind,
                    attr.name.clone(),
                    first,
                    file.reference(),
                    i as u16,
                ));
                base_pieces.push((attr.kind, attr.name.clone(), data));
                continue;
            }
            let fits = |e: &(u64, Vec<(u32, Vec<u16>, Vec<u8>)>, usize)| {
                e.2 + data.len() <= room
                    && !e
                        .1
                        .iter()
                        .any(|p| p.0 == attr.kind && p.1 == attr.name && p.0 != NAME)
            };
            let at = match extensions.iter().position(fits) {
                Some(at) if g.chance(2, 3) => at,
                _ => {
                    if data.len() > room {
                        return None;
                    }
                    let number = if mft {
                        let Some(n) = (11..24).find(|n| !self.numbers.contains(n)) else {
                            return None;
                        };
                        self.numbers.insert(n);
                        n
                    } else {
                        self.new_number(g)
                    };
                    extensions.push((number, Vec::new(), 0));
                    extensions.len() - 1
                }
            };
            let e = &mut extensions[at];
            e.2 += data.len();
            spots.push((attr.kind, attr.name.clone(), first, e.0 | 1 << 48, i as u16));
            e.1.push((attr.kind, attr.name.clone(), data));
        }
        spots.sort();
        let mut list = Vec::new();
        for (kind, name, first, reference, i) in &spots {
            let size = align(26 + 2 * name.len());
            let mut e = vec![0u8; size];
            e.set_le(0, *kind as u64, 4);
            e.set_le(4, size as u64, 2);
            e[6] = name.len() as u8;
            e[7] = 26;
            e.set_le(8, *first, 8);
            e.set_le(16, *reference, 8);
            e.set_le(24, *i as u64, 2);
            e.at(26, &bytes_of(name));
            if self.twist == 7 && g.chance(1, 4) {
                let (at, n) = *g.pick(&[
                    (0usize, 4usize),
                    (4, 2),
                    (6, 1),
                    (7, 1),
                    (8, 8),
                    (16, 6),
                    (16, 1),
                ]);
                let value = if g.bool() {
                    g.edgy(8 * n as u32)
                } else {
                    le(&e[at..at + n]).wrapping_add(g.below_or(20))
                };
                e.set_le(at, value, n);
            }
            list.extend(e);
        }
        let attr = if resident {
            Attr::resident(LIST, &[], list)
        } else {
            let clusters = (list.len() as u64).div_ceil(self.cluster);
            g.class_if(clusters > 1, "attribute list of clusters");
            let runs = self.runs(g, clusters, 1, 6, false)?;
            self.store(&runs, 0, &list);
            if let Some(at) = runs[0].at {
                self.hot
                    .push((at * self.cluster, list.len().min(64) as u64));
            }
            let size = list.len() as u64;
            Attr {
                kind: LIST,
                name: Vec::new(),
                flags: 0,
                body: Body::Runs {
                    runs,
                    allocated: clusters * self.cluster,
                    size,
                    valid: size,
                    unit: 0,
                    total: 0,
                },
            }
        };
        let runs = match &attr.body {
            Body::Runs { runs, .. } => runs.clone(),
            _ => Vec::new(),
        };
        let data = piece(g, &attr, 77, 0, &runs, self.twist);
        if data.len() + base_pieces.iter().map(|p| p.2.len()).sum::<usize>() > room {
            return None;
        }
        base_pieces.push((LIST, Vec::new(), data));
        file.attributes += 1;
        file.list = Some(spots.iter().map(|s| (s.0, s.3)).collect());
        let base = file.base;
        self.record(g, &file, file.number, base, &mut base_pieces);
        for (number, mut pieces, _) in extensions {
            let mut extension = File {
                number,
                sequence: 1,
                journal: file.journal,
                base: file.reference(),
                free: file.free,
                ..File::default()
            };
            let base = extension.base;
            self.record(g, &extension, number, base, &mut pieces);
            extension.size = u64::MAX;
            self.files.insert(number, extension);
        }
        self.files.insert(file.number, file);
        Some(())
    }

    fn time(&self, g: &mut Gen) -> u64 {
        match g.below_or(6) {
            0 => 0,
            1 => g.u64(),
            _ => 116444736000000000 + g.below_or(20000000000000000),
        }
    }

    fn fresh(&self, g: &mut Gen, number: u64) -> File {
        File {
            number,
            sequence: if number < 16 {
                number.max(1) as u16
            } else {
                *g.pick(&[1u16, 1, 2, 300, 0xffff])
            },
            journal: g.edgy(40),
            ..File::default()
        }
    }

    /// $STANDARD_INFORMATION and $FILE_NAME attributes.
    fn common(&mut self, g: &mut Gen, file: &mut File) -> Vec<Attr> {
        for t in 0..4 {
            file.times[t] = self.time(g);
        }
        file.informed = true;
        file.flags |= g.edgy(32) as u32 & 0x27;
        let mut info = vec![0u8; if self.version.0 < 3 { 48 } else { 72 }];
        for t in 0..4 {
            info.set_le(8 * t, file.times[t], 8);
        }
        info.set_le(32, file.flags as u64, 4);
        if file.exact {
            file.versions = (0, 1);
        } else if g.chance(1, 8) {
            file.versions = (3, 1);
        }
        info.set_le(36, file.versions.0 as u64, 4);
        info.set_le(40, file.versions.1 as u64, 4);
        if info.len() > 48 {
            file.owner = Some(g.edgy(32) as u32);
            info.set_le(48, file.owner.unwrap() as u64, 4);
            info.set_le(52, g.u16() as u64, 4);
            info.set_le(64, g.u32() as u64, 8);
        }
        let mut out = vec![Attr::resident(INFO, &[], info)];
        for key in file.keys.clone() {
            let data = self.key(g, file, &key);
            out.push(Attr::resident(NAME, &[], data));
        }
        out
    }

    fn key(&self, g: &mut Gen, file: &File, key: &Key) -> Vec<u8> {
        let mut data = vec![0u8; 66];
        data.set_le(0, key.parent, 8);
        for t in 0..4 {
            data.set_le(8 + 8 * t, file.times[t], 8);
        }
        data.set_le(40, g.u32() as u64, 8);
        data.set_le(48, g.u32() as u64, 8);
        data.set_le(56, file.flags as u64, 4);
        if let Some(tag) = file.tag {
            data.set_le(60, tag as u64, 4);
        }
        data[64] = key.name.len() as u8;
        data[65] = key.space;
        data.extend(bytes_of(&key.name));
        if self.twist == 5 && g.chance(1, 4) {
            data[64] = data[64].wrapping_add(g.range(1, 255) as u8);
        }
        data
    }

    /// Marks the runs that hold data.
    fn note_runs(&mut self, runs: &[Run]) {
        if let Some(at) = runs.iter().find_map(|r| r.at) {
            self.hot.push((at * self.cluster, 64));
        }
    }

    /// A data stream.
    fn stream(&mut self, g: &mut Gen, name: &[u16], kind: u64) -> Option<(Attr, Sparse)> {
        let resident = |g: &mut Gen, most: usize| {
            let size = g.length(most, 16);
            let data = content(g, size);
            let mut attr = Attr::resident(DATA, name, data.clone());
            if g.chance(1, 8) {
                attr.flags = *g.pick(&[0x8000u16, 1, 0x4000]);
            }
            Some((attr, Sparse::of(data)))
        };
        match kind {
            0 => resident(g, self.room() / 4),
            1 => {
                // Nothing, yet not resident.
                let size = if g.chance(1, 4) { g.below_or(3) } else { 0 };
                let body = Body::Runs {
                    runs: Vec::new(),
                    allocated: 0,
                    size,
                    valid: 0,
                    unit: 0,
                    total: 0,
                };
                Some((
                    Attr {
                        kind: DATA,
                        name: name.to_vec(),
                        flags: 0,
                        body,
                    },
                    Sparse::new(size),
                ))
            }
            2 | 3 => {
                let sparse = kind == 3;
                let big = g.chance(1, 8);
                let many = g.chance(1, 10);
                let clusters = if big {
                    g.range(100, (self.clusters / 16).clamp(101, 1 << 22))
                } else if many {
                    g.range(30, 400)
                } else {
                    g.range(1, 24)
                };
                let most = if many {
                    300
                } else {
                    *g.pick(&[1usize, 1, 2, 3, 6, 12])
                };
                let mut runs = self.runs(g, clusters, 1, most, sparse)?;
                let mut clusters = clusters;
                if sparse && self.clusters * self.cluster > 1 << 40 && g.chance(1, 4) {
                    if let Some(gap) = runs.iter_mut().find(|r| r.at.is_none()) {
                        let more = match g.below_or(2) {
                            0 => (1u64 << 32) / self.cluster + g.below_or(40),
                            1 => (1 << 32) + g.below_or(40),
                            _ => 1 + g.below_or(1 << 36),
                        };
                        gap.size += more;
                        clusters += more;
                        g.class_if(more >> 32 > 0, "a gap of more than 2^32 clusters");
                        g.class("a gap of more than 4 GiB");
                    }
                }
                g.class_if(
                    runs.iter().any(|r| r.at.is_some_and(|a| a >> 32 > 0)),
                    "cluster numbers of more than 32 bits",
                );
                let allocated = clusters * self.cluster;
                let size = match g.below_or(5) {
                    0 => g.below_or(allocated),
                    1 => allocated,
                    _ => allocated - g.below_or(self.cluster - 1),
                };
                let valid = match g.below_or(5) {
                    0 => g.below_or(size),
                    1 if g.chance(1, 4) => 0,
                    _ => size,
                };
                g.class_if(valid < size, "valid data size less than the data size");
                let mut model = Sparse::new(size);
                let mut places: Vec<(u64, u64)> = Vec::new();
                if allocated <= 200_000 {
                    places.push((0, allocated));
                } else {
                    let mut at = 0;
                    for run in runs.iter().take(20) {
                        let end = at + run.size * self.cluster;
                        places.push((at, 200.min(end - at)));
                        places.push((end.saturating_sub(300).max(at), 300.min(end - at)));
                        at = end;
                    }
                    for p in [valid, size] {
                        let from = p.saturating_sub(50).min(allocated - 100);
                        places.push((from, 100));
                    }
                }
                for (at, n) in places {
                    let data = content(g, n as usize);
                    self.store(&runs, at, &data);
                    model.put(at, &data);
                }
                let mut start = 0;
                for run in &runs {
                    let end = start + run.size * self.cluster;
                    if run.at.is_none() {
                        model.blank(start, end);
                    }
                    start = end;
                }
                model.size = allocated;
                let mut model = model.slice(0, valid);
                model.size = size;
                let unit = if sparse && g.bool() { 4 } else { 0 };
                let flags = if sparse {
                    0x8000
                } else {
                    *g.pick(&[0u16, 0, 0, 0x4000])
                };
                let inside = runs
                    .iter()
                    .filter(|r| r.at.is_some())
                    .map(|r| r.size)
                    .sum::<u64>()
                    * self.cluster;
                let body = Body::Runs {
                    runs,
                    allocated,
                    size,
                    valid,
                    unit,
                    total: inside,
                };
                Some((
                    Attr {
                        kind: DATA,
                        name: name.to_vec(),
                        flags,
                        body,
                    },
                    model,
                ))
            }
            _ => {
                if self.cluster > 4096 {
                    return resident(g, self.room() / 4);
                }
                g.class("compressed");
                let exponent = *g.pick(&[4u16, 4, 4, 4, 3, 5, 1]);
                let each = 1u64 << exponent;
                let unit = (each * self.cluster) as usize;
                let units = g.usize(1, (260_000 / unit).clamp(1, 7));
                // A unit, or a gap of units, that is stored nowhere.
                let (gap, wide) = if self.clusters * self.cluster > 1 << 40 && g.chance(1, 4) {
                    let wide = (1u64 << 32) / unit as u64 + g.below_or(2) * g.below_or(3);
                    (g.usize(0, units - 1), wide)
                } else {
                    (units, 1)
                };
                g.class_if(wide > 1, "compressed, more than 4 GiB");
                let allocated = (units as u64 - 1 + wide) * unit as u64;
                let size = match g.below_or(3) {
                    0 => allocated,
                    1 => allocated - g.below_or(self.cluster.min(unit as u64 - 1)),
                    _ => allocated - g.below_or(unit as u64 - 1),
                };
                let valid = if g.chance(1, 4) {
                    g.below_or(size)
                } else {
                    size
                };
                g.class_if(
                    valid < size,
                    "compressed, valid data size less than the data size",
                );
                let mut runs: Vec<Run> = Vec::new();
                let mut model = Sparse::new(size);
                let mut inside = 0;
                let mut push = |runs: &mut Vec<Run>, g: &mut Gen, run: Run| match runs.last_mut() {
                    Some(last)
                        if last.at.is_none() == run.at.is_none()
                            && (run.at.is_none() || last.at.map(|a| a + last.size) == run.at)
                            && g.chance(4, 5) =>
                    {
                        last.size += run.size
                    }
                    _ => runs.push(run),
                };
                for u in 0..units {
                    let start = (u as u64 + if u > gap { wide - 1 } else { 0 }) * unit as u64;
                    let n = (size - start).min(unit as u64) as usize;
                    let mut kind = if u == gap { 2 } else { g.weighted(&[3, 1, 1]) };
                    let mut data = Vec::new();
                    let mut packed = Vec::new();
                    if kind == 0 {
                        data = compressible(g, n);
                        packed = lznt1(g, &data);
                        if packed.len() as u64 > (each - 1) * self.cluster {
                            kind = 1;
                        }
                    }
                    match kind {
                        0 => {
                            let clusters = (packed.len() as u64).div_ceil(self.cluster);
                            let count = *g.pick(&[1usize, 1, 1, 2, 3]);
                            let parts = self.runs(g, clusters, 1, count, false)?;
                            if packed.len() as u64 % self.cluster != 0
                                && packed.len() as u64 % self.cluster < self.cluster - 2
                                && g.bool()
                            {
                                // What follows the end of the compressed data is not used.
                                packed.extend([0, 0]);
                                let rest = (clusters * self.cluster) as usize - packed.len();
                                packed.extend(g.bytes(rest.min(16)));
                            }
                            self.store(&parts, 0, &packed);
                            for run in parts {
                                push(&mut runs, g, run);
                            }
                            inside += clusters;
                            push(
                                &mut runs,
                                g,
                                Run {
                                    size: each - clusters,
                                    at: None,
                                },
                            );
                        }
                        1 => {
                            if data.is_empty() {
                                data = content(g, n);
                            }
                            let count = *g.pick(&[1usize, 1, 2, 3]);
                            let parts = self.runs(g, each, 1, count, false)?;
                            self.store(&parts, 0, &data);
                            for run in parts {
                                push(&mut runs, g, run);
                            }
                            inside += each;
                        }
                        _ => {
                            data.clear();
                            push(
                                &mut runs,
                                g,
                                Run {
                                    size: each * if u == gap { wide } else { 1 },
                                    at: None,
                                },
                            );
                        }
                    }
                    model.put(start, &data);
                }
                self.note_runs(&runs);
                model.size = size;
                let mut model = model.slice(0, valid);
                model.size = size;
                let body = Body::Runs {
                    runs,
                    allocated,
                    size,
                    valid,
                    unit: exponent,
                    total: inside * self.cluster,
                };
                Some((
                    Attr {
                        kind: DATA,
                        name: name.to_vec(),
                        flags: 1,
                        body,
                    },
                    model,
                ))
            }
        }
    }

    /// A file that the Windows Overlay Filter compressed.
    fn overlay(&mut self, g: &mut Gen, file: &mut File, attrs: &mut Vec<Attr>) -> Option<()> {
        g.class("compressed by the overlay filter");
        let huge = self.clusters * self.cluster > 1 << 40 && g.chance(1, 16);
        let chunks = if huge {
            131072 + g.usize(1, 3)
        } else {
            g.usize(1, 4)
        };
        let mut model = Sparse::new(0);
        let mut packed = Sparse::new(0);
        let mut table = Vec::new();
        // Of a large file few chunks hold data.
        let picked: BTreeSet<usize> = if huge {
            (0..*g.pick(&[4, 80]))
                .map(|_| g.usize(0, chunks - 2))
                .chain([chunks - 2, chunks - 1])
                .collect()
        } else {
            (0..chunks).collect()
        };
        for c in 0..chunks {
            if c > 0 {
                let o = if self.twist == 4 && g.chance(1, 1 + chunks as u64 / 4) {
                    g.edgy(32)
                } else {
                    packed.size
                };
                let n = if huge { 8 } else { 4 };
                table.extend(&o.to_le_bytes()[..n]);
            }
            let (at, spot) = (model.size, packed.size);
            if !picked.contains(&c) {
                model.size += 32768;
                packed.size += 32768;
            } else if c + 1 == chunks && (huge || g.chance(3, 4)) {
                let n = g.length(32767, 256).max(1);
                let part = content(g, n);
                model.put(at, &part);
                packed.put(spot, &part);
            } else if g.chance(2, 3) || picked.len() > 20 {
                let (plain, chunk) = lzx(g);
                model.put(at, &plain);
                model.size = if c + 1 == chunks {
                    model.size
                } else {
                    at + 32768
                };
                packed.put(spot, &chunk);
            } else {
                let part = content(g, 32768);
                model.put(at, &part);
                packed.put(spot, &part);
            }
        }
        g.class_if(
            model.size > 1 << 32,
            "compressed by the overlay filter, more than 4 GiB",
        );
        g.class_if(
            model.size > 1 << 32 && packed.size + (table.len() as u64) < 1 << 32,
            "compressed by the overlay filter, to less than 4 GiB",
        );
        let mut whole = Sparse::new(table.len() as u64 + packed.size);
        whole.put(0, &table);
        for (at, data) in &packed.extents {
            whole.extents.push((table.len() as u64 + at, data.clone()));
        }
        let size = model.size;
        let clusters = size.div_ceil(self.cluster);
        let gone = g.chance(1, 4);
        let runs = if gone {
            Vec::new()
        } else {
            vec![Run {
                size: clusters,
                at: None,
            }]
        };
        let allocated = if gone { 0 } else { clusters * self.cluster };
        let valid = *g.pick(&[size, size, 0, size / 2]);
        attrs.push(Attr {
            kind: DATA,
            name: Vec::new(),
            flags: 0x8000,
            body: Body::Runs {
                runs,
                allocated,
                size,
                valid,
                unit: *g.pick(&[0u16, 4]),
                total: 0,
            },
        });
        let clusters = whole.size.div_ceil(self.cluster);
        let runs = self.runs(g, clusters, 1, 3, false)?;
        for (at, data) in &whole.extents {
            self.store(&runs, *at, data);
        }
        self.note_runs(&runs);
        let name = wide("WofCompressedData");
        let n = whole.size;
        attrs.push(Attr {
            kind: DATA,
            name: name.clone(),
            flags: 0,
            body: Body::Runs {
                runs,
                allocated: clusters * self.cluster,
                size: n,
                valid: n,
                unit: 0,
                total: 0,
            },
        });
        file.streams.insert(Vec::new(), model);
        file.streams.insert(name, whole);
        file.size = size;
        let mut reparse = vec![0u8; 24];
        reparse.set_le(0, 0x80000017, 4);
        reparse.set_le(4, 16, 2);
        reparse.set_le(8, 1, 4);
        reparse.set_le(12, 2, 4);
        reparse.set_le(16, 1, 4);
        reparse.set_le(20, 1, 4);
        attrs.push(Attr::resident(REPARSE, &[], reparse));
        Some(())
    }

    fn link(&mut self, g: &mut Gen, file: &mut File, attrs: &mut Vec<Attr>, tag: u32) {
        let mut buffer = Vec::new();
        let header = if tag == 0xa000000c { 12 } else { 8 };
        let size = g.length(60, 8);
        let substitute = letters(g, size);
        let size = g.length(60, 8);
        let display = letters(g, size);
        let mut names = vec![0u8; header];
        let swap = g.bool();
        for k in 0..2 {
            let k = if swap { 1 - k } else { k };
            let name = if k == 0 { &substitute } else { &display };
            let at = names.len() - header;
            names.set_le(4 * k, at as u64, 2);
            let wrong = if self.twist == 3 { g.below_or(3) } else { 0 };
            names.set_le(4 * k + 2, (2 * name.len() as u64).wrapping_sub(wrong), 2);
            names.extend(bytes_of(name));
            if g.bool() {
                names.extend([0, 0]);
            }
        }
        if header == 12 {
            names.set_le(8, g.below_or(1), 4);
            file.target = Some(substitute);
        }
        buffer.extend(tag.to_le_bytes());
        buffer.extend((names.len() as u16).to_le_bytes());
        buffer.extend([0, 0]);
        buffer.extend(names);
        attrs.push(Attr::resident(REPARSE, &[], buffer));
    }

    /// An index of names.
    fn index(&mut self, g: &mut Gen, file: &File, attrs: &mut Vec<Attr>) -> Option<()> {
        let i30 = wide("$I30");
        let mut values: Vec<(Vec<u16>, Vec<u16>, u64, Vec<u8>)> = Vec::new();
        for key in &file.entries {
            let child = self
                .files
                .get(&(key.reference & 0xffffffffffff))
                .cloned()
                .unwrap_or_default();
            let data = self.key(g, &child, key);
            values.push((
                self.folded(&key.name),
                key.name.clone(),
                key.reference,
                data,
            ));
        }
        values.sort();
        let value = |reference: u64, data: &[u8], sub: Option<u64>, last: bool| {
            let mut v = vec![0u8; 16];
            if !last {
                v.set_le(0, reference, 8);
                v.set_le(10, data.len() as u64, 2);
                v.extend(data);
            }
            let n = align(v.len());
            v.resize(n, 0);
            if let Some(sub) = sub {
                v.extend(sub.to_le_bytes());
            }
            let n = v.len();
            v.set_le(8, n as u64, 2);
            v.set_le(12, sub.is_some() as u64 | (last as u64) << 1, 4);
            v
        };
        let fixups = self.index.div_ceil(512) + 1;
        let start = align(40 + 2 * fixups);
        let capacity = self.index - start;
        let root_room = (self.room() / 2).saturating_sub(80).max(60);
        // Levels of nodes, the leaves first: values and the sub node on their left.
        let mut level: Vec<(u64, Vec<u8>, Option<u64>)> =
            values.iter().map(|v| (v.2, v.3.clone(), None)).collect();
        let mut right: Option<u64> = None;
        let mut blocks: Vec<Vec<u8>> = Vec::new();
        let per = if self.index < self.cluster as usize {
            self.index as u64 / 512
        } else {
            self.index as u64 / self.cluster
        };
        // Places of nodes, with some that are not used.
        let spread = g.chance(1, 3);
        let mut order: Vec<u64> = Vec::new();
        let mut levels = 0;
        loop {
            let size: usize = level
                .iter()
                .map(|v| align(16 + v.1.len()) + 8)
                .sum::<usize>()
                + 24;
            if size <= root_room && (blocks.is_empty() && !g.chance(1, 12) || !blocks.is_empty()) {
                break;
            }
            levels += 1;
            if levels > 6 {
                return None;
            }
            let mut next = Vec::new();
            let mut node: Vec<(u64, Vec<u8>, Option<u64>)> = Vec::new();
            let mut filled = 24;
            let mut limit = g.usize(capacity / 4, capacity);
            let mut close =
                |g: &mut Gen, node: &mut Vec<(u64, Vec<u8>, Option<u64>)>, right: Option<u64>| {
                    let mut b = vec![0u8; self.index];
                    if g.bool() {
                        let junk = g.u8();
                        b[start..].fill(junk);
                    }
                    b.at(0, b"INDX");
                    b.set_le(4, 40, 2);
                    b.set_le(6, fixups as u64, 2);
                    b.set_le(8, g.u32() as u64, 8);
                    let mut at = start;
                    for (reference, data, sub) in node.drain(..) {
                        let v = value(reference, &data, sub, false);
                        b.at(at, &v);
                        at += v.len();
                    }
                    let right = if self.twist == 2 && g.chance(1, 4) {
                        Some(g.below_or(order.len() as u64 + 2) * per)
                    } else {
                        right
                    };
                    let v = value(0, &[], right, true);
                    b.at(at, &v);
                    at += v.len();
                    b.set_le(24, start as u64 - 24, 4);
                    b.set_le(28, at as u64 - 24, 4);
                    b.set_le(32, self.index as u64 - 24, 4);
                    b.set_le(36, right.is_some() as u64, 4);
                    let mut spot = order.len() as u64;
                    if spread {
                        spot = g.below_or(order.len() as u64 * 2 + 3);
                        while order.contains(&spot) {
                            spot += 1;
                        }
                    }
                    order.push(spot);
                    b.set_le(16, spot * per, 8);
                    blocks.push(b);
                    if self.twist == 2 && g.chance(1, 3) {
                        g.pick(&order) * per
                    } else {
                        spot * per
                    }
                };
            for (reference, data, sub) in level.drain(..) {
                let size = align(16 + data.len()) + 8;
                if filled + size > limit.max(size + 24) || filled + size > capacity {
                    let vcn = close(g, &mut node, sub);
                    next.push((reference, data, Some(vcn)));
                    filled = 24;
                    limit = g.usize(capacity / 4, capacity);
                } else {
                    filled += size;
                    node.push((reference, data, sub));
                }
            }
            right = Some(close(g, &mut node, right));
            level = next;
        }
        g.class_if(levels == 1, "index of two levels");
        g.class_if(levels > 1, "index of more levels");
        let mut root = vec![0u8; 32];
        root.set_le(0, NAME as u64, 4);
        root.set_le(4, 1, 4);
        root.set_le(8, self.index as u64, 4);
        root[12] = per as u8;
        for (reference, data, sub) in &level {
            root.extend(value(*reference, data, *sub, false));
        }
        root.extend(value(0, &[], right, true));
        let n = root.len() - 16;
        root.set_le(16, 16, 4);
        root.set_le(20, n as u64, 4);
        root.set_le(24, n as u64, 4);
        root.set_le(28, right.is_some() as u64, 4);
        attrs.push(Attr::resident(ROOT, &i30, root));
        if !blocks.is_empty() {
            let all =
                order.iter().max().unwrap() + 1 + if g.chance(1, 4) { g.below_or(3) } else { 0 };
            let clusters = (all * self.index as u64).div_ceil(self.cluster);
            let unit = (self.index as u64).div_ceil(self.cluster);
            let clusters = clusters.div_ceil(unit) * unit;
            let count = *g.pick(&[1usize, 2, 5, 30]);
            let runs = self.runs(g, clusters, unit, count, false)?;
            if self.index as u64 > self.cluster || self.cluster % self.index as u64 == 0 {
                g.class_if(
                    (self.index as u64) < self.cluster,
                    "more index entries than one in a cluster",
                );
            }
            let mut bitmap = vec![0u8; align((all as usize).div_ceil(8))];
            for (spot, b) in order.iter().zip(blocks.iter_mut()) {
                bitmap[*spot as usize / 8] |= 1 << (spot % 8);
                fix(g, b, 40);
                self.store(&runs, spot * self.index as u64, b);
            }
            for spot in 0..all {
                if !order.contains(&spot) && g.bool() {
                    let junk = g.bytes(64);
                    self.store(&runs, spot * self.index as u64, &junk);
                }
            }
            for run in runs.iter().take(3) {
                self.hot.push((run.at.unwrap() * self.cluster, 48));
                self.hot
                    .push((run.at.unwrap() * self.cluster + start as u64, 200));
            }
            let size = clusters * self.cluster;
            attrs.push(Attr {
                kind: ALLOCATION,
                name: i30.clone(),
                flags: 0,
                body: Body::Runs {
                    runs,
                    allocated: size,
                    size,
                    valid: size,
                    unit: 0,
                    total: 0,
                },
            });
            attrs.push(Attr::resident(BITMAP, &i30, bitmap));
        } else if g.chance(1, 6) {
            // One that is there and not used.
            let unit = (self.index as u64).div_ceil(self.cluster);
            let runs = self.runs(g, unit, unit, 1, false)?;
            let size = unit * self.cluster;
            attrs.push(Attr {
                kind: ALLOCATION,
                name: i30.clone(),
                flags: 0,
                body: Body::Runs {
                    runs,
                    allocated: size,
                    size,
                    valid: size,
                    unit: 0,
                    total: 0,
                },
            });
            attrs.push(Attr::resident(BITMAP, &i30, vec![0; 8]));
        }
        Some(())
    }
}

/// Puts fix-up values into a record.
fn fix(g: &mut Gen, data: &mut [u8], at: usize) {
    let mark = [g.u8(), g.u8()];
    data.at(at, &mark);
    for i in 0..data.len() / 512 {
        let end = 512 * (i + 1) - 2;
        let old = [data[end], data[end + 1]];
        data.at(at + 2 + 2 * i, &old);
        data.at(end, &mark);
    }
}

/// Data that LZNT1 makes smaller.
fn compressible(g: &mut Gen, size: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(size);
    while out.len() < size {
        let n = g.length(5000, 64).max(1).min(size - out.len());
        match g.below_or(3) {
            0 => {
                let part = g.bytes(n.min(700));
                out.extend(part);
            }
            1 => {
                let b = g.u8();
                out.resize(out.len() + n, b);
            }
            _ => {
                let back = g.usize(1, out.len().clamp(1, 4095));
                for _ in 0..n {
                    let b = if out.len() >= back {
                        out[out.len() - back]
                    } else {
                        7
                    };
                    out.push(b);
                }
            }
        }
    }
    out.truncate(size);
    out
}

fn lznt1(g: &mut Gen, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for chunk in data.chunks(4096) {
        let mut packed: Vec<u8> = Vec::new();
        let mut at = 0;
        let mut last: HashMap<[u8; 3], usize> = HashMap::new();
        let mut flags_at = 0;
        let mut count = 8;
        let lazy = g.chance(1, 4);
        while at < chunk.len() {
            if count == 8 {
                flags_at = packed.len();
                packed.push(0);
                count = 0;
            }
            let mut best = None;
            if at + 3 <= chunk.len() {
                let key = [chunk[at], chunk[at + 1], chunk[at + 2]];
                if let Some(from) = last.get(&key) {
                    let mut low = 0;
                    let mut d = at - 1;
                    while d >= 0x10 {
                        low += 1;
                        d >>= 1;
                    }
                    let most = (0xfff >> low) + 3;
                    let mut n = 3;
                    while n < most && at + n < chunk.len() && chunk[from + n] == chunk[at + n] {
                        n += 1;
                    }
                    if !lazy || g.chance(3, 4) {
                        best = Some((at - from, n, low));
                    }
                }
                last.insert(key, at);
            }
            match best {
                Some((back, n, low)) => {
                    let token = ((back - 1) << (12 - low) | (n - 3)) as u16;
                    packed.extend(token.to_le_bytes());
                    packed[flags_at] |= 1 << count;
                    for i in at + 1..at + n {
                        if i + 3 <= chunk.len() {
                            last.insert([chunk[i], chunk[i + 1], chunk[i + 2]], i);
                        }
                    }
                    at += n;
                }
                None => {
                    packed.push(chunk[at]);
                    at += 1;
                }
            }
            count += 1;
        }
        if packed.len() < chunk.len() {
            out.extend((0xb000u16 | (packed.len() - 1) as u16).to_le_bytes());
            out.extend(packed);
        } else {
            out.extend((0x3000u16 | (chunk.len() - 1) as u16).to_le_bytes());
            out.extend(chunk);
        }
    }
    out
}

/// 32768 bytes as a verbatim block of LZX, of literals and of matches of one distance.
fn lzx(g: &mut Gen) -> (Vec<u8>, Vec<u8>) {
    struct Bits {
        out: Vec<u8>,
        word: u32,
        n: usize,
    }
    impl Bits {
        fn put(&mut self, value: u32, n: usize) {
            for i in (0..n).rev() {
                self.word = self.word << 1 | (value >> i & 1);
                self.n += 1;
                if self.n == 16 {
                    self.out.extend((self.word as u16).to_le_bytes());
                    self.word = 0;
                    self.n = 0;
                }
            }
        }
    }
    let mut bits = Bits {
        out: Vec::new(),
        word: 0,
        n: 0,
    };
    bits.put(1, 3);
    bits.put(1, 1);
    let slot = g.usize(3, 18);
    let mut base = 0;
    let mut extra = 0;
    for s in 0..=slot {
        base += if s > 0 { 1 << extra } else { 0 };
        extra = if s < 4 { 0 } else { s / 2 - 1 };
    }
    let (again, distance) = (256 + 7, 256 + 8 * slot + 7);
    // Code sizes: literals of 9 bits, the two matches of 2 bits; and lengths of 7 or 8 bits.
    let main: Vec<u8> = (0..496)
        .map(|s| {
            if s < 256 {
                9
            } else if s == again || s == distance {
                2
            } else {
                0
            }
        })
        .collect();
    let lengths: Vec<u8> = (0..249).map(|s| if s < 7 { 7 } else { 8 }).collect();
    let codes = |sizes: &[u8]| {
        let mut out = vec![0u32; sizes.len()];
        let mut code = 0u32;
        for size in 1..17u8 {
            for (s, n) in sizes.iter().enumerate() {
                if *n == size {
                    out[s] = code;
                    code += 1;
                }
            }
            code <<= 1;
        }
        out
    };
    let mut pre = vec![0u8; 20];
    for (s, n) in [(0, 2u8), (8, 2), (9, 2), (10, 3), (15, 3)] {
        pre[s] = n;
    }
    let pre_codes = codes(&pre);
    for part in [&main[..256], &main[256..], &lengths[..]] {
        for n in &pre {
            bits.put(*n as u32, 4);
        }
        for size in part {
            let symbol = (17 - *size as usize) % 17;
            bits.put(pre_codes[symbol], pre[symbol] as usize);
        }
    }
    let main_codes = codes(&main);
    let length_codes = codes(&lengths);
    let mut out: Vec<u8> = Vec::new();
    let mut recent = 1;
    while out.len() < 32768 {
        let literals = if out.is_empty() {
            g.usize(base.max(4), base + (1 << extra))
        } else {
            g.usize(0, 20)
        };
        for _ in 0..literals.min(32768 - out.len()) {
            let b = g.u8();
            bits.put(main_codes[b as usize], 9);
            out.push(b);
        }
        let n = (9 + g.usize(100, 248)).min(32768 - out.len());
        if n < 9 {
            while out.len() < 32768 {
                bits.put(main_codes[3], 9);
                out.push(3);
            }
            break;
        }
        let low = g.usize(0, (1 << extra) - 1);
        let far = base + low - 2;
        if out.len() >= far && g.chance(1, 3) {
            bits.put(main_codes[distance], 2);
            bits.put(length_codes[n - 9], lengths[n - 9] as usize);
            bits.put(low as u32, extra);
            recent = far;
        } else {
            bits.put(main_codes[again], 2);
            bits.put(length_codes[n - 9], lengths[n - 9] as usize);
        }
        for _ in 0..n {
            out.push(out[out.len() - recent]);
        }
    }
    if bits.n > 0 {
        bits.put(0, 16 - bits.n);
    }
    // Calls are stored with absolute targets.
    let mut plain = out.clone();
    let mut i = 0;
    while i < out.len() - 10 {
        if out[i] != 0xe8 {
            i += 1;
            continue;
        }
        let absolute = i32::from_le_bytes(out[i + 1..i + 5].try_into().unwrap()) as i64;
        if absolute >= -(i as i64) && absolute < 12_000_000 {
            let relative = if absolute >= 0 {
                absolute - i as i64
            } else {
                absolute + 12_000_000
            };
            plain.at(i + 1, &(relative as i32).to_le_bytes());
        }
        i += 5;
    }
    (plain, bits.out)
}

fn letters(g: &mut Gen, size: usize) -> Vec<u16> {
    match g.below_or(4) {
        0 => {
            let all = wide("äÄжЖ€ßéÉ漢字σΣςİıÿŸ😀");
            let from = g.usize(0, all.len() - 1);
            all.into_iter().cycle().skip(from).take(size).collect()
        }
        1 => (0..size)
            .map(|_| match g.edgy(16) as u16 {
                0 => 1,
                c => c,
            })
            .collect(),
        _ => (0..size)
            .map(|_| *g.pick(b"abcdefghijklmnopqrstuvwxyzABCDXYZ0123456789._- ~$[]^`{}@") as u16)
            .collect(),
    }
}

fn file_name(g: &mut Gen, many: bool) -> Vec<u16> {
    let size = match g.below_or(9) {
        0 if !many => g.usize(200, 255),
        1 => g.usize(20, 60),
        2 => g.usize(1, 3),
        _ => g.usize(1, 14),
    };
    letters(g, size)
}

fn short_name(g: &mut Gen) -> Vec<u16> {
    let mut out: Vec<u16> = (0..g.usize(1, 6))
        .map(|_| *g.pick(b"ABCDEFGHXYZ0189_$") as u16)
        .collect();
    out.push(b'~' as u16);
    out.push(b'1' as u16 + g.below_or(8) as u16);
    if g.bool() {
        out.extend(wide(".TXT"));
    }
    out
}

/// What a name in the tree stands for.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Directory,
    File,
}

/// A volume; a twist is a way in which it is not right.
fn volume(g: &mut Gen, twist: u8) -> Option<Fs> {
    let cluster: u64 = *g.pick(&[
        4096u64, 4096, 4096, 4096, 512, 512, 1024, 2048, 2048, 8192, 256, 65536, 2097152,
    ]);
    let entry: usize = match g.below_or(6) {
        0 => 2048,
        1 => 4096,
        2 => 768,
        3 if cluster <= 4096 && cluster >= 256 => {
            (cluster as usize * g.usize(1, 4)).clamp(512, 8192)
        }
        _ => 1024,
    };
    // As a power of two, or as clusters.
    let whole = |n: usize| n as u64 % cluster == 0 && n as u64 / cluster <= 127;
    let entry = if entry.is_power_of_two() || whole(entry) {
        entry
    } else {
        1024
    };
    let index: usize = match g.below_or(6) {
        0 => 2048,
        1 => 8192,
        2 => 1024,
        3 if cluster <= 4096 => (cluster as usize * g.usize(1, 5)).clamp(1024, 32768),
        _ => 4096,
    };
    let index = if whole(index) || (index as u64) < cluster && index.is_power_of_two() {
        index
    } else {
        4096.max(cluster.min(32768) as usize)
    };
    let mut sector = *g.pick(&[512u64, 512, 512, 512, 256, 1024, 2048, 4096]);
    if sector > cluster || cluster / sector > 4096 {
        sector = if cluster < 512 { 256 } else { 512 };
    }
    if (index as u64) < cluster {
        sector = 512;
    }
    let version = *g.pick(&[(1u8, 2u8), (3, 0), (3, 1), (3, 1), (3, 1)]);
    let old_header = version != (3, 1);
    let clusters = match g.below_or(5) {
        0 => (1u64 << 33).min((1 << 62) / cluster) + g.below_or(1000),
        1 => (1u64 << 44).min((1 << 62) / cluster),
        2 => g.range(3000, 5000),
        _ => g.range(20_000, 100_000),
    } + 140_000u64.div_ceil(cluster);
    let mut fs = Fs {
        image: Sparse::new(clusters * cluster + if g.bool() { sector } else { 0 }),
        sector,
        cluster,
        clusters,
        entry,
        index,
        stated_index: index,
        old_header,
        version,
        serial: g.u64(),
        used: BTreeMap::new(),
        last: 1,
        fold: HashMap::new(),
        numbers: BTreeSet::new(),
        records: BTreeMap::new(),
        files: BTreeMap::new(),
        fillers: BTreeMap::new(),
        hot: Vec::new(),
        places: Vec::new(),
        mft: Vec::new(),
        nodes: Vec::new(),
        budget: 0,
        twist,
    };
    if version == (1, 2) && g.chance(1, 2) {
        fs.stated_index = 2048;
    }
    // The boot record takes 8 KiB.
    let boot = 8192u64.div_ceil(cluster);
    fs.used.insert(0, boot);
    fs.last = boot;
    fs.numbers.extend([0, 3, 5, 10]);
    // The case folding mappings.
    let mut table = upper().clone();
    for _ in 0..g.below_or(3) {
        let (a, b) = (
            *g.pick(&[b'@' as u16, b'[' as u16, b'0' as u16, 0xdf, 0x130, 0x1c5]),
            *g.pick(&[b'A' as u16, b'Z' as u16, 0x178, b'~' as u16]),
        );
        if table[b as usize] == b {
            table[a as usize] = b;
            g.class("a case folding of the volume alone");
        }
    }
    for (c, up) in table.iter().enumerate() {
        if c as u16 != *up {
            fs.fold.insert(c as u16, *up);
        }
    }
    let mut file = fs.fresh(g, 10);
    file.keys.push(Key {
        name: wide("$UpCase"),
        space: BOTH,
        reference: file.reference(),
        parent: 5 | 5 << 48,
    });
    let mut attrs = fs.common(g, &mut file);
    let clusters_of_table = 131072u64.div_ceil(cluster);
    let count = *g.pick(&[1usize, 1, 2, 5]);
    let runs = fs.runs(g, clusters_of_table, 1, count, false)?;
    let bytes = bytes_of(&table);
    fs.store(&runs, 0, &bytes);
    let allocated = clusters_of_table * cluster;
    attrs.push(Attr {
        kind: DATA,
        name: Vec::new(),
        flags: 0,
        body: Body::Runs {
            runs,
            allocated,
            size: 131072,
            valid: 131072,
            unit: 0,
            total: 0,
        },
    });
    file.streams.insert(Vec::new(), Sparse::of(bytes));
    file.size = 131072;
    fs.finish(g, file, attrs)?;
    // The volume information.
    let mut file = fs.fresh(g, 3);
    file.keys.push(Key {
        name: wide("$Volume"),
        space: BOTH,
        reference: file.reference(),
        parent: 5 | 5 << 48,
    });
    let mut attrs = fs.common(g, &mut file);
    if g.chance(4, 5) {
        let size = g.length(32, 4);
        let label = letters(g, size);
        let mut bytes = bytes_of(&label);
        if twist == 3 {
            bytes.extend(g.bytes(1));
        }
        attrs.push(Attr::resident(LABEL, &[], bytes));
        file.label = Some(label);
    }
    if g.chance(9, 10) {
        let mut info = vec![0u8; 12];
        let flags = g.edgy(16) as u16;
        info[8] = version.0;
        info[9] = version.1;
        info.set_le(10, flags as u64, 2);
        attrs.push(Attr::resident(VERSION, &[], info));
        file.version = Some((version.0, version.1, flags));
    }
    if g.bool() {
        attrs.push(Attr::resident(DATA, &[], Vec::new()));
        file.streams.insert(Vec::new(), Sparse::new(0));
    }
    fs.finish(g, file, attrs)?;
    // The tree of names: first all of it, as index values tell of what they are for.
    let mut kinds: BTreeMap<u64, Kind> = BTreeMap::new();
    let mut plan: BTreeMap<u64, File> = BTreeMap::new();
    let mut root = fs.fresh(g, 5);
    root.directory = true;
    root.exact = g.chance(1, 12);
    let reference = root.reference();
    let dot = g.chance(4, 5);
    root.keys.push(Key {
        name: wide("."),
        space: BOTH,
        reference,
        parent: reference,
    });
    plan.insert(5, root);
    kinds.insert(5, Kind::Directory);
    let mut directories = vec![5u64];
    let many = g.chance(1, 5);
    let nodes = if many {
        g.usize(30, 220)
    } else {
        g.usize(0, 14)
    };
    let mut taken: BTreeSet<(u64, Vec<u16>)> = BTreeSet::new();
    for number in [3u64, 10] {
        let f = fs.files[&number].clone();
        if g.bool() {
            let key = f.keys[0].clone();
            taken.insert((5, fs.folded(&key.name)));
            taken.insert((5, key.name.clone()));
            plan.get_mut(&5).unwrap().entries.push(key);
        }
    }
    let mut files = Vec::new();
    for _ in 0..nodes {
        let number = if g.chance(1, 8) {
            *g.pick(&[1u64, 2, 4, 6, 7, 8, 9, 11])
        } else {
            0
        };
        let number = if number > 0 && fs.numbers.insert(number) {
            number
        } else {
            fs.new_number(g)
        };
        let mut file = fs.fresh(g, number);
        let directory = g.chance(1, 4);
        if directory {
            file.directory = true;
            file.exact = g.chance(1, 5);
            g.class_if(file.exact, "case sensitive directory");
        }
        let names = if !directory && g.chance(1, 8) {
            g.usize(2, 4)
        } else {
            1
        };
        g.class_if(names > 1, "hard links");
        let mut short = false;
        for _ in 0..names {
            let parent = if many && g.chance(3, 4) {
                5
            } else {
                *g.pick(&directories)
            };
            let exact = plan[&parent].exact;
            let parent_reference = plan[&parent].reference();
            let base = if exact && g.chance(1, 3) && !plan[&parent].entries.is_empty() {
                // A name that differs in case only.
                let entries = &plan[&parent].entries;
                let n = g.usize(0, entries.len() - 1);
                entries[n].name.iter().map(|c| recase(g, &fs, *c)).collect()
            } else {
                file_name(g, many)
            };
            let space = if exact {
                POSIX
            } else {
                *g.pick(&[WINDOWS, WINDOWS, BOTH, POSIX])
            };
            let mut free = |name: &Vec<u16>| {
                let name = if exact { name.clone() } else { fs.folded(name) };
                *name != wide(".") && taken.insert((parent, name))
            };
            if !free(&base) {
                continue;
            }
            let key = Key {
                name: base,
                space,
                reference: file.reference(),
                parent: parent_reference,
            };
            file.keys.push(key.clone());
            plan.get_mut(&parent).unwrap().entries.push(key);
            if space == WINDOWS && !short && g.chance(1, 2) {
                let name = short_name(g);
                if free(&name) {
                    let key = Key {
                        name,
                        space: DOS,
                        reference: file.reference(),
                        parent: parent_reference,
                    };
                    file.keys.push(key.clone());
                    plan.get_mut(&parent).unwrap().entries.push(key);
                    g.class("short name");
                    short = true;
                }
            }
        }
        kinds.insert(
            number,
            if directory {
                Kind::Directory
            } else {
                Kind::File
            },
        );
        if directory {
            if !file.keys.is_empty() {
                directories.push(number);
            }
        } else {
            files.push(number);
        }
        plan.insert(number, file);
    }
    // Files first, then directories, for their index values.
    let mut numbers: Vec<u64> = files;
    numbers.extend(
        kinds
            .iter()
            .filter(|k| *k.1 == Kind::Directory)
            .map(|k| *k.0),
    );
    for number in numbers {
        let mut file = plan[&number].clone();
        if number != 5 && file.keys.is_empty() {
            file.free = g.bool();
            g.class_if(file.free, "file entry that is not used");
        }
        let mut kind = g.weighted(&[6, 1, 1, 1, 1]);
        if file.directory && kind == 1 {
            kind = 2;
        }
        file.tag = match kind {
            1 => Some(0x80000017),
            2 => Some(0xa0000003),
            3 => Some(0xa000000c),
            4 => Some(*g.pick(&[0x80000013u32, 0xa000001d, 0x9000001a, 0])),
            _ => None,
        };
        if many && file.tag.is_some() && g.chance(3, 4) || number == 5 {
            file.tag = None;
        }
        if file.tag.is_some() {
            file.flags |= 0x400;
        }
        let mut attrs = fs.common(g, &mut file);
        match file.tag {
            Some(0x80000017) => fs.overlay(g, &mut file, &mut attrs)?,
            Some(tag @ (0xa0000003 | 0xa000000c)) => fs.link(g, &mut file, &mut attrs, tag),
            Some(tag) => {
                let n = g.usize(0, 40);
                let mut data = vec![0u8; 8];
                data.set_le(0, tag as u64, 4);
                data.set_le(4, n as u64, 2);
                data.extend(g.bytes(n));
                attrs.push(Attr::resident(REPARSE, &[], data));
            }
            None => {}
        }
        if !file.directory && file.tag != Some(0x80000017) && g.chance(9, 10) {
            let kind = if many {
                g.weighted(&[8, 1, 1]) as u64
            } else {
                g.weighted(&[2, 1, 4, 2, 3]) as u64
            };
            let (attr, model) = fs.stream(g, &[], kind)?;
            attrs.push(attr);
            file.size = model.size;
            file.streams.insert(Vec::new(), model);
        }
        if g.chance(1, 4) && !many {
            for _ in 0..g.usize(1, 3) {
                let name = match g.below_or(3) {
                    0 => wide("Zone.Identifier"),
                    1 if !file.directory => wide("$I30"),
                    _ => file_name(g, fs.entry < 1024),
                };
                let kind = if name.len() > 60 { 2 + g.below_or(1) } else { g.weighted(&[4, 1, 2, 1, 1]) as u64 };
                if !file.streams.contains_key(&name) {
                    g.class("named stream");
                    g.class_if(name.len() > 127, "named stream, more than 127 characters");
                    let (attr, model) = fs.stream(g, &name, kind)?;
                    attrs.push(attr);
                    file.streams.insert(name, model);
                }
            }
        }
        if file.directory {
            if number == 5 && dot {
                let key = file.keys[0].clone();
                file.entries.push(key);
            }
            let saved = file.clone();
            fs.files.insert(number, saved);
            fs.index(g, &file, &mut attrs)?;
        } else if g.chance(1, 12) {
            attrs.push(Attr::resident(ROOT, &wide("$O"), g.bytes(40)));
        }
        for (kind, name, most) in [
            (0x40u32, "", 16usize),
            (0x50, "", 80),
            (0xd0, "", 8),
            (0xe0, "", 60),
            (0x100, "$TXF_DATA", 56),
        ] {
            if g.chance(1, if many { 20 } else { 6 }) {
                let n = if kind == 0x40 { 16 } else { g.usize(1, most) };
                attrs.push(Attr::resident(kind, &wide(name), g.bytes(n)));
            }
        }
        fs.finish(g, file, attrs)?;
        fs.nodes.push(number);
    }
    // The table.
    let per = (entry as u64).div_ceil(cluster).max(1);
    let most = fs.numbers.iter().max().unwrap().max(&23) + 1;
    let bytes = (most + g.below_or(8)) * entry as u64;
    let table_clusters = bytes.div_ceil(per * cluster) * per;
    let first_part = (24 * entry as u64).div_ceil(per * cluster) * per;
    let mut runs = vec![Run {
        size: first_part.min(table_clusters),
        at: None,
    }];
    runs[0].at = fs.run(g, runs[0].size);
    runs[0].at?;
    if table_clusters > first_part {
        let more = *g.pick(&[1usize, 1, 3, 8, 25]);
        runs.extend(fs.runs(g, table_clusters - first_part, per, more, false)?);
    }
    let size = table_clusters * cluster;
    let all = size / entry as u64;
    let mut file = fs.fresh(g, 0);
    file.keys.push(Key {
        name: wide("$MFT"),
        space: BOTH,
        reference: file.reference(),
        parent: reference,
    });
    let mut attrs = fs.common(g, &mut file);
    attrs.push(Attr {
        kind: DATA,
        name: Vec::new(),
        flags: 0,
        body: Body::Runs {
            runs: runs.clone(),
            allocated: size,
            size,
            valid: size,
            unit: 0,
            total: 0,
        },
    });
    let bits = align((all as usize).div_ceil(8));
    if bits <= 64 {
        attrs.push(Attr::resident(BITMAP, &[], vec![0xff; bits]));
    }
    file.size = size;
    fs.finish(g, file, attrs)?;
    fs.mft = runs;
    let runs = fs.mft.clone();
    for n in 0..all {
        let mut data = match fs.records.get(&n) {
            Some(data) => {
                let mut data = data.clone();
                fix(g, &mut data, if old_header { 42 } else { 48 });
                data
            }
            None => match g.below_or(3) {
                0 => {
                    fs.fillers.insert(n, Filler::Bad);
                    let mut data = g.bytes(64);
                    data.at(0, b"BAAD");
                    data
                }
                1 => {
                    // A record that was initialized and never used.
                    let mut f = fs.fresh(g, n);
                    f.free = true;
                    fs.record(g, &f, n, 0, &mut Vec::new());
                    fs.files.insert(n, f);
                    let mut data = fs.records[&n].clone();
                    fix(g, &mut data, if old_header { 42 } else { 48 });
                    data
                }
                _ => {
                    fs.fillers.insert(n, Filler::Empty);
                    Vec::new()
                }
            },
        };
        let at = n * entry as u64;
        if fs.records.contains_key(&n) {
            let used = u32::from_le_bytes(data[24..28].try_into().unwrap()) as usize;
            let mut start = 0;
            for run in &runs {
                let end = start + run.size * cluster;
                if at >= start && at < end {
                    let place = run.at.unwrap() * cluster + at - start;
                    fs.places.push((n, place));
                    if fs.nodes.contains(&n) || n == 0 || g.chance(1, 8) {
                        fs.hot.push((place, used.min(entry) as u64));
                    }
                }
                start = end;
            }
        }
        if g.chance(1, 20) && data.len() > entry {
            data.truncate(entry);
        }
        fs.store(&runs, at, &data);
    }
    let mut model = Sparse::new(size);
    let mut start = 0;
    for run in &runs {
        let part = fs
            .image
            .slice(run.at.unwrap() * cluster, run.size * cluster);
        for (at, data) in part.extents {
            model.extents.push((start + at, data));
        }
        start += run.size * cluster;
    }
    fs.files
        .get_mut(&0)
        .unwrap()
        .streams
        .insert(Vec::new(), model);
    // The boot record.
    let mut boot = vec![0u8; 512];
    boot.at(0, &[0xeb, 0x52, 0x90]);
    boot.at(3, b"NTFS    ");
    boot.set_le(11, sector, 2);
    let per_cluster = cluster / sector;
    boot[13] = if per_cluster > 128 || per_cluster > 1 && g.chance(1, 20) && per_cluster == 128 {
        (256 - per_cluster.trailing_zeros() as u64) as u8
    } else {
        per_cluster as u8
    };
    boot[21] = 0xf8;
    boot.set_le(24, 63, 2);
    boot.set_le(40, clusters * cluster / sector, 8);
    boot.set_le(48, runs[0].at.unwrap(), 8);
    boot.set_le(56, 2, 8);
    let size_of = |g: &mut Gen, n: usize| {
        let clusters = n as u64 / cluster;
        if whole(n) && (!n.is_power_of_two() || g.bool()) {
            clusters as u8
        } else {
            (256 - n.trailing_zeros()) as u8
        }
    };
    boot[64] = size_of(g, entry);
    let stated = if fs.stated_index == index
        || !(whole(fs.stated_index) || fs.stated_index.is_power_of_two())
    {
        index
    } else {
        fs.stated_index
    };
    fs.stated_index = stated;
    boot[68] = size_of(g, stated);
    boot.set_le(72, fs.serial, 8);
    boot.at(510, &[0x55, 0xaa]);
    fs.image.poke(0, &boot);
    fs.hot.push((0, 84));
    fs.hot.push((11, 70));
    Some(fs)
}

/// Another character that folds to the same.
fn recase(g: &mut Gen, fs: &Fs, c: u16) -> u16 {
    let up = *fs.fold.get(&c).unwrap_or(&c);
    match g.below_or(2) {
        0 => c,
        1 => up,
        _ => {
            let low =
                match char::from_u32(c as u32).map(|c| c.to_lowercase().collect::<Vec<char>>()) {
                    Some(low) if low.len() == 1 && (low[0] as u32) < 0x10000 => low[0] as u16,
                    _ => c,
                };
            if *fs.fold.get(&low).unwrap_or(&low) == up {
                low
            } else {
                c
            }
        }
    }
}

fn time(stamp: u64) -> DateTime {
    if stamp == 0 {
        DateTime::NotSet
    } else {
        DateTime::Filetime(Filetime::new(stamp))
    }
}

fn check_data(
    g: &mut Gen,
    fs: &Fs,
    what: &str,
    stream: &mut dyn DataStream,
    model: &Sparse,
    deep: bool,
) -> CaseResult {
    let marks: Vec<u64> = model.extents.iter().map(|e| e.0).collect();
    check_stream(g, what, stream, model, fs.cluster.min(65536), &marks)?;
    if deep {
        if model.size <= 300_000 {
            check_all(what, stream, model, *g.pick(&[4096usize, 65536, 1000]))?;
        } else {
            for (at, data) in model.extents.iter().take(60) {
                let want = model.get(*at, data.len());
                let mut got = vec![0xa5; want.len()];
                match stream.read_exact_at_position(&mut got, std::io::SeekFrom::Start(*at)) {
                    Ok(_) => check!(
                        got == want,
                        "{}: at {}: {}",
                        what,
                        at,
                        difference(&got, &want)
                    ),
                    Err(e) => {
                        return fail(format!(
                            "{}: {} bytes at {}: {}",
                            what,
                            want.len(),
                            at,
                            e.to_string()
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

fn check_entry(
    g: &mut Gen,
    fs: &Fs,
    what: &str,
    entry: &mut NtfsFileEntry,
    number: u64,
    key: Option<&Key>,
    deep: bool,
) -> CaseResult {
    let file = &fs.files[&number];
    check_eq!(entry.mft_entry_number, number, "{}: entry", what);
    check_eq!(entry.sequence_number, file.sequence, "{}: sequence", what);
    check_eq!(
        entry.get_journal_sequence_number(),
        file.journal,
        "{}: journal",
        what
    );
    check_eq!(
        entry.get_base_record_file_reference(),
        file.base,
        "{}: base record",
        what
    );
    check_eq!(
        entry.get_file_reference(),
        file.reference(),
        "{}: file reference",
        what
    );
    check_eq!(
        entry.get_name().cloned(),
        key.map(|k| ucs2(&k.name)),
        "{}: name",
        what
    );
    check_eq!(
        entry.get_parent_file_reference(),
        key.map(|k| k.parent),
        "{}: parent",
        what
    );
    check_eq!(entry.is_allocated(), !file.free, "{}: is allocated", what);
    check_eq!(
        (entry.is_bad(), entry.is_empty()),
        (false, false),
        "{}: is bad, is empty",
        what
    );
    check_eq!(
        entry.is_root_directory(),
        number == 5,
        "{}: is the root directory",
        what
    );
    if file.size == u64::MAX {
        // An extension of another.
        return Ok(());
    }
    check_eq!(
        entry.is_directory(),
        file.directory,
        "{}: is a directory",
        what
    );
    check_eq!(
        entry.is_junction(),
        file.tag == Some(0xa0000003),
        "{}: is a junction",
        what
    );
    check_eq!(
        entry.is_symbolic_link(),
        file.tag == Some(0xa000000c),
        "{}: is a symbolic link",
        what
    );
    check_eq!(
        entry.get_file_attribute_flags(),
        file.flags,
        "{}: flags",
        what
    );
    check_eq!(entry.get_size(), file.size, "{}: size", what);
    let times = file.informed.then(|| file.times.map(time));
    check_eq!(
        entry.get_creation_time(),
        times.as_ref().map(|t| &t[0]),
        "{}: creation time",
        what
    );
    check_eq!(
        entry.get_modification_time(),
        times.as_ref().map(|t| &t[1]),
        "{}: modification time",
        what
    );
    check_eq!(
        entry.get_change_time(),
        times.as_ref().map(|t| &t[2]),
        "{}: change time",
        what
    );
    check_eq!(
        entry.get_access_time(),
        times.as_ref().map(|t| &t[3]),
        "{}: access time",
        what
    );
    match entry.get_symbolic_link_target() {
        Ok(t) => check_eq!(
            t.cloned(),
            file.target.as_ref().map(|t| ucs2(t)),
            "{}: target",
            what
        ),
        Err(e) => return fail(format!("{}: target: {}", what, e.to_string())),
    }
    match entry.get_number_of_data_forks() {
        Ok(n) => check_eq!(n, file.streams.len(), "{}: data forks", what),
        Err(e) => return fail(format!("{}: data forks: {}", what, e.to_string())),
    }
    let mut seen = BTreeSet::new();
    for i in 0..file.streams.len() {
        let fork = match entry.get_data_fork_by_index(i) {
            Ok(f) => f,
            Err(e) => return fail(format!("{}: data fork {}: {}", what, i, e.to_string())),
        };
        let name = fork
            .get_name()
            .map(|n| n.elements.clone())
            .unwrap_or_default();
        let Some(model) = file.streams.get(&name) else {
            return fail(format!(
                "{}: data fork {} with name {} is none",
                what,
                i,
                shown(&name)
            ));
        };
        check!(
            seen.insert(name.clone()),
            "{}: data fork {} comes twice",
            what,
            shown(&name)
        );
        if deep || g.chance(1, 3) {
            let label = format!("{}:{}", what, shown(&name));
            match fork.get_data_stream() {
                Ok(s) => check_data(g, fs, &label, &mut *s.write().unwrap(), model, deep)?,
                Err(e) => return fail(format!("{}: data stream: {}", label, e.to_string())),
            }
        }
    }
    check!(
        entry.get_data_fork_by_index(file.streams.len()).is_err(),
        "{}: data fork {} of as many",
        what,
        file.streams.len()
    );
    match entry.get_data_stream() {
        Ok(None) => check!(
            !file.streams.contains_key(&Vec::new()),
            "{}: no data stream",
            what
        ),
        Ok(Some(s)) => match file.streams.get(&Vec::new()) {
            Some(model) => check_data(g, fs, what, &mut *s.write().unwrap(), model, false)?,
            None => return fail(format!("{}: a data stream", what)),
        },
        Err(e) => return fail(format!("{}: data stream: {}", what, e.to_string())),
    }
    for (name, model) in &file.streams {
        let asked = (!name.is_empty()).then(|| ucs2(name));
        match entry.get_data_stream_by_name(&asked) {
            Ok(Some(s)) => {
                if g.chance(1, 3) {
                    check_data(g, fs, what, &mut *s.write().unwrap(), model, false)?;
                }
            }
            Ok(None) => return fail(format!("{}: no data stream {}", what, shown(name))),
            Err(e) => {
                return fail(format!(
                    "{}: data stream {}: {}",
                    what,
                    shown(name),
                    e.to_string()
                ));
            }
        }
    }
    match entry.get_data_stream_by_name(&Some(Ucs2String::from("no such stream"))) {
        Ok(s) => check!(s.is_none(), "{}: a data stream that is not there", what),
        Err(e) => {
            return fail(format!(
                "{}: a data stream that is not there: {}",
                what,
                e.to_string()
            ));
        }
    }
    if deep {
        check_attributes(fs, what, entry, file)?;
    }
    if !file.directory {
        match entry.get_number_of_sub_file_entries() {
            Ok(n) => check_eq!(n, 0, "{}: entries of a file", what),
            Err(e) => return fail(format!("{}: entries of a file: {}", what, e.to_string())),
        }
        match entry.get_sub_file_entry_by_name(&Ucs2String::from("a")) {
            Ok(e) => check!(e.is_none(), "{}: entry of a file by name", what),
            Err(e) => {
                return fail(format!(
                    "{}: entry of a file by name: {}",
                    what,
                    e.to_string()
                ));
            }
        }
    }
    Ok(())
}

fn check_attributes(_fs: &Fs, what: &str, entry: &mut NtfsFileEntry, file: &File) -> CaseResult {
    let n = entry.get_number_of_attributes();
    check_eq!(n, file.attributes, "{}: attributes", what);
    let mut others = file.others.clone();
    let mut keys: Vec<(u64, u8, Vec<u16>)> = file
        .keys
        .iter()
        .map(|k| (k.parent, k.space, k.name.clone()))
        .collect();
    for i in 0..n {
        let attribute = match entry.get_attribute_by_index(i) {
            Ok(a) => a,
            Err(e) => return fail(format!("{}: attribute {}: {}", what, i, e.to_string())),
        };
        match attribute {
            NtfsAttribute::StandardInformation {
                standard_information: s,
            } => {
                let got = [
                    s.creation_time,
                    s.modification_time,
                    s.entry_modification_time,
                    s.access_time,
                ];
                check!(
                    got == file.times.map(time),
                    "{}: times of the standard information",
                    what
                );
                check_eq!(
                    (
                        s.file_attribute_flags,
                        s.maximum_number_of_versions,
                        s.version_number,
                        s.owner_identifier
                    ),
                    (file.flags, file.versions.0, file.versions.1, file.owner),
                    "{}: standard information",
                    what
                );
            }
            NtfsAttribute::FileName { file_name: f } => {
                let key = (
                    f.parent_file_reference,
                    f.name_space,
                    f.name.elements.clone(),
                );
                let Some(at) = keys.iter().position(|k| *k == key) else {
                    return fail(format!("{}: name {}", what, shown(&key.2)));
                };
                keys.remove(at);
                check_eq!(
                    f.file_attribute_flags,
                    file.flags,
                    "{}: flags of a name",
                    what
                );
                let got = [
                    f.creation_time,
                    f.modification_time,
                    f.entry_modification_time,
                    f.access_time,
                ];
                check!(got == file.times.map(time), "{}: times of a name", what);
                check_eq!(f.reparse_point_tag, file.tag, "{}: tag of a name", what);
            }
            NtfsAttribute::AttributeList { attribute_list } => {
                let got: Vec<(u32, u64)> = attribute_list
                    .entries
                    .iter()
                    .map(|e| (e.attribute_type, e.file_reference))
                    .collect();
                check_eq!(Some(&got), file.list.as_ref(), "{}: attribute list", what);
            }
            NtfsAttribute::ReparsePoint { reparse_point } => check_eq!(
                Some(reparse_point.get_reparse_tag()),
                file.tag,
                "{}: reparse point",
                what
            ),
            NtfsAttribute::VolumeInformation {
                volume_information: v,
            } => {
                check_eq!(
                    Some((
                        v.major_format_version,
                        v.minor_format_version,
                        v.volume_flags
                    )),
                    file.version,
                    "{}: volume information",
                    what
                )
            }
            NtfsAttribute::VolumeName { volume_name } => check_eq!(
                Some(volume_name.elements),
                file.label,
                "{}: volume name",
                what
            ),
            NtfsAttribute::Generic { mft_attribute: a } => {
                let got = (
                    a.attribute_type,
                    a.name
                        .as_ref()
                        .map(|n| n.elements.clone())
                        .unwrap_or_default(),
                    a.data_size,
                );
                let Some(at) = others.iter().position(|o| *o == got) else {
                    return fail(format!(
                        "{}: attribute {:x} {} of {}",
                        what,
                        got.0,
                        shown(&got.1),
                        got.2
                    ));
                };
                others.remove(at);
            }
        }
    }
    check!(
        keys.is_empty() && others.is_empty(),
        "{}: attributes that are not there",
        what
    );
    check!(
        entry.get_attribute_by_index(n).is_err(),
        "{}: attribute {} of {}",
        what,
        n,
        n
    );
    Ok(())
}

fn check_name(
    g: &mut Gen,
    fs: &Fs,
    what: &str,
    directory: &mut NtfsFileEntry,
    exact: bool,
    key: &Key,
) -> CaseResult {
    let asked: Vec<u16> = if exact || g.bool() {
        key.name.clone()
    } else {
        key.name.iter().map(|c| recase(g, fs, *c)).collect()
    };
    match directory.get_sub_file_entry_by_name(&ucs2(&asked)) {
        Ok(Some(mut e)) => check_entry(
            g,
            fs,
            &format!("{}: by name {}", what, shown(&asked)),
            &mut e,
            key.reference & 0xffffffffffff,
            Some(key),
            false,
        ),
        Ok(None) => fail(format!("{}: {} is not found", what, shown(&asked))),
        Err(e) => fail(format!("{}: {}: {}", what, shown(&asked), e.to_string())),
    }
}

fn check_directory(
    g: &mut Gen,
    fs: &Fs,
    what: &str,
    directory: &mut NtfsFileEntry,
    number: u64,
    system: &NtfsFileSystem,
    path: &[Ucs2String],
) -> CaseResult {
    let file = &fs.files[&number];
    let list: Vec<&Key> = file
        .entries
        .iter()
        .filter(|k| k.name != wide("."))
        .collect();
    if g.chance(1, 3) && !list.is_empty() {
        let key = *g.pick(&list);
        check_name(g, fs, what, directory, file.exact, key)?;
    }
    let n = match directory.get_number_of_sub_file_entries() {
        Ok(n) => n,
        Err(e) => return fail(format!("{}: number of entries: {}", what, e.to_string())),
    };
    check_eq!(
        n,
        list.iter().filter(|k| k.space != DOS).count(),
        "{}: number of entries",
        what
    );
    let mut seen = BTreeSet::new();
    for i in 0..n {
        if n > 40 && !g.chance(40, n as u64) {
            continue;
        }
        let mut entry = match directory.get_sub_file_entry_by_index(i) {
            Ok(e) => e,
            Err(e) => return fail(format!("{}: entry {}: {}", what, i, e.to_string())),
        };
        let Some(name) = entry.get_name().map(|n| n.elements.clone()) else {
            return fail(format!("{}: entry {} has no name", what, i));
        };
        let Some(key) = list.iter().find(|k| k.name == name && k.space != DOS) else {
            return fail(format!(
                "{}: entry {} with name {} is none of those that were written",
                what,
                i,
                shown(&name)
            ));
        };
        check!(
            seen.insert(name.clone()),
            "{}: entry {} comes twice",
            what,
            shown(&name)
        );
        let label = format!("{}\\{}", what, shown(&name));
        let child = key.reference & 0xffffffffffff;
        check_entry(g, fs, &label, &mut entry, child, Some(key), true)?;
        if fs.files[&child].directory {
            let mut path = path.to_vec();
            path.push(ucs2(&name));
            check_directory(g, fs, &label, &mut entry, child, system, &path)?;
        }
    }
    check!(
        directory.get_sub_file_entry_by_index(n).is_err(),
        "{}: entry {} of {}",
        what,
        n,
        n
    );
    for key in &list {
        if list.len() > 40 && !g.chance(30, list.len() as u64) {
            continue;
        }
        if g.chance(1, 2) {
            check_name(g, fs, what, directory, file.exact, key)?;
        }
        if g.chance(1, 3) {
            let mut components = vec![Ucs2String::new()];
            components.extend_from_slice(path);
            components.push(ucs2(&key.name));
            let mut full = NtfsPath { components };
            let child = key.reference & 0xffffffffffff;
            match system.get_file_entry_by_path(&full) {
                Ok(Some(mut e)) => check_entry(
                    g,
                    fs,
                    &format!("{}: by path", what),
                    &mut e,
                    child,
                    Some(key),
                    false,
                )?,
                Ok(None) => {
                    return fail(format!(
                        "{}: {} is not found by its path",
                        what,
                        shown(&key.name)
                    ));
                }
                Err(e) => return fail(format!("{}: by path: {}", what, e.to_string())),
            }
            let relative = NtfsPath { components: if g.bool() { full.components[1..].to_vec() } else { Vec::new() } };
            match system.get_file_entry_by_path(&relative) {
                Ok(found) => check!(found.is_none(), "{}: a path that does not start at the root directory is found", what),
                Err(e) => return fail(format!("{}: by a path that does not start at the root directory: {}", what, e.to_string())),
            }
            full.push(Ucs2String::from("no such name, at all"));
            match system.get_file_entry_by_path(&full) {
                Ok(found) => check!(found.is_none(), "{}: a path that is not there", what),
                Err(e) => {
                    return fail(format!(
                        "{}: by a path that is not there: {}",
                        what,
                        e.to_string()
                    ));
                }
            }
        }
    }
    // Names that differ a little from those that are there.
    for _ in 0..2 {
        let mut absent = match list.is_empty() {
            false if g.bool() => g.pick(&list).name.clone(),
            _ => file_name(g, false),
        };
        match g.below_or(3) {
            0 => absent.push(b'x' as u16),
            1 => {
                absent.pop();
            }
            2 => absent = absent.iter().map(|c| recase(g, fs, *c)).collect(),
            _ => {
                let at = g.usize(0, absent.len().max(1) - 1);
                if let Some(c) = absent.get_mut(at) {
                    *c ^= 1 << g.below_or(6);
                }
            }
        }
        let there = list.iter().any(|k| {
            if file.exact {
                k.name == absent
            } else {
                fs.folded(&k.name) == fs.folded(&absent)
            }
        });
        if !absent.is_empty() && fs.folded(&absent) != wide(".") && !there {
            match directory.get_sub_file_entry_by_name(&ucs2(&absent)) {
                Ok(found) => check!(found.is_none(), "{}: {} is found", what, shown(&absent)),
                Err(e) => return fail(format!("{}: {}: {}", what, shown(&absent), e.to_string())),
            }
        }
    }
    Ok(())
}

fn describe(g: &mut Gen, fs: &Fs) {
    let text = format!(
        "version {:?}, sectors of {}, {} clusters of {}, entries of {}, index entries of {}, {} runs of the table, {} file entries, {} names",
        fs.version,
        fs.sector,
        fs.clusters,
        fs.cluster,
        fs.entry,
        fs.index,
        fs.mft.len(),
        fs.files.len(),
        fs.files.values().map(|f| f.entries.len()).sum::<usize>()
    );
    g.note(|| text);
}

fn opened(fs: &Fs) -> Result<NtfsFileSystem, String> {
    let mut system = NtfsFileSystem::new();
    system
        .read_data_stream(&fs.image.stream())
        .map_err(|e| e.to_string())?;
    Ok(system)
}

fn volumes(g: &mut Gen) -> CaseResult {
    let Some(fs) = volume(g, 0) else {
        return discard();
    };
    describe(g, &fs);
    let system = match opened(&fs) {
        Ok(s) => s,
        Err(e) => return fail(format!("the volume is refused: {}", e)),
    };
    check_eq!(
        system.bytes_per_sector as u64,
        fs.sector,
        "bytes per sector"
    );
    check_eq!(system.cluster_block_size as u64, fs.cluster, "cluster size");
    check_eq!(system.mft_entry_size as usize, fs.entry, "entry size");
    check_eq!(
        system.index_entry_size as usize,
        fs.stated_index,
        "index entry size"
    );
    check_eq!(system.volume_serial_number, fs.serial, "serial number");
    let file = &fs.files[&3];
    check_eq!(
        system.get_volume_label().cloned(),
        file.label.as_ref().map(|l| ucs2(l)),
        "label"
    );
    check_eq!(
        system.get_format_version(),
        file.version.map(|v| (v.0, v.1)),
        "format version"
    );
    check_eq!(
        system.get_volume_flags(),
        file.version.map(|v| v.2),
        "volume flags"
    );
    if !fs.files[&5].entries.is_empty() {
        g.nontrivial();
    }
    let mut root = match system.get_root_directory() {
        Ok(r) => r,
        Err(e) => return fail(format!("root directory: {}", e.to_string())),
    };
    check_entry(g, &fs, "root directory", &mut root, 5, None, true)?;
    check_directory(g, &fs, "", &mut root, 5, &system, &[])?;
    match system.get_file_entry_by_path(&NtfsPath::from("\\")) {
        Ok(Some(mut root)) => check_entry(g, &fs, "\\", &mut root, 5, None, false)?,
        Ok(None) => return fail("\\ is not found"),
        Err(e) => return fail(format!("\\: {}", e.to_string())),
    }
    let all = total(&fs.mft) * fs.cluster / fs.entry as u64;
    for number in 0..all {
        if all > 40 && !g.chance(40, all) {
            continue;
        }
        let what = format!("entry {}", number);
        let mut entry = match system.get_file_entry_by_identifier(number) {
            Ok(e) => e,
            Err(e) => return fail(format!("{}: {}", what, e.to_string())),
        };
        if fs.files.contains_key(&number) {
            check_entry(g, &fs, &what, &mut entry, number, None, true)?;
            continue;
        }
        let filler = fs.fillers[&number];
        check_eq!(
            (entry.is_empty(), entry.is_bad(), entry.is_allocated()),
            (filler == Filler::Empty, filler == Filler::Bad, false),
            "{}: is empty, is bad, is allocated",
            what
        );
        check_eq!(
            (
                entry.get_number_of_attributes(),
                entry.is_directory(),
                entry.get_size()
            ),
            (0, false, 0),
            "{}: attributes, is a directory, size",
            what
        );
        match entry.get_data_stream() {
            Ok(s) => check!(s.is_none(), "{}: a data stream", what),
            Err(e) => return fail(format!("{}: data stream: {}", what, e.to_string())),
        }
        match entry.get_number_of_sub_file_entries() {
            Ok(n) => check_eq!(n, 0, "{}: entries", what),
            Err(e) => return fail(format!("{}: entries: {}", what, e.to_string())),
        }
    }
    for number in [all, all + 1, u64::MAX] {
        check!(
            system.get_file_entry_by_identifier(number).is_err(),
            "entry {} of {}",
            number,
            all
        );
    }
    Ok(())
}

/// A change that a reader must not go on from.
fn refused(g: &mut Gen) -> CaseResult {
    let Some(mut fs) = volume(g, 0) else {
        return discard();
    };
    g.nontrivial();
    let flip = |g: &mut Gen, fs: &mut Fs, at: u64| {
        let old = fs.image.get(at, 1)[0];
        fs.image.poke(at, &[old ^ g.range(1, 255) as u8]);
    };
    let mut number = None;
    let what = match g.below_or(6) {
        0 => {
            let at = 3 + g.below_or(7);
            flip(g, &mut fs, at);
            "signature"
        }
        1 => {
            let n = *g.pick(&[0u16, 1, 128, 511, 513, 8192, 65535]);
            fs.image.poke(11, &n.to_le_bytes());
            "number of bytes per sector"
        }
        2 => {
            let (at, n) = *g.pick(&[
                (64u64, 0u32),
                (64, 256),
                (64, 240),
                (64, 225),
                (64, 224),
                (64, 128),
                (68, 0),
                (68, 256),
                (68, 231),
                (68, 224),
                (68, 128),
                (13, 0x00),
                (13, 0xc0),
                (13, 3),
            ]);
            if at == 13 {
                fs.image.poke(at, &[n as u8]);
            } else {
                fs.image.poke(at, &n.to_le_bytes());
            }
            "size of a structure"
        }
        3 | 4 => {
            // The end of a sector of a record.
            let sectors = fs.entry as u64 / 512;
            let (n, place) = *g.pick(&fs.places);
            let at = place + 512 * g.below_or(sectors - 1) + 510 + g.below_or(1);
            flip(g, &mut fs, at);
            number = Some(n);
            "value at the end of a sector of an entry"
        }
        5 => {
            let (n, place) = *g.pick(&fs.places);
            let field = *g.pick(&[0u64, 1, 2, 3, 28, 29]);
            flip(g, &mut fs, place + field);
            if fs.image.get(place, 4) == [0, 0, 0, 0] || fs.image.get(place, 4) == *b"BAAD" {
                return discard();
            }
            number = Some(n);
            "signature or size of an entry"
        }
        _ => {
            fs.image.truncate(g.below_or(511));
            "end of the volume"
        }
    };
    describe(g, &fs);
    g.note(|| format!("with a changed {} {:?}", what, number));
    match (opened(&fs), number) {
        (Err(_), _) => {}
        (Ok(_), None) => return fail(format!("a volume with a changed {} is read", what)),
        (Ok(system), Some(n)) => check!(
            system.get_file_entry_by_identifier(n).is_err(),
            "entry {} with a changed {} is read",
            n,
            what
        ),
    }
    Ok(())
}

fn walk(g: &mut Gen, entry: &mut NtfsFileEntry, depth: usize, budget: &mut usize) {
    let n = entry.get_number_of_sub_file_entries().unwrap_or(0);
    let _ = entry.get_symbolic_link_target();
    for i in 0..entry.get_number_of_attributes().min(40) {
        let _ = entry.get_attribute_by_index(i);
    }
    for i in 0..entry.get_number_of_data_forks().unwrap_or(0).min(10) {
        if let Ok(stream) = entry
            .get_data_fork_by_index(i)
            .and_then(|f| f.get_data_stream())
        {
            touch(g, &mut *stream.write().unwrap());
        }
    }
    for i in 0..n.min(40) {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        let Ok(mut sub) = entry.get_sub_file_entry_by_index(i) else {
            continue;
        };
        let name = sub.get_name().cloned();
        if let Some(name) = &name {
            let _ = name.to_string();
            let _ = entry.get_sub_file_entry_by_name(name);
        }
        if depth < 5 {
            walk(g, &mut sub, depth + 1, budget);
        }
    }
    let _ = entry.get_sub_file_entry_by_name(&Ucs2String::from("m"));
}

fn damaged(g: &mut Gen) -> CaseResult {
    let twist = if g.bool() { g.range(1, 7) as u8 } else { 0 };
    let Some(mut fs) = volume(g, twist) else {
        return discard();
    };
    g.class_if(twist > 0, "made wrong");
    let mut hot = fs.hot.clone();
    if g.chance(1, 3) {
        // Where the attributes of an entry are.
        let (_, place) = *g.pick(&fs.places);
        let header = fs.header_size() as u64;
        hot = vec![
            (place + 4, 36),
            (place + header, 300.min(fs.entry as u64 - header - 8)),
        ];
        g.class("one entry");
    }
    if twist == 0 || g.chance(1, 4) {
        damage(g, &mut fs.image, &hot);
    }
    describe(g, &fs);
    let Ok(system) = opened(&fs) else {
        g.class("refused");
        return Ok(());
    };
    g.nontrivial();
    let mut budget = 60;
    if let Ok(mut root) = system.get_root_directory() {
        walk(g, &mut root, 0, &mut budget);
    }
    for _ in 0..6 {
        let number = if g.chance(5, 6) {
            g.pick(&fs.places).0
        } else {
            g.edgy(32)
        };
        if let Ok(mut e) = system.get_file_entry_by_identifier(number) {
            walk(g, &mut e, 4, &mut budget);
        }
    }
    Ok(())
}

pub static C51: Property = Property {
    id: "C51",
    rule: "a case counts as non-trivial when the root directory of its volume holds at least one name, or when it was changed so that it must be refused, or was damaged and is still read",
    assumptions: &[
        "the volumes are written by the harness after docs/formats/src/ntfs.md and, where it is silent, the Linux kernel: clusters of 256 bytes to 2 MiB, up to 2^44 of them, entries of 512 bytes to 8 KiB, up to 220 names, files with up to 300 runs of clusters",
        "a name of the DOS name space is found by a lookup and gives the entry that name; it is not listed",
        "runs of the table are multiples of an entry, and those of an index multiples of an index entry; others are refused by the code",
        "of the methods of the overlay filter only LZX is checked: the decompressor of the others is not in the repository",
        "names of junctions are not told by the interface of the code",
    ],
    facets: &[
        Facet {
            name: "volumes",
            work: Work::Random(120, 1200),
            case: volumes,
        },
        Facet {
            name: "refused",
            work: Work::Random(60, 600),
            case: refused,
        },
        Facet {
            name: "damaged",
            work: Work::Random(120, 1200),
            case: damaged,
        },
    ],
};
