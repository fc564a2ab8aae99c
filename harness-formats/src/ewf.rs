//! Expert Witness Compression Format images.

use crate::common::*;
use crate::pack;
use keramics_core::DataStream;
use keramics_hashes::DigestHashContext;
use keramics_formats::PathComponent;
use keramics_formats::ewf::{EwfHeaderValueType, EwfImage, EwfMediaType};
use pbt::*;
use std::io::SeekFrom;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// Chunks in the sectors section, a copy of the table.
    Sectors,
    /// Chunks in the table section, after the footer.
    EnCase1,
    /// Chunks in the table section, no footer.
    Smart,
}

/// A structure and the place of its checksum.
#[derive(Clone, Copy)]
struct Seal {
    start: u64,
    size: u64,
}

#[derive(Clone)]
struct Segment {
    data: Sparse,
    seals: Vec<Seal>,
    hot: Vec<(u64, u64)>,
    /// Compressed chunks: place, size, first byte on the media.
    packed: Vec<(u64, u64, u64)>,
}

impl Segment {
    fn new(number: u64) -> Segment {
        let mut header = b"EVF\x09\x0d\x0a\xff\x00\x01".to_vec();
        header.extend_from_slice(&(number as u16).to_le_bytes());
        header.extend_from_slice(&[0, 0]);
        Segment { data: Sparse::of(header), seals: Vec::new(), hot: vec![(0, 13)], packed: Vec::new() }
    }

    fn end(&self) -> u64 {
        self.data.size
    }

    /// Adds a structure that a checksum follows.
    fn sealed(&mut self, at: u64, data: &[u8]) {
        let mut data = data.to_vec();
        let n = data.len() as u64;
        data.extend_from_slice(&adler32(&data).to_le_bytes());
        self.data.put(at, &data);
        self.seals.push(Seal { start: at, size: n });
        self.hot.push((at, n.min(100)));
    }

    fn header(&mut self, g: &mut Gen, at: u64, name: &str, next: u64, size: u64) {
        let mut h = vec![0u8; 72];
        h.at(0, name.as_bytes());
        h.set_le(16, next, 8);
        h.set_le(24, size, 8);
        if g.chance(1, 12) {
            let noise = g.bytes(40);
            h.at(32, &noise);
        }
        self.sealed(at, &h);
    }

    /// Puts the header before what was added after a place.
    fn section(&mut self, g: &mut Gen, at: u64, name: &str, sizes: bool) {
        let end = self.end();
        let size = if sizes { end - at } else { 0 };
        self.header(g, at, name, end, size);
    }

    fn last(&mut self, g: &mut Gen, name: &str, size: u64) {
        let at = self.end();
        self.header(g, at, name, at, size);
    }

    /// Makes the checksums right again, inner structures were added first.
    fn reseal(&mut self) {
        for s in self.seals.clone() {
            let data = self.data.get(s.start, s.size as usize);
            if data.len() as u64 == s.size && s.start + s.size + 4 <= self.data.size {
                self.data.poke(s.start + s.size, &adler32(&data).to_le_bytes());
            }
        }
    }
}

struct Ewf {
    name: String,
    schema: &'static str,
    segments: Vec<Segment>,
    shows: Sparse,
    chunk: u64,
    sectors: u64,
    sector: u64,
    marks: Vec<u64>,
    media_type: u8,
    granularity: u32,
    set: [u8; 16],
    md5: [u8; 16],
    sha1: [u8; 20],
    kind: Kind,
    header: Vec<(usize, String)>,
    header2: Vec<(usize, String)>,
}

const TYPES: [(&str, fn() -> EwfHeaderValueType); 15] = [
    ("a", || EwfHeaderValueType::Description),
    ("av", || EwfHeaderValueType::Version),
    ("c", || EwfHeaderValueType::CaseNumber),
    ("e", || EwfHeaderValueType::ExaminerName),
    ("l", || EwfHeaderValueType::DeviceLabel),
    ("m", || EwfHeaderValueType::AcquisitionDate),
    ("md", || EwfHeaderValueType::Model),
    ("n", || EwfHeaderValueType::EvidenceNumber),
    ("ov", || EwfHeaderValueType::Platform),
    ("p", || EwfHeaderValueType::PasswordHash),
    ("pid", || EwfHeaderValueType::ProcessIdentifier),
    ("r", || EwfHeaderValueType::CompressionLevel),
    ("sn", || EwfHeaderValueType::SerialNumber),
    ("t", || EwfHeaderValueType::Notes),
    ("u", || EwfHeaderValueType::SystemDate),
];

const NOTES: usize = 13;

fn is_date(kind: usize) -> bool {
    kind == 5 || kind == 14
}

fn extension(number: u64, schema: &str) -> String {
    let first = schema.as_bytes()[0];
    if number < 100 {
        return format!("{}{:02}", first as char, number);
    }
    let a = if first.is_ascii_uppercase() { b'A' } else { b'a' };
    let n = number - 100;
    [first + (n / 676) as u8, a + (n / 26 % 26) as u8, a + (n % 26) as u8].iter().map(|b| *b as char).collect()
}

fn text(g: &mut Gen, ascii: bool) -> String {
    let n = match g.below_or(9) {
        0 => 0,
        1 => g.usize(0, 300),
        2 => return "x".repeat(g.usize(500, 3000)),
        _ => g.usize(1, 20),
    };
    (0..n)
        .map(|_| match g.below_or(if ascii { 5 } else { 8 }) {
            0 => ' ',
            1..=4 => (b'0' + g.below_or(9) as u8) as char,
            5 => (b'a' + g.below_or(25) as u8) as char,
            6 => *g.pick(&['é', 'ß', '…', '中', 'Ж', '\u{a0}']),
            7 => *g.pick(&['😀', '𐐷', '\u{10fffd}']),
            _ => *g.pick(&['.', '-', '/', '"', '<', '\u{7f}']),
        })
        .collect()
}

/// The text of a header: value types and values.
fn header_text(g: &mut Gen, values: &[(usize, String)], newline: &str) -> String {
    let mut types: Vec<&str> = values.iter().map(|v| TYPES[v.0].0).collect();
    let mut texts: Vec<&str> = values.iter().map(|v| v.1.as_str()).collect();
    if g.chance(1, 3) {
        types.push(g.pick(&["dc", "ext", "zz"]));
        texts.push(g.pick(&["", "1", "S 1 2 3"]));
    }
    let more = g.chance(1, 3);
    let mut lines = vec![(if more { "3" } else { "1" }).to_string(), "main".to_string(), types.join("\t"), texts.join("\t"), String::new()];
    if more {
        lines.extend(["srce", "0\t1", "p\tn\tid\tev", "0\t0", "\t\t\t", "", "sub", "0\t1", "p\tn\tid", "0\t0", "\t\t", ""].iter().map(|s| s.to_string()));
    }
    lines.iter().map(|l| format!("{}{}", l, newline)).collect()
}

fn civil(mut seconds: i64) -> String {
    let (s, m, h) = (seconds % 60, seconds / 60 % 60, seconds / 3600 % 24);
    seconds /= 86400;
    let mut year = 1970;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    while seconds >= 365 + leap(year) as i64 {
        seconds -= 365 + leap(year) as i64;
        year += 1;
    }
    let days = [31, 28 + leap(year) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut month = 0;
    while seconds >= days[month] {
        seconds -= days[month];
        month += 1;
    }
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", year, month + 1, seconds + 1, h, m, s)
}

#[derive(Clone, Copy)]
struct Shape {
    chunks: u64,
    segments: u64,
    big: bool,
}

fn chunk_data(g: &mut Gen, size: usize) -> Vec<u8> {
    match g.below_or(4) {
        0 => vec![0; size],
        1 => vec![g.u8(); size],
        2 => g.blob(size),
        _ => {
            let mut data = vec![0; size];
            let n = g.usize(1, 400.min(size));
            let part = content(g, n);
            let at = g.usize(0, size - n);
            data[at..at + n].copy_from_slice(&part);
            data
        }
    }
}

fn ewf(g: &mut Gen, shape: Shape) -> Ewf {
    let kind = if shape.big { Kind::Sectors } else { [Kind::Sectors, Kind::EnCase1, Kind::Smart][g.weighted(&[4, 1, 1])] };
    let sector = *g.pick(&[512u64, 512, 512, 2048, 4096]);
    let per_chunk = match g.below_or(3) {
        0 => 64,
        1 => 1 << g.below_or(6),
        2 => g.range(1, 40),
        _ => *g.pick(&[16, 32, 64, 128]),
    };
    let per_chunk = per_chunk.min(65536 / sector);
    let chunk = sector * per_chunk;
    let chunks = shape.chunks;
    let sectors = chunks * per_chunk - if g.bool() { g.below_or(per_chunk - 1) } else { 0 };
    let size = sectors * sector;
    let schema = match kind {
        Kind::Smart => *g.pick(&["S01", "s01"]),
        _ => *g.pick(&["E01", "E01", "e01"]),
    };
    let name = g.pick(&["image", "image", "a.b", ".hidden", "évidence", "日本", "E01"]).to_string();
    let mut set = [0u8; 16];
    if kind != Kind::Smart {
        set.copy_from_slice(&g.bytes(16));
    }
    let sizes = !g.chance(1, 8);
    let last_size = *g.pick(&[0u64, 76]);
    let media_type = *g.pick(&[0u8, 1, 3, 0x10, 1, 0x22]);
    let granularity = g.edgy(32) as u32;
    let volume = if kind == Kind::Smart {
        let mut v = vec![0u8; 90];
        v.set_le(0, 1, 4);
        v.set_le(4, chunks, 4);
        v.set_le(8, per_chunk, 4);
        v.set_le(12, sector, 4);
        v.set_le(16, sectors, 4);
        v.at(85, b"SMART");
        v
    } else {
        let mut v = vec![0u8; 1048];
        v[0] = media_type;
        v.set_le(4, chunks, 4);
        v.set_le(8, per_chunk, 4);
        v.set_le(12, sector, 4);
        v.set_le(16, sectors, 8);
        v[36] = *g.pick(&[1, 3, 7]);
        v[52] = g.below_or(2) as u8;
        v.set_le(56, granularity as u64, 4);
        v.at(64, &set);
        v
    };
    // What is known of the acquisition.
    let mut header: Vec<(usize, String)> = Vec::new();
    let mut header2: Vec<(usize, String)> = Vec::new();
    let with2 = kind == Kind::Sectors && g.bool();
    for t in 0..TYPES.len() {
        if g.chance(1, 3) {
            continue;
        }
        if is_date(t) {
            let seconds = up_to(g, &[0x7fffffff, 0x7fffffff, 1000000]);
            header.push((t, civil(seconds as i64).replace(['-', 'T', ':'], " ")));
            header2.push((t, if g.chance(1, 8) { String::new() } else { seconds.to_string() }));
        } else {
            let v = text(g, !with2);
            if t != 11 {
                header2.push((t, v.clone()));
            }
            header.push((t, v.chars().map(|c| if c.is_ascii() { c } else { '?' }).collect()));
        }
    }
    let rotate = g.usize(0, header.len());
    header.rotate_left(rotate);
    if header.is_empty() {
        header.push((2, "1".to_string()));
    }
    if !with2 || header2.is_empty() {
        header2.clear();
    }
    // The chunks.
    let mut shows = Sparse::new(size);
    let mut marks = Vec::new();
    let mut segments = Vec::new();
    let mut md5 = [0u8; 16];
    let mut sha1 = [0u8; 20];
    let mut first = 0;
    for number in 1..=shape.segments {
        let mut s = Segment::new(number);
        if number == 1 {
            let twice = if g.bool() { 2 } else { 1 };
            if !header2.is_empty() {
                let big = g.chance(1, 4);
                let mark = big || !g.chance(1, 8);
                let mut units: Vec<u16> = if mark { vec![0xfeff] } else { vec![] };
                units.extend(header_text(g, &header2, "\n").encode_utf16());
                if g.chance(1, 4) {
                    units.push(0);
                }
                let bytes: Vec<u8> = units.iter().flat_map(|u| if big { u.to_be_bytes() } else { u.to_le_bytes() }).collect();
                let packed = pack::zlib(g, &bytes);
                for _ in 0..twice {
                    let at = s.end();
                    s.data.put(at + 76, &packed);
                    s.hot.push((at + 76, packed.len() as u64));
                    s.section(g, at, "header2", sizes);
                }
            }
            let newline = *g.pick(&["\r\n", "\n"]);
            let mut text = header_text(g, &header, newline);
            if g.chance(1, 4) {
                text.push('\0');
            }
            let packed = pack::zlib(g, text.as_bytes());
            for _ in 0..if header2.is_empty() { twice } else { 1 } {
                let at = s.end();
                s.data.put(at + 76, &packed);
                s.hot.push((at + 76, packed.len() as u64));
                s.section(g, at, "header", sizes);
            }
            let at = s.end();
            s.sealed(at + 76, &volume);
            let name = if kind == Kind::Sectors && g.chance(1, 4) { "disk" } else { "volume" };
            s.section(g, at, name, sizes);
        } else if kind == Kind::Sectors {
            let at = s.end();
            s.sealed(at + 76, &volume);
            s.section(g, at, "data", sizes);
        }
        // Chunks of this segment file.
        let left = shape.segments - number;
        let count = if left == 0 { chunks - first } else { g.range(1, (chunks - first - left).min(1 + 2 * chunks / shape.segments)) };
        let mut done = 0;
        let overflow_at = if shape.big { g.range(1, count) } else { u64::MAX };
        while done < count {
            let tables = g.range(1, 3);
            let n = if shape.big { count } else { (count / tables).max(1).min(count - done) };
            let at = s.end();
            let footer = if kind == Kind::Smart { 0 } else { 4 };
            let mut place = at + 76 + if kind == Kind::Sectors { 0 } else { 24 + 4 * n + footer };
            if g.chance(1, 8) {
                place += g.below_or(40);
            }
            // The table refers to places after the base offset.
            let base = match kind {
                Kind::Sectors if g.bool() => *g.pick(&[at, at + 76, at / 2]),
                _ => 0,
            };
            let mut entries = Vec::new();
            let mut far = false;
            for i in 0..n {
                let index = first + done + i;
                let start = index * chunk;
                let length = chunk.min(size - start);
                let data = chunk_data(g, length as usize);
                shows.put(start, &data);
                if marks.len() < 200 {
                    marks.push(start);
                }
                let compress = !far && i != overflow_at && i + 1 != overflow_at && (kind == Kind::Smart || g.chance(2, 3));
                let stored = if compress {
                    pack::zlib(g, &data)
                } else {
                    let mut d = data.clone();
                    d.extend_from_slice(&adler32(&data).to_le_bytes());
                    d
                };
                if i == overflow_at {
                    // From here on the offsets need all of their bits.
                    place = base + g.range(0x7fffffff - chunk, 0x7fffffff);
                    g.class("beyond 2 GiB");
                }
                s.data.put(place, &stored);
                if compress {
                    s.packed.push((place, stored.len() as u64, start));
                }
                entries.extend_from_slice(&((place - base) as u32 | (compress as u32) << 31).to_le_bytes());
                place += stored.len() as u64;
                far = far || place - base > 0x7fffffff;
            }
            let mut head = vec![0u8; 20];
            head.set_le(0, n, 4);
            head.set_le(8, base, 8);
            let table = |s: &mut Segment, at: u64| {
                s.sealed(at + 76, &head);
                if footer > 0 {
                    s.sealed(at + 100, &entries);
                } else {
                    s.data.put(at + 100, &entries);
                    s.hot.push((at + 100, entries.len() as u64));
                }
            };
            if kind == Kind::Sectors {
                s.section(g, at, "sectors", sizes);
                for name in ["table", "table2"] {
                    let at = s.end();
                    table(&mut s, at);
                    s.section(g, at, name, sizes);
                }
            } else {
                table(&mut s, at);
                s.section(g, at, "table", sizes);
            }
            done += n;
        }
        first += count;
        if left == 0 {
            if kind == Kind::Sectors && shape.segments == 1 && g.bool() {
                let at = s.end();
                s.sealed(at + 76, &volume);
                s.section(g, at, "data", sizes);
            }
            if kind != Kind::Smart && g.chance(1, 4) {
                let n = g.usize(0, 5);
                let at = s.end();
                let mut head = vec![0u8; 516];
                head.set_le(0, n as u64, 4);
                s.sealed(at + 76, &head);
                let entries = g.bytes(8 * n);
                s.sealed(at + 76 + 520, &entries);
                s.section(g, at, "error2", sizes);
            }
            if kind == Kind::Sectors && g.chance(1, 5) {
                let at = s.end();
                let n = g.usize(1, 200);
                let noise = g.bytes(n);
                s.data.put(at + 76, &noise);
                let name = *g.pick(&["session", "xhash", "xheader", "incomplete"]);
                s.section(g, at, name, sizes);
            }
            if kind != Kind::Smart && g.bool() {
                md5.copy_from_slice(&g.bytes(16));
                if g.bool() {
                    sha1.copy_from_slice(&g.bytes(20));
                    let mut d = vec![0u8; 76];
                    d.at(0, &md5);
                    d.at(16, &sha1);
                    let at = s.end();
                    s.sealed(at + 76, &d);
                    s.section(g, at, "digest", sizes);
                }
                if sha1 == [0; 20] || g.bool() {
                    let mut d = vec![0u8; 32];
                    d.at(0, &md5);
                    let noise = g.bytes(16);
                    d.at(16, &noise);
                    let at = s.end();
                    s.sealed(at + 76, &d);
                    s.section(g, at, "hash", sizes);
                }
            }
        }
        s.last(g, if left == 0 { "done" } else { "next" }, last_size);
        segments.push(s);
    }
    g.class(match kind {
        Kind::Sectors => "sectors sections",
        Kind::EnCase1 => "EnCase 1",
        Kind::Smart => "SMART",
    });
    Ewf { name, schema, segments, shows, chunk, sectors, sector, marks, media_type, granularity, set, md5, sha1, kind, header, header2 }
}

impl Ewf {
    fn files(&self) -> Vec<(String, Sparse)> {
        self.segments.iter().enumerate().map(|(i, s)| (format!("{}.{}", self.name, extension(i as u64 + 1, self.schema)), s.data.clone())).collect()
    }

    fn open_files(&self, files: Vec<(String, Sparse)>) -> Result<EwfImage, String> {
        let mut image = EwfImage::new();
        match image.open(&Folder::of(files).resolver(), &PathComponent::from(&format!("{}.{}", self.name, self.schema))) {
            Ok(()) => Ok(image),
            Err(e) => Err(e.to_string()),
        }
    }

    fn open(&self) -> Result<EwfImage, String> {
        self.open_files(self.files())
    }

    fn describe(&self) -> String {
        format!("{:?}, {} segment files {}.{}, {} bytes in chunks of {}, {} sectors of {}", self.kind, self.segments.len(), self.name, self.schema, self.shows.size, self.chunk, self.sectors, self.sector)
    }
}

fn reads(g: &mut Gen, shape: Shape) -> CaseResult {
    let i = ewf(g, shape);
    g.note(|| i.describe());
    if i.marks.len() > 2 {
        g.nontrivial();
    }
    let mut image = match i.open() {
        Ok(image) => image,
        Err(e) => return fail(format!("a valid image ({}) is rejected: {}", i.describe(), e)),
    };
    check_stream(g, "image", &mut image, &i.shows, i.chunk, &i.marks)?;
    if i.shows.size < 1 << 20 && g.bool() {
        let piece = g.usize(1, 3 * i.chunk as usize).max(i.shows.size as usize / 64);
        check_all("image", &mut image, &i.shows, piece)?;
    }
    Ok(())
}

fn image(g: &mut Gen) -> CaseResult {
    let chunks = if g.chance(1, 8) { g.range(1, 70) } else { g.range(1, 12) };
    let segments = g.range(1, chunks.min(5));
    reads(g, Shape { chunks, segments, big: false })
}

fn many_segments(g: &mut Gen) -> CaseResult {
    let segments = if g.chance(1, 6) { g.range(98, 140) } else { g.range(17, 40) };
    let chunks = segments + g.below_or(20);
    reads(g, Shape { chunks, segments, big: false })
}

fn beyond(g: &mut Gen) -> CaseResult {
    let chunks = g.range(3, 10);
    reads(g, Shape { chunks, segments: 1, big: true })
}

/// What the image says of itself.
fn facts(g: &mut Gen) -> CaseResult {
    let chunks = g.range(1, 4);
    let segments = g.range(1, chunks.min(2));
    let i = ewf(g, Shape { chunks, segments, big: false });
    g.note(|| format!("{}; header {:?}; header2 {:?}", i.describe(), i.header, i.header2));
    g.nontrivial();
    let image = match i.open() {
        Ok(image) => image,
        Err(e) => return fail(format!("a valid image ({}) is rejected: {}", i.describe(), e)),
    };
    check_eq!(image.media_size, i.shows.size, "media size");
    check_eq!(image.number_of_sectors as u64, i.sectors, "number of sectors");
    check_eq!(image.bytes_per_sector as u64, i.sector, "bytes per sector");
    check_eq!(image.sectors_per_chunk as u64, i.chunk / i.sector, "sectors per chunk");
    check_eq!(image.md5_hash, i.md5, "MD5");
    check_eq!(image.sha1_hash, i.sha1, "SHA-1");
    if i.kind != Kind::Smart {
        check_eq!(image.error_granularity, i.granularity, "error granularity");
        let want = match i.media_type {
            0 => EwfMediaType::RemoveableDisk,
            1 => EwfMediaType::FixedDisk,
            3 => EwfMediaType::OpticalDisk,
            0x10 => EwfMediaType::Memory,
            _ => EwfMediaType::Unknown,
        };
        check!(image.media_type == want, "media type 0x{:02x}", i.media_type);
        let s = &i.set;
        let want = format!(
            "{:08x}-{:04x}-{:04x}-{:02x}{:02x}-{}",
            u32::from_le_bytes([s[0], s[1], s[2], s[3]]),
            u16::from_le_bytes([s[4], s[5]]),
            u16::from_le_bytes([s[6], s[7]]),
            s[8],
            s[9],
            s[10..].iter().map(|b| format!("{:02x}", b)).collect::<String>()
        );
        check_eq!(image.set_identifier.to_string(), want, "set identifier");
    }
    for (t, (name, kind)) in TYPES.iter().enumerate() {
        let got = image.get_header_value(&kind()).map(|v| v.to_string());
        let find = |list: &[(usize, String)]| list.iter().find(|v| v.0 == t).map(|v| v.1.clone());
        let one = find(&i.header);
        let two = find(&i.header2).filter(|v| !(is_date(t) && v.is_empty()));
        let two = two.map(|v| if is_date(t) { civil(v.parse().unwrap()) } else { v });
        if t == NOTES && two.is_some() && got == one {
            // Known: the notes of a header2 section are not read.
            continue;
        }
        let want = two.or(one);
        check_eq!(got, want, "value {}", name);
    }
    for t in &i.header2 {
        g.class_if(t.1.chars().any(|c| !c.is_ascii()), "beyond ASCII");
    }
    Ok(())
}

/// Segment files that are missing, or in the place of another.
fn missing(g: &mut Gen) -> CaseResult {
    let segments = g.range(2, 5);
    let chunks = segments + g.below_or(4);
    let i = ewf(g, Shape { chunks, segments, big: false });
    let mut files = i.files();
    let n = files.len();
    g.nontrivial();
    let what = match g.below_or(2) {
        0 => {
            let at = g.usize(1, n - 1);
            let f = files.remove(at);
            format!("{} is missing", f.0)
        }
        1 => {
            let a = g.usize(0, n - 2);
            let b = g.usize(a + 1, n - 1);
            let x = files[a].1.clone();
            files[a].1 = files[b].1.clone();
            files[b].1 = x;
            format!("{} and {} are exchanged", files[a].0, files[b].0)
        }
        _ => {
            let at = g.usize(0, n - 1);
            let cut = 1 + g.below_or(files[at].1.size.min(300) - 1);
            let size = files[at].1.size - cut;
            files[at].1.truncate(size);
            format!("the last {} bytes of {} are missing", cut, files[at].0)
        }
    };
    g.note(|| format!("{}: {}", i.describe(), what));
    match i.open_files(files) {
        Err(_) => Ok(()),
        Ok(_) => fail(format!("accepted although {}", what)),
    }
}

/// A change in what a checksum covers is not accepted.
fn sealed(g: &mut Gen) -> CaseResult {
    let chunks = g.range(1, 4);
    let segments = g.range(1, chunks.min(2));
    let mut i = ewf(g, Shape { chunks, segments, big: false });
    let n = i.segments.len();
    let s = &mut i.segments[g.usize(0, n - 1)];
    if s.packed.is_empty() || g.chance(3, 4) {
        let seal = *g.pick(&s.seals);
        if seal.size == 0 {
            return discard();
        }
        let at = seal.start + g.below_or(seal.size + 3);
        let bit = 1u8 << g.below_or(7);
        let old = s.data.get(at, 1)[0];
        s.data.poke(at, &[old ^ bit]);
        g.nontrivial();
        g.class("structure");
        g.note(|| format!("bit {} at {} of a structure of {} bytes at {}", bit, at, seal.size, seal.start));
        check!(i.open().is_err(), "accepted although bit 0x{:02x} at {} of a structure of {} bytes at {} differs", bit, at, seal.size, seal.start);
        return Ok(());
    }
    let (at, size, start) = *g.pick(&s.packed);
    let o = g.below_or(size - 1);
    let bit = 1u8 << g.below_or(7);
    let old = s.data.get(at + o, 1)[0];
    s.data.poke(at + o, &[old ^ bit]);
    let mut image = match i.open() {
        Ok(image) => image,
        Err(e) => return fail(format!("an image with a damaged chunk is rejected: {}", e)),
    };
    let want = i.shows.get(start, i.chunk as usize);
    let mut buffer = vec![0u8; want.len()];
    g.class("chunk");
    match image.read_at_position(&mut buffer, SeekFrom::Start(start)) {
        Ok(_) => check!(buffer == want, "a damaged chunk: {}", difference(&buffer, &want)),
        Err(_) => g.nontrivial(),
    }
    Ok(())
}

fn damaged(g: &mut Gen) -> CaseResult {
    let chunks = g.range(1, 5);
    let segments = g.range(1, chunks.min(2));
    let mut i = ewf(g, Shape { chunks, segments, big: false });
    let n = i.segments.len();
    let s = &mut i.segments[g.usize(0, n - 1)];
    let hot = s.hot.clone();
    damage(g, &mut s.data, &hot);
    if g.chance(5, 6) {
        s.reseal();
        g.class("with checksums made right");
    }
    g.nontrivial();
    if let Ok(mut image) = i.open() {
        g.class("accepted");
        touch(g, &mut image);
    }
    Ok(())
}

/// An image that EnCase compatible software made.
fn test_image(g: &mut Gen) -> CaseResult {
    let data = match std::fs::read("/repo/test_data/ewf/ext2.E01") {
        Ok(data) => data,
        Err(e) => return fail(format!("test image: {}", e)),
    };
    g.nontrivial();
    let mut image = EwfImage::new();
    let files = Folder::of(vec![("ext2.E01".to_string(), Sparse::of(data))]);
    if let Err(e) = image.open(&files.resolver(), &PathComponent::from("ext2.E01")) {
        return fail(format!("the test image is rejected: {}", e.to_string()));
    }
    let mut context = keramics_hashes::Md5Context::new();
    let mut buffer = vec![0u8; 10007];
    loop {
        match image.read(&mut buffer) {
            Ok(0) => break,
            Ok(n) => context.update(&buffer[..n]),
            Err(e) => return fail(format!("the test image: {}", e.to_string())),
        }
    }
    check_eq!(hex(&context.finalize()), hex(&image.md5_hash), "MD5 of the test image");
    Ok(())
}

pub static C48: Property = Property {
    id: "C48",
    rule: "an image with more than two chunks; changed and damaged images all count, except a changed chunk that reads as before",
    assumptions: &[],
    facets: &[
        Facet { name: "image", work: Work::Random(150, 1500), case: image },
        Facet { name: "test image", work: Work::Exhaustive(1), case: test_image },
        Facet { name: "many segment files", work: Work::Random(12, 100), case: many_segments },
        Facet { name: "offsets beyond 2 GiB", work: Work::Random(40, 300), case: beyond },
        Facet { name: "facts", work: Work::Random(150, 1500), case: facts },
        Facet { name: "missing segment files", work: Work::Random(60, 600), case: missing },
        Facet { name: "checksums", work: Work::Random(150, 1500), case: sealed },
        Facet { name: "damaged", work: Work::Random(300, 3000), case: damaged },
    ],
};
