//! Sparse data as image and as expectation, histories of reads, and checksums by definition.

use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
use keramics_formats::{FileResolver, FileResolverReference, PathComponent};
use pbt::*;
use std::io::SeekFrom;
use std::sync::{Arc, RwLock};

/// Data that is zero except for its extents; later extents hide earlier ones.
#[derive(Clone, Default)]
pub struct Sparse {
    pub size: u64,
    pub extents: Vec<(u64, Arc<Vec<u8>>)>,
}

impl Sparse {
    pub fn new(size: u64) -> Sparse {
        Sparse { size, extents: Vec::new() }
    }

    pub fn of(data: Vec<u8>) -> Sparse {
        Sparse { size: data.len() as u64, extents: vec![(0, Arc::new(data))] }
    }

    /// Writes data, and extends the size if needed.
    pub fn put(&mut self, offset: u64, data: &[u8]) {
        self.size = self.size.max(offset + data.len() as u64);
        self.extents.push((offset, Arc::new(data.to_vec())));
    }

    pub fn fill(&self, offset: u64, buffer: &mut [u8]) {
        buffer.fill(0);
        let end = offset + buffer.len() as u64;
        for (start, data) in &self.extents {
            let last = start + data.len() as u64;
            if *start < end && last > offset {
                let from = (*start).max(offset);
                let to = last.min(end);
                buffer[(from - offset) as usize..(to - offset) as usize]
                    .copy_from_slice(&data[(from - start) as usize..(to - start) as usize]);
            }
        }
    }

    /// What is left of a range.
    pub fn get(&self, offset: u64, size: usize) -> Vec<u8> {
        let n = self.size.saturating_sub(offset).min(size as u64) as usize;
        let mut data = vec![0; n];
        self.fill(offset, &mut data);
        data
    }

    pub fn slice(&self, offset: u64, size: u64) -> Sparse {
        let mut out = Sparse::new(size);
        for (start, data) in &self.extents {
            let last = start + data.len() as u64;
            if *start < offset + size && last > offset {
                let from = (*start).max(offset);
                let to = last.min(offset + size);
                out.extents.push((from - offset, Arc::new(data[(from - start) as usize..(to - start) as usize].to_vec())));
            }
        }
        out
    }

    /// Changes bytes in place.
    pub fn poke(&mut self, offset: u64, data: &[u8]) {
        self.extents.push((offset, Arc::new(data.to_vec())));
    }

    /// Makes a range zero.
    pub fn blank(&mut self, from: u64, to: u64) {
        if from >= to {
            return;
        }
        let mut out = Vec::new();
        for (start, data) in &self.extents {
            let last = start + data.len() as u64;
            if *start >= to || last <= from {
                out.push((*start, data.clone()));
                continue;
            }
            if *start < from {
                out.push((*start, Arc::new(data[..(from - start) as usize].to_vec())));
            }
            if last > to {
                out.push((to, Arc::new(data[(to - start) as usize..].to_vec())));
            }
        }
        self.extents = out;
    }

    pub fn truncate(&mut self, size: u64) {
        *self = self.slice(0, size.min(self.size));
    }

    pub fn stream(&self) -> DataStreamReference {
        Arc::new(RwLock::new(Reader { data: self.clone(), offset: 0 }))
    }
}

/// Data stream of sparse data.
pub struct Reader {
    data: Sparse,
    offset: u64,
}

impl DataStream for Reader {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        Ok(self.data.size)
    }

    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        let n = self.data.size.saturating_sub(self.offset).min(buf.len() as u64) as usize;
        self.data.fill(self.offset, &mut buf[..n]);
        self.offset += n as u64;
        Ok(n)
    }

    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        let target = match pos {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(n) => self.offset as i128 + n as i128,
            SeekFrom::End(n) => self.data.size as i128 + n as i128,
        };
        if target < 0 || target > u64::MAX as i128 {
            return Err(ErrorTrace::new("seek out of bounds".to_string()));
        }
        self.offset = target as u64;
        Ok(self.offset)
    }
}

/// Content in which every place differs, mostly.
pub fn content(g: &mut Gen, size: usize) -> Vec<u8> {
    if size <= 12 || g.chance(1, 5) {
        return g.blob(size);
    }
    let salt = g.u32();
    let mut data = vec![0u8; size];
    for (i, x) in data.iter_mut().enumerate() {
        let v = ((i / 4) as u32).wrapping_mul(0x9e3779b1) ^ salt;
        *x = v.to_le_bytes()[i % 4] ^ (i / 1021) as u8;
    }
    data
}

pub fn difference(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!("{} bytes, expected {}", got.len(), want.len());
    }
    match (0..got.len()).find(|i| got[*i] != want[*i]) {
        Some(i) => {
            let n = (0..got.len()).filter(|i| got[*i] != want[*i]).count();
            format!("{} of {} bytes differ, first at {}: {} expected {}", n, got.len(), i, hex(&got[i..(i + 8).min(got.len())]), hex(&want[i..(i + 8).min(want.len())]))
        }
        None => "no difference".to_string(),
    }
}

/// Offset in 0..=size that likes the marks and multiples of the unit.
pub fn near(g: &mut Gen, size: u64, unit: u64, marks: &[u64]) -> u64 {
    let base = match g.below_or(5) {
        0 => 0,
        1 => size,
        2 | 3 => g.below_or(size / unit.max(1)) * unit,
        4 if !marks.is_empty() => *g.pick(marks),
        _ => return g.below_or(size),
    };
    let d = g.below_or(6);
    match d {
        0 | 1 | 2 => base,
        3 => base.saturating_sub(1),
        4 => (base + 1).min(size),
        5 => base.saturating_sub(g.below_or(unit)),
        _ => (base + g.below_or(unit)).min(size),
    }
    .min(size)
}

/// A history of seeks and reads answers as the model does.
pub fn check_stream(g: &mut Gen, what: &str, stream: &mut dyn DataStream, model: &Sparse, unit: u64, marks: &[u64]) -> CaseResult {
    let size = match stream.get_size() {
        Ok(n) => n,
        Err(e) => return fail(format!("{}: size: {}", what, e.to_string())),
    };
    check_eq!(size, model.size, "{}: size", what);
    // Another history may have been there before.
    let mut position = match stream.seek(SeekFrom::Current(0)) {
        Ok(p) => p,
        Err(e) => return fail(format!("{}: position: {}", what, e.to_string())),
    };
    let n = g.usize(1, 8);
    let mut visited: Vec<u64> = Vec::new();
    for _ in 0..n {
        if g.chance(2, 3) {
            let target = match g.below_or(9) {
                9 => size + g.below_or(2 * unit),
                // Where a key or offset with a bit too few would find what was read before.
                8 if !visited.is_empty() => {
                    let other = *g.pick(&visited) ^ (1u64 << g.range(9, 40));
                    if other <= size { other } else { near(g, size, unit, marks) }
                }
                _ => near(g, size, unit, marks),
            };
            visited.push(target);
            let from = match g.below_or(3) {
                0 => SeekFrom::Current((target as i128 - position as i128) as i64),
                1 => SeekFrom::End((target as i128 - size as i128) as i64),
                _ => SeekFrom::Start(target),
            };
            match stream.seek(from) {
                Ok(p) => check_eq!(p, target, "{}: {:?} from {}", what, from, position),
                Err(e) => return fail(format!("{}: {:?} from {}: {}", what, from, position, e.to_string())),
            }
            position = target;
        }
        let length = match g.below_or(4) {
            0 => g.usize(0, 4),
            1 => g.usize(0, 64),
            2 => unit.min(1 << 16) as usize,
            3 => g.usize(0, (3 * unit).min(1 << 17) as usize),
            _ => (near(g, size, unit, marks).saturating_sub(position)).min(1 << 17) as usize,
        };
        read_and_compare(what, stream, model, &mut position, length)?;
    }
    Ok(())
}

fn read_and_compare(what: &str, stream: &mut dyn DataStream, model: &Sparse, position: &mut u64, length: usize) -> CaseResult {
    let want = model.get(*position, length);
    let mut buffer = vec![0xaau8; length];
    match stream.read(&mut buffer) {
        Ok(count) => {
            check_eq!(count, want.len(), "{}: count of a read of {} at {} of {}", what, length, position, model.size);
            check!(buffer[..count] == want[..], "{}: {} bytes at {} of {}: {}", what, length, position, model.size, difference(&buffer[..count], &want));
            check!(buffer[count..].iter().all(|b| *b == 0xaa), "{}: a read of {} at {} wrote more than it returned", what, length, position);
            *position += count as u64;
        }
        Err(e) => return fail(format!("{}: read of {} at {} of {}: {}", what, length, position, model.size, e.to_string())),
    }
    Ok(())
}

/// Reads all of a stream from the start in pieces.
pub fn check_all(what: &str, stream: &mut dyn DataStream, model: &Sparse, piece: usize) -> CaseResult {
    let mut position = match stream.seek(SeekFrom::Start(0)) {
        Ok(p) => p,
        Err(e) => return fail(format!("{}: seek: {}", what, e.to_string())),
    };
    check_eq!(position, 0, "{}: seek to the start", what);
    while position < model.size {
        read_and_compare(what, stream, model, &mut position, piece)?;
    }
    read_and_compare(what, stream, model, &mut position, 1)
}

/// Reads at some places of a stream for which nothing is expected but an end.
pub fn touch(g: &mut Gen, stream: &mut dyn DataStream) {
    let size = stream.get_size().unwrap_or(0);
    let n = g.usize(1, 4);
    for _ in 0..n {
        let offset = g.below_or(size);
        let length = g.usize(1, 9000);
        let mut buffer = vec![0; length];
        let _ = stream.read_at_position(&mut buffer, SeekFrom::Start(offset));
    }
    let mut buffer = vec![0; 4096];
    let _ = stream.read_at_position(&mut buffer, SeekFrom::Start(0));
}

/// Damages an image, mostly where its structures are.
pub fn damage(g: &mut Gen, image: &mut Sparse, hot: &[(u64, u64)]) {
    let n = g.usize(1, 3);
    for _ in 0..n {
        if image.size == 0 {
            return;
        }
        if g.chance(1, 12) {
            let size = if g.bool() { g.below_or(image.size) } else { image.size - g.below_or(image.size.min(600)) };
            image.truncate(size);
            g.class("cut off");
            continue;
        }
        let at = if hot.is_empty() || g.chance(1, 10) {
            g.below_or(image.size - 1)
        } else {
            let (start, size) = *g.pick(hot);
            start + g.below_or(size.max(1) - 1)
        };
        let at = if g.bool() { at & !3 } else { at };
        let old = image.get(at, 8);
        if old.len() < 8 {
            continue;
        }
        let mut new = old.clone();
        match g.below_or(7) {
            0 => new[0] ^= 1 << g.below_or(7),
            1 => new[0] = *g.pick(&[0u8, 0xff, 0x7f, 0x80]),
            2 => new[0] = g.u8(),
            3 => new[..2].copy_from_slice(&(g.edgy(16) as u16).to_le_bytes()),
            4 => new[..4].copy_from_slice(&(g.edgy(32) as u32).to_le_bytes()),
            5 => new[..4].copy_from_slice(&(g.edgy(32) as u32).to_be_bytes()),
            6 => new.copy_from_slice(&g.edgy(64).to_le_bytes()),
            _ => new.copy_from_slice(&g.edgy(64).to_be_bytes()),
        }
        image.poke(at, &new);
    }
}

/// CRC-32 (ISO 3309), bit by bit.
pub fn crc32(data: &[u8]) -> u32 {
    crc(data, 0xedb88320)
}

/// CRC-32C (Castagnoli), bit by bit.
pub fn crc32c(data: &[u8]) -> u32 {
    crc(data, 0x82f63b78)
}

fn crc(data: &[u8], polynomial: u32) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ polynomial } else { c >> 1 };
        }
    }
    !c
}

pub fn adler32(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}

/// Little-endian and big-endian fields of a structure.
pub trait Fields {
    fn set_le(&mut self, offset: usize, value: u64, size: usize);
    fn set_be(&mut self, offset: usize, value: u64, size: usize);
    fn at(&mut self, offset: usize, data: &[u8]);
}

impl Fields for [u8] {
    fn set_le(&mut self, offset: usize, value: u64, size: usize) {
        self[offset..offset + size].copy_from_slice(&value.to_le_bytes()[..size]);
    }
    fn set_be(&mut self, offset: usize, value: u64, size: usize) {
        self[offset..offset + size].copy_from_slice(&value.to_be_bytes()[8 - size..]);
    }
    fn at(&mut self, offset: usize, data: &[u8]) {
        self[offset..offset + data.len()].copy_from_slice(data);
    }
}

/// Files by name, that a file resolver finds.
#[derive(Clone)]
pub struct Folder {
    files: Vec<(String, Sparse)>,
}

impl Folder {
    pub fn of(files: Vec<(String, Sparse)>) -> Folder {
        Folder { files }
    }

    pub fn resolver(&self) -> FileResolverReference {
        FileResolverReference::new(Box::new(self.clone()))
    }
}

impl FileResolver for Folder {
    fn get_data_stream(&self, path: &[PathComponent]) -> Result<Option<DataStreamReference>, ErrorTrace> {
        let name = path.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("/");
        Ok(self.files.iter().find(|f| f.0 == name).map(|f| f.1.stream()))
    }
}

/// A number up to one of some bounds.
pub fn up_to(g: &mut Gen, bounds: &[u64]) -> u64 {
    let bound = *g.pick(bounds);
    g.below_or(bound)
}
