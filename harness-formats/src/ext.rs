//! Extended File System volumes: ext2, ext3 and ext4.

use crate::common::*;
use keramics_core::DataStream;
use keramics_datetime::{DateTime, PosixTime32, PosixTime64Ns};
use keramics_encodings::CharacterEncoding;
use keramics_formats::ext::{ExtFileEntry, ExtFileSystem, ExtPath};
use keramics_types::ByteString;
use pbt::*;
use std::collections::{BTreeMap, BTreeSet};

const COMPAT_JOURNAL: u32 = 0x4;
const COMPAT_DIR_INDEX: u32 = 0x20;
const COMPAT_SPARSE2: u32 = 0x200;
const INCOMPAT_FILETYPE: u32 = 0x2;
const INCOMPAT_EXTENTS: u32 = 0x40;
const INCOMPAT_64BIT: u32 = 0x80;
const INCOMPAT_FLEX: u32 = 0x200;
const INCOMPAT_SEED: u32 = 0x2000;
const INCOMPAT_INLINE: u32 = 0x8000;
const RO_SPARSE: u32 = 0x1;
const RO_LARGE_FILE: u32 = 0x2;
const RO_HUGE_FILE: u32 = 0x8;
const RO_CHECKSUMS: u32 = 0x400;

const INODE_INDEX: u32 = 0x1000;
const INODE_HUGE: u32 = 0x40000;
const INODE_EXTENTS: u32 = 0x80000;
const INODE_INLINE: u32 = 0x10000000;

const DIRECTORY: u16 = 0x4000;
const REGULAR: u16 = 0x8000;
const LINK: u16 = 0xa000;

/// CRC-32C without the final inversion, as the file system uses it.
fn crc(seed: u32, data: &[u8]) -> u32 {
    let mut c = seed;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0x82f63b78 } else { c >> 1 };
        }
    }
    c
}

/// What an inode holds.
#[derive(Default, Clone)]
struct Inode {
    mode: u16,
    owner: u32,
    group: u32,
    links: u16,
    /// Access, change, modification, creation and deletion.
    times: [(i32, u32); 5],
    size: u64,
    data: Sparse,
    target: Option<Vec<u8>>,
    device: Option<u16>,
    attributes: usize,
    extra: usize,
    entries: Option<BTreeMap<Vec<u8>, u32>>,
    generation: u32,
    /// Where it is.
    place: u64,
}

/// A run of blocks: where in the file, how many, where in the volume, and not initialized.
#[derive(Clone, Copy, Debug)]
struct Run {
    logical: u64,
    size: u64,
    physical: u64,
    hidden: bool,
}

struct Fs {
    image: Sparse,
    block: u64,
    blocks: u64,
    first: u64,
    per_group: u64,
    groups: u64,
    inodes_per_group: u64,
    inode_size: usize,
    revision: u32,
    compat: u32,
    incompat: u32,
    ro: u32,
    descriptor: usize,
    seed: u32,
    tables: Vec<u64>,
    used: BTreeMap<u64, u64>,
    last: u64,
    inodes: BTreeMap<u32, Inode>,
    hot: Vec<(u64, u64)>,
    label: Vec<u8>,
    mounted: Vec<u8>,
    mount_time: i32,
    write_time: i32,
    encoding: CharacterEncoding,
    budget: usize,
    large: bool,
    alone: bool,
    /// Where group descriptors are.
    descriptors: u64,
}

impl Fs {
    fn checksums(&self) -> bool {
        self.ro & RO_CHECKSUMS != 0
    }

    fn extents(&self) -> bool {
        self.incompat & INCOMPAT_EXTENTS != 0
    }

    fn has_super(&self, group: u64, backups: [u64; 2]) -> bool {
        if group == 0 {
            return true;
        }
        if self.compat & COMPAT_SPARSE2 != 0 {
            return backups.contains(&group);
        }
        if self.ro & RO_SPARSE == 0 || group == 1 {
            return true;
        }
        [3u64, 5, 7].iter().any(|p| {
            let mut n = *p;
            while n < group {
                n *= p;
            }
            n == group
        })
    }

    fn group_start(&self, group: u64) -> u64 {
        self.first + group * self.per_group
    }

    fn take(&mut self, start: u64, size: u64) -> bool {
        if size == 0 || start < self.first.max(1) || start.checked_add(size).is_none_or(|e| e > self.blocks) {
            return false;
        }
        if self.used.range(..start + size).next_back().is_some_and(|(_, end)| *end > start) {
            return false;
        }
        self.used.insert(start, start + size);
        true
    }

    /// Takes blocks that follow each other.
    fn run(&mut self, g: &mut Gen, size: u64) -> Option<u64> {
        if size > self.blocks {
            return None;
        }
        for _ in 0..12 {
            let at = match g.below_or(5) {
                0 | 1 => self.last,
                2 => self.first + g.below_or(200),
                3 => self.blocks.saturating_sub(size + g.below_or(3)),
                4 => self.last + g.below_or(5),
                _ => g.below_or(self.blocks - size),
            };
            if self.take(at, size) {
                self.last = at + size;
                return Some(at);
            }
        }
        // The first gap.
        let mut at = self.first.max(1);
        let taken: Vec<(u64, u64)> = self.used.iter().map(|(a, b)| (*a, *b)).collect();
        for (start, end) in taken {
            if start >= at + size {
                break;
            }
            at = at.max(end);
        }
        self.take(at, size).then(|| {
            self.last = at + size;
            at
        })
    }

    fn write(&mut self, block: u64, data: &[u8]) {
        self.image.poke(block * self.block, data);
    }

    fn note_hot(&mut self, block: u64, size: u64) {
        self.hot.push((block * self.block, size));
    }

    /// The block numbers of runs, with blocks of block numbers.
    fn block_map(&mut self, g: &mut Gen, runs: &[Run], meta: &mut u64) -> Option<[u8; 60]> {
        let mut map = BTreeMap::new();
        for run in runs {
            for i in 0..run.size {
                map.insert(run.logical + i, (run.physical + i) as u32);
            }
        }
        let mut out = [0u8; 60];
        for (l, p) in map.range(..12) {
            out.set_le(*l as usize * 4, *p as u64, 4);
        }
        let per = self.block / 4;
        let mut base = 12;
        for level in 1..=3u32 {
            let span = per.pow(level);
            let n = self.indirect(g, &map, base, level, meta)?;
            out.set_le(44 + level as usize * 4, n as u64, 4);
            base += span;
        }
        Some(out)
    }

    fn indirect(&mut self, g: &mut Gen, map: &BTreeMap<u64, u32>, base: u64, level: u32, meta: &mut u64) -> Option<u32> {
        let per = self.block / 4;
        let span = per.pow(level);
        if map.range(base..base + span).next().is_none() {
            return Some(0);
        }
        // Before the first block it refers to, when it can be.
        let (first, physical) = map.range(base..base + span).next().map(|(l, p)| (*l, *p as u64))?;
        let before = physical.saturating_sub(level.min(2) as u64);
        let at = if first == base && before >= self.first && g.chance(3, 4) && self.take(before, 1) { before } else { self.run(g, 1)? };
        if at > u32::MAX as u64 {
            return None;
        }
        *meta += 1;
        let mut data = vec![0u8; self.block as usize];
        if level == 1 {
            for (l, p) in map.range(base..base + span) {
                data.set_le((l - base) as usize * 4, *p as u64, 4);
            }
        } else {
            let step = span / per;
            let mut l = base;
            while let Some((next, _)) = map.range(l..base + span).next() {
                let index = (next - base) / step;
                let n = self.indirect(g, map, base + index * step, level - 1, meta)?;
                data.set_le(index as usize * 4, n as u64, 4);
                l = base + (index + 1) * step;
                if l >= base + span {
                    break;
                }
            }
            g.class_if(level == 3, "triple indirect blocks");
        }
        self.write(at, &data);
        self.note_hot(at, self.block.min(64));
        Some(at as u32)
    }

    /// The extents tree of runs.
    fn extents_tree(&mut self, g: &mut Gen, runs: &[Run], ino: u32, generation: u32, meta: &mut u64) -> Option<[u8; 60]> {
        let mut entries: Vec<(u64, [u8; 12])> = Vec::new();
        for run in runs {
            let mut done = 0;
            while done < run.size {
                let limit = if run.hidden { 32767 } else { 32768 };
                let left = run.size - done;
                let n = if left > limit && g.bool() {
                    limit
                } else if left > limit || (left > 1 && g.chance(1, 4)) {
                    g.range(1, left.min(limit)).max(if left > 4 * limit { limit } else { 1 })
                } else {
                    left
                };
                let mut e = [0u8; 12];
                e.set_le(0, run.logical + done, 4);
                e.set_le(4, n + if run.hidden { 32768 } else { 0 }, 2);
                e.set_le(6, (run.physical + done) >> 32, 2);
                e.set_le(8, (run.physical + done) & 0xffffffff, 4);
                entries.push((run.logical + done, e));
                done += n;
                g.class_if(n == 32768, "extent of 32768 blocks");
            }
        }
        let mut depth = 0u64;
        let maximum = (self.block - 16) / 12;
        while entries.len() > 4 || (depth < 5 && g.chance(1, 6)) {
            if depth == 5 {
                return None;
            }
            let mut up = Vec::new();
            let mut i = 0;
            while i < entries.len() || up.is_empty() {
                let left = entries.len() - i;
                // The levels above have to hold what is left.
                let low = if depth == 4 { left.div_ceil(4 - up.len().min(3)) } else if left > 12 { 4 } else { 1 };
                let n = if g.chance(1, 3) { maximum as usize } else { g.usize(low, (low + 6).max(low)) }.min(left).min(maximum as usize);
                let mut data = vec![0u8; self.block as usize];
                data.set_le(0, 0xf30a, 2);
                data.set_le(2, n as u64, 2);
                data.set_le(4, maximum, 2);
                data.set_le(6, depth, 2);
                data.set_le(8, g.below_or(1) * 77, 4);
                for (k, e) in entries[i..i + n].iter().enumerate() {
                    data.at(12 + k * 12, &e.1);
                }
                let tail = 12 + maximum as usize * 12;
                if self.checksums() && tail + 4 <= data.len() {
                    let c = crc(crc(crc(self.seed, &ino.to_le_bytes()), &generation.to_le_bytes()), &data[..tail]);
                    data.set_le(tail, c as u64, 4);
                }
                let at = self.run(g, 1)?;
                *meta += 1;
                self.write(at, &data);
                self.note_hot(at, 12 + n as u64 * 12);
                let mut e = [0u8; 12];
                let first = entries.get(i).map_or(0, |e| e.0);
                e.set_le(0, first, 4);
                e.set_le(4, at & 0xffffffff, 4);
                e.set_le(8, at >> 32, 2);
                e.set_le(10, g.below_or(1) * 0x1234, 2);
                up.push((first, e));
                i += n;
                if n == 0 {
                    break;
                }
            }
            entries = up;
            depth += 1;
        }
        g.class_if(depth > 0, "extents tree of more than one level");
        g.class_if(depth > 2, "extents tree of more than three levels");
        let mut out = [0u8; 60];
        out.set_le(0, 0xf30a, 2);
        out.set_le(2, entries.len() as u64, 2);
        out.set_le(4, 4, 2);
        out.set_le(6, depth, 2);
        for (k, e) in entries.iter().enumerate() {
            out.at(12 + k * 12, &e.1);
        }
        Some(out)
    }

    /// The data reference and flags of runs.
    fn reference(&mut self, g: &mut Gen, runs: &[Run], ino: u32, generation: u32, extents: bool, meta: &mut u64) -> Option<([u8; 60], u32)> {
        if extents {
            Some((self.extents_tree(g, runs, ino, generation, meta)?, INODE_EXTENTS))
        } else {
            Some((self.block_map(g, runs, meta)?, 0))
        }
    }

    fn new_inode(&mut self, g: &mut Gen) -> Option<u32> {
        let n = self.groups * self.inodes_per_group;
        for _ in 0..20 {
            let ino = match g.below_or(3) {
                0 => g.range(11, n.min(40)),
                1 => n - g.below_or(5.min(n - 11)),
                2 => (g.range(1, self.groups) * self.inodes_per_group + g.below_or(2)).clamp(11, n),
                _ => g.range(11, n),
            } as u32;
            if !self.inodes.contains_key(&ino) {
                self.inodes.insert(ino, Inode::default());
                return Some(ino);
            }
        }
        None
    }

    /// Writes an inode with what the model says, and some that only the volume knows.
    #[allow(clippy::too_many_arguments)]
    fn put_inode(&mut self, g: &mut Gen, ino: u32, mut inode: Inode, reference: [u8; 60], flags: u32, blocks: u64, tail: Option<Vec<u8>>) {
        let mut data = vec![0u8; self.inode_size];
        data.set_le(0, inode.mode as u64, 2);
        data.set_le(2, inode.owner as u64 & 0xffff, 2);
        data.set_le(120, inode.owner as u64 >> 16, 2);
        data.set_le(24, inode.group as u64 & 0xffff, 2);
        data.set_le(122, inode.group as u64 >> 16, 2);
        data.set_le(4, inode.size & 0xffffffff, 4);
        if inode.size >> 32 != 0 {
            data.set_le(108, inode.size >> 32, 4);
        }
        for (k, at) in [(0, 8), (1, 12), (2, 16), (4, 20)] {
            data.set_le(at, inode.times[k].0 as u32 as u64, 4);
        }
        data.set_le(26, inode.links as u64, 2);
        data.set_le(28, blocks & 0xffffffff, 4);
        let mut flags = flags;
        if g.chance(1, 6) {
            flags |= *g.pick(&[0x10u32, 0x80, 0x40, 0x4000, 0x20000]);
        }
        data.set_le(32, flags as u64, 4);
        data.at(40, &reference);
        data.set_le(100, inode.generation as u64, 4);
        if self.ro & RO_HUGE_FILE != 0 {
            data.set_le(116, blocks >> 32, 2);
        }
        if self.inode_size > 128 {
            let extra = inode.extra;
            data.set_le(128, extra as u64, 2);
            for (k, at, need) in [(1, 132, 8), (2, 136, 12), (0, 140, 16)] {
                if extra >= need {
                    data.set_le(at, inode.times[k].1 as u64, 4);
                }
            }
            if extra >= 24 {
                data.set_le(144, inode.times[3].0 as u32 as u64, 4);
                data.set_le(148, inode.times[3].1 as u64, 4);
            }
            let start = 128 + extra;
            // Attributes in the inode.
            let mut list: Vec<(u8, Vec<u8>, Vec<u8>)> = Vec::new();
            let room = (self.inode_size - start).saturating_sub(8);
            let mut used = 0;
            if let Some(tail) = &tail {
                used += 20 + tail.len().next_multiple_of(4);
                list.push((7, b"data".to_vec(), tail.clone()));
            }
            if g.chance(1, 3) {
                let n = g.usize(1, 3);
                for _ in 0..n {
                    let name_size = g.usize(0, 9);
                    let name: Vec<u8> = (0..name_size).map(|_| b'a' + g.below_or(25) as u8).collect();
                    let value_size = g.usize(0, 24);
                    let value = g.bytes(value_size);
                    let size = 16 + name.len().next_multiple_of(4) + value.len().next_multiple_of(4);
                    let index = *g.pick(&[1u8, 6, 4, 2, 3, 7, 8, 0, 9]);
                    // An entry that starts with four zero bytes is the end.
                    if used + size > room || (name.is_empty() && index == 0) || (index == 7 && name == b"data") {
                        continue;
                    }
                    used += size;
                    g.class_if(index == 9, "attribute of encryption");
                    list.push((index, name, value));
                }
                if g.bool() {
                    list.reverse();
                }
            }
            if !list.is_empty() {
                data.set_le(start, 0xea020000, 4);
                let mut at = start + 4;
                let mut end = self.inode_size;
                for (index, name, value) in &list {
                    end -= value.len().next_multiple_of(4);
                    let n = 16 + name.len().next_multiple_of(4);
                    data[at] = name.len() as u8;
                    data[at + 1] = *index;
                    data.set_le(at + 2, if value.is_empty() { 0 } else { end - start - 4 } as u64, 2);
                    data.set_le(at + 8, value.len() as u64, 4);
                    data.set_le(at + 12, g.u32() as u64, 4);
                    data.at(at + 16, name);
                    data.at(end, value);
                    at += n;
                }
                inode.attributes = list.len();
                g.class("attributes in the inode");
            }
        }
        if self.checksums() {
            let mut c = crc(crc(self.seed, &ino.to_le_bytes()), &inode.generation.to_le_bytes());
            let mut plain = data.clone();
            plain[124..126].fill(0);
            let wide = self.inode_size > 128 && inode.extra >= 4;
            if wide {
                plain[130..132].fill(0);
            }
            c = crc(c, &plain);
            data.set_le(124, c as u64 & 0xffff, 2);
            if wide {
                data.set_le(130, c as u64 >> 16, 2);
            }
            g.class_if(self.inode_size > 128 && !wide, "checksum of 16 bits in a large inode");
        }
        let group = (ino as u64 - 1) / self.inodes_per_group;
        let index = (ino as u64 - 1) % self.inodes_per_group;
        let at = self.tables[group as usize] * self.block + index * self.inode_size as u64;
        self.image.poke(at, &data);
        self.hot.push((at, 160.min(self.inode_size as u64)));
        inode.place = at;
        self.inodes.insert(ino, inode);
    }

    fn fresh(&self, g: &mut Gen, kind: u16) -> Inode {
        let mut inode = Inode { mode: kind | g.below_or(0xfff) as u16, ..Default::default() };
        inode.owner = g.edgy(32) as u32;
        inode.group = g.edgy(32) as u32;
        inode.links = g.edgy(16) as u16;
        inode.generation = g.u32();
        for time in inode.times.iter_mut() {
            let stamp = match g.below_or(7) {
                0 => 0,
                1 => g.edgy(32) as u32 as i32,
                2 => -(g.below_or(4000000) as i32),
                _ => g.range(1, 0x7fffffff) as i32,
            };
            let fraction = if g.chance(1, 3) { *g.pick(&[0u64, 1, 999999999]) } else { g.below_or(999999999) } as u32;
            let epoch = if g.chance(1, 4) { g.below_or(3) as u32 } else { 0 };
            *time = if stamp == 0 && epoch == 0 { (0, 0) } else { (stamp, fraction << 2 | epoch) };
            g.class_if(stamp < 0 && epoch == 0, "time before 1970");
            g.class_if(epoch > 0, "time after 2038");
        }
        if g.chance(3, 4) {
            inode.times[4] = (0, 0);
        }
        if self.inode_size > 128 {
            let most = self.inode_size - 128;
            inode.extra = if most >= 32 { *g.pick(&[32usize, 32, 32, 28, 28, 24, 4, 0, 8, 12, 16, 16]) } else { 0 };
        }
        inode
    }

    fn sectors(&self, g: &mut Gen, blocks: u64, flags: &mut u32) -> u64 {
        if self.ro & RO_HUGE_FILE != 0 && (g.chance(1, 10) || blocks * self.block / 512 > 0xffffffff) {
            *flags |= INODE_HUGE;
            return blocks;
        }
        blocks * (self.block / 512)
    }

    /// Free space of an inode for data behind its attributes header.
    fn inline_room(&self, inode: &Inode) -> Option<usize> {
        if self.incompat & INCOMPAT_INLINE == 0 || self.inode_size <= 128 {
            return None;
        }
        (self.inode_size - 128 - inode.extra).checked_sub(4 + 20 + 4)
    }

    fn file(&mut self, g: &mut Gen, ino: u32) -> Option<()> {
        let mut inode = self.fresh(g, REGULAR);
        if let Some(room) = self.inline_room(&inode) {
            if g.chance(1, 3) {
                let more = if g.chance(1, 2) { g.usize(0, room) } else { 0 };
                let size = if more > 0 { 60 + more } else { g.usize(0, 60) };
                let data = content(g, size);
                let mut reference = [0u8; 60];
                reference[..size.min(60)].copy_from_slice(&data[..size.min(60)]);
                inode.data = Sparse::of(data.clone());
                inode.size = size as u64;
                if size >= 60 && g.chance(1, 4) {
                    inode.size += if g.bool() { g.range(1, 300) } else { g.range(1, 1 << 21) };
                    inode.data.size = inode.size;
                    g.class("inline data that ends before the file does");
                }
                g.class_if(more > 0, "inline data in an attribute");
                g.class("inline data of a file");
                let tail = data.get(60..).unwrap_or(&[]).to_vec();
                self.put_inode(g, ino, inode, reference, INODE_INLINE, 0, Some(tail));
                return Some(());
            }
        }
        let extents = self.extents() && !g.chance(1, 8);
        let limit = if extents { 0xffff_0000u64 } else { self.limit_of_map() };
        let mut runs: Vec<Run> = Vec::new();
        let mut at = 0u64;
        let per = self.block / 4;
        let n = if g.chance(1, 8) { 0 } else if g.chance(1, 10) && extents { g.usize(5, 40) } else { g.usize(1, if extents { 4 } else { 6 }) };
        let mut total = 0;
        for _ in 0..n {
            match g.below_or(7) {
                0..=3 => {}
                4 => at += g.range(1, 20),
                5 => {
                    let marks = [12, 12 + per, 12 + per + per * per, 12 + 2 * per, 12 + per + per * per + 7 * per * per, 32768];
                    let to = g.pick(&marks).saturating_sub(g.below_or(2));
                    if to > at {
                        at = to;
                    }
                }
                6 => at += g.below_or(70000),
                _ => {
                    let part = if g.bool() { 1 } else { 1000 };
                    let to = g.below_or(limit / part);
                    if to > at && g.bool() {
                        at = to;
                    }
                }
            }
            let most = if extents { *g.pick(&[1u64, 3, 8, 40, 33000, 70000]) } else { *g.pick(&[1u64, 3, 8, 20, 300]) };
            let size = if most > 8000 && g.chance(1, 3) { *g.pick(&[32768u64, 32767, 32769, 65536]) } else { g.range(1, most) };
            let mut size = size.min(limit.saturating_sub(at));
            // Blocks of block numbers are often between the blocks they refer to, as their writers
            // allocate them on the way.
            let on_the_way = !extents && g.bool();
            let bound = [12, 12 + per, 12 + 2 * per, 12 + per + per * per].into_iter().find(|b| *b > at).unwrap_or(u64::MAX);
            if on_the_way && at + size > bound {
                size = bound - at;
            }
            if size == 0 {
                break;
            }
            let next = runs.last().map_or(0, |r| r.physical + r.size);
            let gap = if at == 12 + per { 2 } else { 1 };
            let follows = on_the_way && next > 0 && (at == 12 || at >= 12 + per && (at - 12) % per == 0);
            let physical = if follows && self.take(next + gap, size) {
                g.class("block of block numbers between blocks of data");
                self.last = next + gap + size;
                next + gap
            } else {
                let Some(physical) = self.run(g, size) else { break };
                physical
            };
            if !extents && physical + size > u32::MAX as u64 {
                break;
            }
            let hidden = extents && g.chance(1, 8);
            runs.push(Run { logical: at, size, physical, hidden });
            total += size;
            at += size;
        }
        let end = runs.last().map_or(0, |r| r.logical + r.size);
        inode.size = match g.below_or(9) {
            0 => end * self.block,
            1 => end * self.block + g.below_or(300000),
            2 => (end * self.block).saturating_sub(g.below_or(5 * self.block)),
            _ => (end * self.block).saturating_sub(g.below_or(self.block - 1)),
        };
        let wide = self.ro & RO_LARGE_FILE != 0;
        if !wide || self.revision == 0 {
            inode.size = inode.size.min(0x7fffffff);
        } else if !extents {
            inode.size = inode.size.min(limit * self.block);
        }
        g.class_if(inode.size > 0xffffffff, "file of 4 GiB and more");
        g.class_if(inode.size.div_ceil(self.block) < end, "blocks after the end of the file");
        g.class_if(inode.size > end * self.block && end > 0, "file that ends in a hole");
        for run in &runs {
            let k = if run.size <= 3 { run.size } else { g.range(1, 4) };
            for i in 0..k {
                let block = if run.size <= 3 { i } else { *g.pick(&[0, run.size - 1, run.size / 2, run.size - 2]) };
                let size = if g.chance(2, 3) { self.block.min(4096) } else { g.range(1, self.block.min(4096)) };
                let data = content(g, size as usize);
                self.write(run.physical + block, &data);
                if !run.hidden {
                    inode.data.put((run.logical + block) * self.block, &data);
                }
            }
            g.class_if(run.hidden, "blocks that are not initialized");
        }
        inode.data = inode.data.slice(0, inode.size);
        let mut meta = 0;
        let (reference, mut flags) = self.reference(g, &runs, ino, inode.generation, extents, &mut meta)?;
        let blocks = self.sectors(g, total + meta, &mut flags);
        g.class_if(extents, "file with extents");
        g.class_if(!extents && n > 0, "file with block numbers");
        self.put_inode(g, ino, inode, reference, flags, blocks, None);
        Some(())
    }

    fn limit_of_map(&self) -> u64 {
        let per = self.block / 4;
        (12 + per + per * per + per * per * per).min(0xffff_0000)
    }

    fn link(&mut self, g: &mut Gen, ino: u32) -> Option<()> {
        let mut inode = self.fresh(g, LINK);
        let most = self.block as usize - 1;
        let size = match g.below_or(5) {
            0 => g.usize(55, 64),
            1 => g.usize(60, most.min(4000)),
            2 => g.usize(1, 59),
            _ => g.usize(1, 30),
        };
        let target: Vec<u8> = (0..size).map(|_| if g.chance(1, 8) { b'/' } else { g.range(1, 255) as u8 }).collect();
        inode.size = size as u64;
        inode.target = Some(target.clone());
        let mut reference = [0u8; 60];
        if size < 60 {
            reference[..size].copy_from_slice(&target);
            let mut flags = 0;
            // A block of attributes counts as one of the file.
            let n = g.below_or(1);
            let blocks = self.sectors(g, n, &mut flags);
            g.class("symbolic link in the inode");
            self.put_inode(g, ino, inode, reference, flags, blocks, None);
            return Some(());
        }
        if let Some(room) = self.inline_room(&inode) {
            if size - 60 <= room && g.chance(3, 4) {
                reference.copy_from_slice(&target[..60]);
                g.class("symbolic link of inline data");
                self.put_inode(g, ino, inode, reference, INODE_INLINE, 0, Some(target[60..].to_vec()));
                return Some(());
            }
        }
        let at = self.run(g, 1)?;
        let extents = self.extents() && !g.chance(1, 8);
        if !extents && at > u32::MAX as u64 {
            return None;
        }
        self.write(at, &target);
        let mut meta = 0;
        let runs = [Run { logical: 0, size: 1, physical: at, hidden: false }];
        let (reference, mut flags) = self.reference(g, &runs, ino, inode.generation, extents, &mut meta)?;
        let blocks = self.sectors(g, 1 + meta, &mut flags);
        g.class("symbolic link in a block");
        self.put_inode(g, ino, inode, reference, flags, blocks, None);
        Some(())
    }

    fn special(&mut self, g: &mut Gen, ino: u32) -> Option<()> {
        let kind = *g.pick(&[0x1000u16, 0x2000, 0x6000, 0xc000]);
        let mut inode = self.fresh(g, kind);
        let mut reference = [0u8; 60];
        if kind == 0x2000 || kind == 0x6000 {
            let n = g.range(1, 0xffff) as u16;
            reference.set_le(0, n as u64, 2);
            inode.device = Some(n);
        }
        g.class("special file");
        self.put_inode(g, ino, inode, reference, 0, 0, None);
        Some(())
    }

    /// Entries that fill some space; what does not fit is left.
    fn fill(&self, g: &mut Gen, space: usize, left: &mut Vec<(Vec<u8>, u32, u8)>, start: Vec<(Vec<u8>, u32, u8)>) -> Vec<u8> {
        let mut records: Vec<(u32, Vec<u8>, u8, usize)> = Vec::new();
        let mut used = 0;
        for (name, ino, kind) in start {
            let size = 8 + name.len().next_multiple_of(4);
            records.push((ino, name, kind, size));
            used += size;
        }
        let stop = g.chance(1, 12);
        while let Some((name, ino, kind)) = left.last() {
            if stop && records.len() > 2 && g.chance(1, 4) {
                break;
            }
            if g.chance(1, 7) {
                // A name that was removed.
                let name: Vec<u8> = (0..g.usize(0, 12)).map(|_| g.range(0x20, 0x7e) as u8).collect();
                let size = 8 + name.len().next_multiple_of(4);
                if used + size <= space {
                    records.push((0, name, 1, size));
                    used += size;
                }
            }
            let need = 8 + name.len().next_multiple_of(4);
            if used + need > space {
                break;
            }
            let slack = if g.chance(1, 6) { (g.usize(0, 30) * 4).min(space - used - need) } else { 0 };
            records.push((*ino, name.clone(), *kind, need + slack));
            used += need + slack;
            left.pop();
        }
        if let Some(last) = records.last_mut() {
            last.3 += space - used;
        } else if space > 0 {
            records.push((0, Vec::new(), 0, space));
        }
        let mut out = vec![0u8; space];
        let mut at = 0;
        for (ino, name, kind, size) in &records {
            out.set_le(at, *ino as u64, 4);
            let stored = if *size == 65536 { if *ino == 0 && g.chance(1, 4) { 0 } else { 0xffff } } else { *size as u64 };
            g.class_if(*size == 65536, "directory entry of 64 KiB");
            out.set_le(at + 4, stored, 2);
            out[at + 6] = name.len() as u8;
            out[at + 7] = if self.incompat & INCOMPAT_FILETYPE != 0 { *kind } else { 0 };
            out.at(at + 8, name);
            // What older entries left behind.
            if *size > 8 + name.len() + 24 && g.chance(1, 4) {
                let junk = g.bytes(12);
                out.at(at + 8 + name.len().next_multiple_of(4), &junk);
            }
            at += size;
        }
        out
    }

    fn directory(&mut self, g: &mut Gen, ino: u32, parent: u32, depth: usize) -> Option<()> {
        let mut inode = self.fresh(g, DIRECTORY);
        inode.mode = DIRECTORY | inode.mode & 0xfff;
        let n = if depth == 0 { g.usize(0, 10) } else { g.usize(0, 5) };
        let many = g.chance(1, 12);
        let mut names: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
        let mut left: Vec<(Vec<u8>, u32, u8)> = Vec::new();
        for i in 0..if many { g.usize(30, 300) } else { n } {
            let name = file_name(g, many);
            if names.contains_key(&name) {
                continue;
            }
            let existing: Vec<u32> = self.inodes.iter().filter(|(_, i)| i.mode != 0 && i.mode & 0xf000 != DIRECTORY).map(|(n, _)| *n).collect();
            let child = if !existing.is_empty() && (i >= 10 || g.chance(1, 10) || self.budget == 0) {
                g.class("hard link");
                *g.pick(&existing)
            } else {
                if self.budget == 0 {
                    continue;
                }
                self.budget -= 1;
                let Some(child) = self.new_inode(g) else { continue };
                let done = match g.below_or(9) {
                    0..=4 => self.file(g, child),
                    5 => self.link(g, child),
                    6 => self.special(g, child),
                    _ if depth < 3 => self.directory(g, child, ino, depth + 1),
                    _ => self.file(g, child),
                };
                if done.is_none() {
                    self.inodes.remove(&child);
                    continue;
                }
                child
            };
            let kind = match self.inodes[&child].mode & 0xf000 {
                0x1000 => 5,
                0x2000 => 3,
                0x4000 => 2,
                0x6000 => 4,
                0x8000 => 1,
                0xa000 => 7,
                _ => 6,
            };
            left.push((name.clone(), child, kind));
            names.insert(name, child);
        }
        inode.entries = Some(names);
        let minimum: usize = left.iter().map(|e| 8 + e.0.len().next_multiple_of(4)).sum();
        if let Some(room) = self.inline_room(&inode) {
            if minimum <= 56 + room / 2 && g.chance(1, 2) {
                let mut left2 = left.clone();
                let mut reference = [0u8; 60];
                reference.set_le(0, parent as u64, 4);
                let first = self.fill(g, 56, &mut left2, Vec::new());
                reference.at(4, &first);
                let mut tail = Vec::new();
                if !left2.is_empty() || (room >= 12 && g.chance(1, 4)) {
                    let need: usize = left2.iter().map(|e| 8 + e.0.len().next_multiple_of(4)).sum();
                    let space = g.usize(need.max(12), room.max(need.max(12))) & !3;
                    if space >= need.max(12) && space <= room {
                        tail = self.fill(g, space, &mut left2, Vec::new());
                    }
                }
                if left2.is_empty() {
                    g.class("inline data of a directory");
                    g.class_if(!tail.is_empty(), "directory with entries in an attribute");
                    inode.size = 60 + tail.len() as u64;
                    self.put_inode(g, ino, inode, reference, INODE_INLINE, 0, Some(tail));
                    return Some(());
                }
            }
        }
        let space = self.block as usize;
        let tail = if self.checksums() { 12 } else { 0 };
        let index = self.compat & COMPAT_DIR_INDEX != 0 && g.chance(1, 2);
        let mut blocks: Vec<Vec<u8>> = Vec::new();
        let dots = vec![(b".".to_vec(), ino, 2u8), (b"..".to_vec(), parent, 2)];
        let seal = |fs: &Fs, mut block: Vec<u8>, generation: u32| -> Vec<u8> {
            if tail > 0 {
                let c = crc(crc(crc(fs.seed, &ino.to_le_bytes()), &generation.to_le_bytes()), &block);
                let mut end = [0u8; 12];
                end.set_le(4, 12, 2);
                end[7] = 0xde;
                end.set_le(8, c as u64, 4);
                block.extend_from_slice(&end);
            }
            block
        };
        if index {
            let mut root = self.fill(g, space, &mut Vec::new(), dots);
            root.set_le(24, 0, 4);
            root[28] = 1;
            root[29] = 8;
            let levels = g.below_or(1);
            root[30] = levels as u8;
            root.set_le(32, 120, 2);
            root.set_le(34, 2, 2);
            root.set_le(36, 1, 4);
            root.set_le(40, g.u32() as u64, 4);
            root.set_le(44, 2, 4);
            blocks.push(root);
            if levels > 0 {
                let mut node = vec![0u8; space];
                node.set_le(4, if space == 65536 { 0xffff } else { space as u64 }, 2);
                node.set_le(8, 0x00010078, 4);
                node.set_le(12, g.u64(), 8);
                blocks.push(node);
            }
            g.class("hash-indexed directory");
        } else if space <= 2048 && g.chance(1, 40) {
            // Many blocks of which the entries were removed.
            let block = self.fill(g, space - tail, &mut Vec::new(), dots);
            blocks.push(seal(self, block, inode.generation));
            for _ in 0..g.usize(250, 300) {
                let block = self.fill(g, space - tail, &mut Vec::new(), Vec::new());
                blocks.push(seal(self, block, inode.generation));
            }
            g.class("directory of more than 250 blocks");
        } else {
            let block = self.fill(g, space - tail, &mut left, dots);
            blocks.push(seal(self, block, inode.generation));
        }
        let limit = blocks.len() + 40;
        while !left.is_empty() || g.chance(1, 12) {
            let mut none = Vec::new();
            let from = if g.chance(1, 10) { &mut none } else { &mut left };
            let block = self.fill(g, space - tail, from, Vec::new());
            blocks.push(seal(self, block, inode.generation));
            if blocks.len() > limit {
                return None;
            }
        }
        g.class_if(blocks.len() > 1, "directory of more than one block");
        let extents = self.extents() && !g.chance(1, 8);
        let mut runs: Vec<Run> = Vec::new();
        let (mut at, mut holes) = (0u64, 0u64);
        while at < blocks.len() as u64 {
            let size = if g.bool() { blocks.len() as u64 - at } else { g.range(1, blocks.len() as u64 - at) };
            let physical = self.run(g, size)?;
            if !extents && physical + size > u32::MAX as u64 {
                return None;
            }
            // Blocks without entries that are not stored.
            if !index && g.chance(1, 8) {
                holes += g.range(1, 3);
            }
            runs.push(Run { logical: at + holes, size, physical, hidden: false });
            for i in 0..size {
                self.write(physical + i, &blocks[(at + i) as usize]);
            }
            self.note_hot(physical, 80);
            at += size;
        }
        g.class_if(holes > 0, "directory with blocks that are not stored");
        inode.size = (blocks.len() as u64 + holes) * self.block;
        let mut meta = 0;
        let (reference, mut flags) = self.reference(g, &runs, ino, inode.generation, extents, &mut meta)?;
        if index {
            flags |= INODE_INDEX;
        }
        let total = self.sectors(g, blocks.len() as u64 + meta, &mut flags);
        self.put_inode(g, ino, inode, reference, flags, total, None);
        Some(())
    }
}

fn file_name(g: &mut Gen, many: bool) -> Vec<u8> {
    let size = match g.below_or(9) {
        0 => g.usize(200, 255),
        1 => g.usize(20, 60),
        2 => g.usize(1, 3),
        _ => g.usize(1, 14),
    };
    let size = if many { size.min(20) } else { size };
    let mut name: Vec<u8> = match g.below_or(4) {
        0 => (0..size)
            .map(|_| match g.u8() {
                0 => b'a',
                b'/' => b'b',
                c => c,
            })
            .collect(),
        1 => "äж€😀ßé漢字".chars().cycle().skip(g.usize(0, 7)).take(size.div_ceil(4)).collect::<String>().into_bytes(),
        _ => (0..size).map(|_| *g.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._- ~$\\:")).collect(),
    };
    if name == b"." || name == b".." {
        name.push(b'c');
    }
    name
}

fn volume(g: &mut Gen, large: bool, checked: bool) -> Option<Fs> {
    let shift = if large { g.range(5, 6) } else { *g.pick(&[0u64, 0, 0, 0, 1, 1, 2, 2, 2, 3, 4, 5, 6, 6]) };
    let block = 1024u64 << shift;
    let style = if large || checked { 3 } else { g.below_or(5) };
    let (mut compat, mut incompat, mut ro) = (0u32, 0u32, 0u32);
    let mut alone = false;
    let revision = if style == 0 { 0 } else { 1 };
    if style > 0 {
        if g.chance(3, 4) {
            incompat |= INCOMPAT_FILETYPE;
        }
        if g.chance(2, 3) {
            ro |= RO_SPARSE;
        }
        if g.chance(2, 3) {
            ro |= RO_LARGE_FILE;
        }
        if g.bool() {
            compat |= COMPAT_DIR_INDEX;
        }
        if g.chance(1, 3) {
            compat |= 0x8 | 0x1;
        }
    }
    if style >= 2 && g.chance(3, 4) {
        compat |= COMPAT_JOURNAL;
    }
    if style >= 3 {
        incompat |= INCOMPAT_EXTENTS;
        for (flag, n, d) in [(INCOMPAT_64BIT, 1, 2), (INCOMPAT_FLEX, 1, 2), (INCOMPAT_INLINE, 1, 2), (0x400, 1, 8), (0x10000, 1, 10), (0x20000, 1, 10), (0x4, 1, 10)] {
            if g.chance(n, d) {
                incompat |= flag;
            }
        }
        for (flag, n, d) in [(RO_LARGE_FILE, 3, 4), (RO_HUGE_FILE, 1, 2), (0x20, 1, 2), (0x40, 1, 2), (0x100, 1, 8)] {
            if g.chance(n, d) {
                ro |= flag;
            }
        }
        if g.chance(1, 4) {
            compat |= COMPAT_SPARSE2;
        }
        if checked || g.chance(1, 2) {
            ro |= RO_CHECKSUMS;
            if g.chance(1, 2) {
                incompat |= INCOMPAT_SEED;
            }
        } else if g.chance(1, 3) {
            ro |= 0x10;
        }
    }
    if style == 2 && g.chance(1, 4) {
        // Features that only ext4 has, each on its own.
        match g.below_or(4) {
            0 => ro |= RO_CHECKSUMS,
            1 => incompat |= *g.pick(&[0x20000u32, 0x400, 0x10000]),
            2 => ro |= *g.pick(&[0x20u32, 0x40, 0x100, RO_HUGE_FILE]),
            3 => compat |= COMPAT_SPARSE2,
            _ => incompat |= INCOMPAT_FLEX,
        }
        alone = true;
        g.class("a feature of ext4, and block numbers");
    }
    if large {
        incompat |= INCOMPAT_64BIT | INCOMPAT_FLEX;
        ro |= RO_LARGE_FILE | RO_HUGE_FILE | RO_SPARSE;
        compat &= !COMPAT_SPARSE2;
    }
    let inode_size = if revision == 0 {
        128
    } else {
        (128usize << *g.pick(&[0usize, 1, 1, 1, 2, 3, 4])).min(block as usize)
    };
    let descriptor = if incompat & INCOMPAT_64BIT != 0 { *g.pick(&[64usize, 64, 64, 64, 128]) } else { 32 };
    let first = if block == 1024 { 1 } else { 0 };
    let per_group = if large { 8 * block } else { (*g.pick(&[256u64, 256, 264, 512, 1024, 8 * block, 8 * block])).min(8 * block) };
    let groups = if large {
        (1u64 << 32) / per_group + g.range(1, 300)
    } else {
        match g.below_or(4) {
            0 => 1,
            1 => g.range(2, 4),
            2 => g.range(1, 60),
            _ => g.range(1, 12),
        }
    };
    let per_block = (block / inode_size as u64).max(1);
    let most = (per_group / 4 * per_block).min(8 * block);
    let mut inodes_per_group = (g.range(1, 8) * per_block.max(8)).min(most).max(8) & !7;
    if groups * inodes_per_group < 32 {
        inodes_per_group = 32;
    }
    // A last group needs its tables.
    let last_size = if g.chance(1, 3) { per_group } else { g.range(per_group * 2 / 3, per_group) };
    let extra = if g.chance(1, 6) && per_group == 8 * block { 0 } else { 0 };
    let blocks = first + (groups - 1) * per_group + last_size + extra;
    let mut fs = Fs {
        image: Sparse::new(blocks * block),
        block,
        blocks,
        first,
        per_group,
        groups,
        inodes_per_group,
        inode_size,
        revision,
        compat,
        incompat,
        ro,
        descriptor,
        seed: 0,
        tables: Vec::new(),
        used: BTreeMap::new(),
        last: first,
        inodes: BTreeMap::new(),
        hot: Vec::new(),
        label: Vec::new(),
        mounted: Vec::new(),
        mount_time: 0,
        write_time: 0,
        encoding: CharacterEncoding::Utf8,
        budget: g.usize(0, 24),
        large,
        alone,
        descriptors: 0,
    };
    g.class_if(block == 65536, "blocks of 64 KiB");
    g.class_if(last_size == per_group, "last block group is full");
    g.class_if(revision == 0, "format revision 0");
    g.class_if(fs.checksums(), "metadata checksums");
    g.class_if(groups > 3, "more than three block groups");
    let mut identifier = [0u8; 16];
    identifier.copy_from_slice(&g.bytes(16));
    let stored_seed = g.u32();
    fs.seed = if incompat & INCOMPAT_SEED != 0 { stored_seed } else { crc(!0, &identifier) };
    let backups = if groups > 1 { [1u64.min(groups - 1), if g.bool() { groups - 1 } else { 0 }] } else { [0, 0] };
    let table_blocks = (groups * descriptor as u64).div_ceil(block);
    let reserved = g.below_or(3);
    let mut with_super = Vec::new();
    for group in 0..groups {
        if fs.has_super(group, backups) {
            let start = fs.group_start(group);
            if !fs.take(start.max(if block > 1024 && group == 0 { 0 } else { 1 }), 1) && !(group == 0 && start == 0) {
                return None;
            }
            if group == 0 && start == 0 {
                fs.used.insert(0, 1);
            }
            if !fs.take(start + 1, table_blocks + reserved) {
                return None;
            }
            with_super.push(group);
        }
    }
    fs.descriptors = (first + 1) * block;
    let inode_blocks = (inodes_per_group * inode_size as u64).div_ceil(block);
    let mut table = vec![0u8; (groups * descriptor as u64) as usize];
    for group in 0..groups {
        let mut place = [0u64; 3];
        for (k, size) in [1, 1, inode_blocks].into_iter().enumerate() {
            let at = if incompat & INCOMPAT_FLEX != 0 && (!large || g.chance(1, 20)) {
                fs.run(g, size)?
            } else {
                let start = fs.group_start(group);
                let end = (start + per_group).min(blocks);
                let mut at = start + if k == 2 { g.below_or(3) } else { 0 };
                loop {
                    if at + size > end {
                        return None;
                    }
                    if fs.take(at, size) {
                        break at;
                    }
                    at += 1;
                }
            };
            place[k] = at;
        }
        let e = &mut table[group as usize * descriptor..(group as usize + 1) * descriptor];
        for (k, at) in place.iter().enumerate() {
            e.set_le(k * 4, at & 0xffffffff, 4);
            if descriptor >= 64 {
                e.set_le(32 + k * 4, at >> 32, 4);
            }
        }
        if !large {
            e.set_le(12, g.u32() as u64, 4);
            e.set_le(16, g.below_or(9), 2);
        }
        if style >= 3 {
            e.set_le(18, g.below_or(7), 2);
            e.set_le(28, g.below_or(5), 2);
        }
        if fs.checksums() {
            let c = crc(crc(fs.seed, &(group as u32).to_le_bytes()), e);
            e.set_le(30, c as u64 & 0xffff, 2);
        } else if ro & 0x10 != 0 {
            e.set_le(30, g.u16() as u64, 2);
        }
        fs.tables.push(place[2]);
    }
    let mut sb = [0u8; 1024];
    sb.set_le(0, groups * inodes_per_group, 4);
    sb.set_le(4, blocks & 0xffffffff, 4);
    sb.set_le(20, first, 4);
    sb.set_le(24, shift, 4);
    sb.set_le(28, shift, 4);
    sb.set_le(32, per_group, 4);
    sb.set_le(36, per_group, 4);
    sb.set_le(40, inodes_per_group, 4);
    fs.mount_time = if g.chance(1, 3) { 0 } else { g.range(1, 0x7fffffff) as i32 };
    fs.write_time = if g.chance(1, 3) { 0 } else { g.range(1, 0x7fffffff) as i32 };
    sb.set_le(44, fs.mount_time as u64, 4);
    sb.set_le(48, fs.write_time as u64, 4);
    sb.set_le(56, 0xef53, 2);
    sb.set_le(58, 1, 2);
    sb.set_le(76, revision as u64, 4);
    if revision > 0 {
        sb.set_le(84, 11, 4);
        sb.set_le(88, inode_size as u64, 2);
        sb.set_le(92, compat as u64, 4);
        sb.set_le(96, incompat as u64, 4);
        sb.set_le(100, ro as u64, 4);
        sb.at(104, &identifier);
        let size = *g.pick(&[0usize, 3, 8, 15, 16]);
        fs.label = (0..size).map(|_| g.range(0x21, 0x7e) as u8).collect();
        sb.at(120, &fs.label.clone());
        let size = *g.pick(&[0usize, 3, 30, 63, 64]);
        fs.mounted = (0..size).map(|_| g.range(0x21, 0x7e) as u8).collect();
        sb.at(136, &fs.mounted.clone());
        if style >= 2 {
            sb.at(208, &g.bytes(16));
            sb.set_le(224, 8, 4);
            sb.set_le(264, g.u32() as u64, 4);
        }
        if incompat & INCOMPAT_64BIT != 0 {
            sb.set_le(254, descriptor as u64, 2);
            sb.set_le(336, blocks >> 32, 4);
        } else if g.bool() {
            sb.set_le(254, 32, 2);
        }
        if incompat & INCOMPAT_FLEX != 0 {
            sb[372] = *g.pick(&[4u8, 4, 1, 8, 15, 16, 31]);
        }
        if fs.checksums() {
            sb[373] = 1;
        }
        if compat & COMPAT_SPARSE2 != 0 {
            sb.set_le(588, backups[0], 4);
            sb.set_le(592, backups[1], 4);
        }
        if incompat & INCOMPAT_SEED != 0 {
            sb.set_le(624, stored_seed as u64, 4);
        }
    }
    if g.chance(1, 4) {
        fs.encoding = g.pick(&[CharacterEncoding::Iso8859_1, CharacterEncoding::Windows1252, CharacterEncoding::Ascii]).clone();
        g.class("names in another encoding");
    }
    let seal = |sb: &mut [u8; 1024]| {
        if ro & RO_CHECKSUMS != 0 {
            let c = crc(!0, &sb[..1020]);
            sb.set_le(1020, c as u64, 4);
        }
    };
    for group in &with_super {
        if *group == 0 {
            continue;
        }
        let start = fs.group_start(*group);
        let mode = if large { 3 } else { g.below_or(3) };
        match mode {
            0 => {
                let mut copy = sb;
                copy.set_le(90, *group, 2);
                seal(&mut copy);
                fs.write(start, &copy);
                fs.write(start + 1, &table.clone());
            }
            1 => {
                // Written when the volume was smaller.
                let mut copy = sb;
                copy.set_le(90, *group, 2);
                copy.set_le(4, blocks / 2, 4);
                copy.set_le(12, 9, 4);
                seal(&mut copy);
                fs.write(start, &copy);
                let mut old = table.clone();
                for e in old.chunks_mut(descriptor) {
                    e.set_le(12, 77, 2);
                }
                fs.write(start + 1, &old);
                g.class("backup that differs");
            }
            2 => {
                let junk = g.bytes(1024);
                fs.write(start, &junk);
                let n = (table.len()).min(4096);
                let junk = g.bytes(n);
                fs.write(start + 1, &junk);
                g.class("remnant data in place of a backup");
            }
            _ => {}
        }
    }
    seal(&mut sb);
    if g.chance(1, 3) {
        let junk = g.bytes(1024);
        fs.image.poke(0, &junk);
    }
    fs.image.poke(1024, &sb);
    fs.image.poke(fs.descriptors, &table);
    fs.hot.push((1024, 136));
    fs.hot.push((1024 + 254, 12));
    fs.hot.push((1024 + 336, 40));
    fs.hot.push((fs.descriptors, table.len().min(128) as u64));
    fs.inodes.insert(2, Inode::default());
    fs.directory(g, 2, 2, 0)?;
    Some(fs)
}

fn text(fs: &Fs, elements: &[u8]) -> ByteString {
    ByteString { encoding: fs.encoding.clone(), elements: elements.to_vec() }
}

fn time(inode: &Inode, k: usize, need: usize) -> DateTime {
    let (stamp, extra) = inode.times[k];
    if inode.extra >= need && need > 0 {
        let seconds = stamp as i64 + ((extra as i64 & 3) << 32);
        if seconds == 0 {
            DateTime::NotSet
        } else {
            DateTime::PosixTime64Ns(PosixTime64Ns::new(seconds, extra >> 2))
        }
    } else if stamp == 0 {
        DateTime::NotSet
    } else {
        DateTime::PosixTime32(PosixTime32::new(stamp))
    }
}

fn check_entry(g: &mut Gen, fs: &Fs, what: &str, entry: &mut ExtFileEntry, ino: u32, name: Option<&[u8]>, deep: bool) -> CaseResult {
    let inode = &fs.inodes[&ino];
    check_eq!(entry.inode_number, ino, "{}: inode", what);
    check_eq!(entry.get_name().cloned(), name.map(|n| text(fs, n)), "{}: name", what);
    check_eq!(entry.is_root_directory(), ino == 2, "{}: is the root directory", what);
    check_eq!(entry.get_file_mode(), inode.mode, "{}: mode", what);
    check_eq!(entry.get_owner_identifier(), inode.owner, "{}: owner", what);
    check_eq!(entry.get_group_identifier(), inode.group, "{}: group", what);
    check_eq!(entry.get_number_of_links(), inode.links, "{}: links", what);
    check_eq!(entry.is_directory(), inode.entries.is_some(), "{}: is a directory", what);
    let kind = inode.mode & 0xf000;
    check_eq!(entry.get_size(), if kind == REGULAR || kind == LINK { inode.size } else { 0 }, "{}: size", what);
    check_eq!(entry.get_access_time(), Some(&time(inode, 0, 16)), "{}: access time", what);
    check_eq!(entry.get_change_time(), Some(&time(inode, 1, 8)), "{}: change time", what);
    check_eq!(entry.get_modification_time(), Some(&time(inode, 2, 12)), "{}: modification time", what);
    check_eq!(entry.get_deletion_time(), &time(inode, 4, 0), "{}: deletion time", what);
    let creation = (inode.extra >= 24).then(|| time(inode, 3, 24)).filter(|t| *t != DateTime::NotSet);
    check_eq!(entry.get_creation_time(), creation.as_ref(), "{}: creation time", what);
    match entry.get_number_of_attributes() {
        Ok(n) => check_eq!(n, inode.attributes, "{}: attributes", what),
        Err(e) => return fail(format!("{}: attributes: {}", what, e.to_string())),
    }
    match entry.get_device_identifier() {
        Ok(n) => check_eq!(n, inode.device, "{}: device", what),
        Err(e) => return fail(format!("{}: device: {}", what, e.to_string())),
    }
    match entry.get_symbolic_link_target() {
        Ok(t) => check_eq!(t.cloned(), inode.target.as_ref().map(|t| text(fs, t)), "{}: target", what),
        Err(e) => return fail(format!("{}: target: {}", what, e.to_string())),
    }
    let stream = match entry.get_data_stream() {
        Ok(s) => s,
        Err(e) => return fail(format!("{}: data stream: {}", what, e.to_string())),
    };
    check_eq!(stream.is_some(), kind == REGULAR, "{}: data stream", what);
    if let Some(stream) = stream {
        let mut stream = stream.write().unwrap();
        let stream: &mut dyn DataStream = &mut *stream;
        let marks: Vec<u64> = inode.data.extents.iter().map(|e| e.0).collect();
        check_stream(g, what, stream, &inode.data, fs.block, &marks)?;
        if deep {
            for (at, data) in &inode.data.extents {
                let want = inode.data.get(*at, data.len());
                let mut got = vec![0xa5; want.len()];
                match stream.read_exact_at_position(&mut got, std::io::SeekFrom::Start(*at)) {
                    Ok(_) => check!(got == want, "{}: at {}: {}", what, at, difference(&got, &want)),
                    Err(e) => return fail(format!("{}: {} bytes at {}: {}", what, want.len(), at, e.to_string())),
                }
            }
            if inode.size <= 400000 {
                check_all(what, stream, &inode.data, *g.pick(&[4096usize, 65536, 1000]))?;
            }
        }
    }
    if inode.entries.is_none() {
        match entry.get_number_of_sub_file_entries() {
            Ok(n) => check_eq!(n, 0, "{}: entries of a file", what),
            Err(e) => return fail(format!("{}: entries of a file: {}", what, e.to_string())),
        }
    }
    Ok(())
}

fn shown(name: &[u8]) -> String {
    String::from_utf8_lossy(&name[..name.len().min(16)]).into_owned()
}

fn check_name(g: &mut Gen, fs: &Fs, what: &str, directory: &mut ExtFileEntry, name: &[u8], ino: u32) -> CaseResult {
    let mut wanted = text(fs, name);
    if fs.encoding != CharacterEncoding::Utf8 && name.iter().all(|b| *b < 128) && g.bool() {
        wanted.encoding = CharacterEncoding::Utf8;
    }
    match directory.get_sub_file_entry_by_name(&wanted) {
        Ok(Some(mut e)) => check_entry(g, fs, &format!("{}: by name {}", what, shown(name)), &mut e, ino, Some(name), false),
        Ok(None) => fail(format!("{}: {} is not found", what, shown(name))),
        Err(e) => fail(format!("{}: {}: {}", what, shown(name), e.to_string())),
    }
}

fn check_directory(g: &mut Gen, fs: &Fs, what: &str, directory: &mut ExtFileEntry, ino: u32, system: &ExtFileSystem, path: &[ByteString]) -> CaseResult {
    let Some(entries) = &fs.inodes[&ino].entries else { return Ok(()) };
    let list: Vec<(&Vec<u8>, u32)> = entries.iter().map(|(n, i)| (n, *i)).collect();
    if g.chance(1, 3) && !list.is_empty() {
        let (name, child) = g.pick(&list);
        check_name(g, fs, what, directory, name, *child)?;
    }
    let n = match directory.get_number_of_sub_file_entries() {
        Ok(n) => n,
        Err(e) => return fail(format!("{}: number of entries: {}", what, e.to_string())),
    };
    check_eq!(n, list.len(), "{}: number of entries", what);
    let mut seen = BTreeSet::new();
    for i in 0..n {
        if n > 40 && !g.chance(40, n as u64) {
            continue;
        }
        let mut entry = match directory.get_sub_file_entry_by_index(i) {
            Ok(e) => e,
            Err(e) => return fail(format!("{}: entry {}: {}", what, i, e.to_string())),
        };
        let Some(name) = entry.get_name().map(|n| n.elements.clone()) else { return fail(format!("{}: entry {} has no name", what, i)) };
        let Some(child) = entries.get(&name) else {
            return fail(format!("{}: entry {} with name {} is none of those that were written", what, i, shown(&name)));
        };
        check!(seen.insert(name.clone()), "{}: entry {} comes twice", what, i);
        let label = format!("{}/{}", what, shown(&name));
        check_entry(g, fs, &label, &mut entry, *child, Some(&name), true)?;
        if fs.inodes[child].entries.is_some() {
            let mut path = path.to_vec();
            path.push(text(fs, &name));
            check_directory(g, fs, &label, &mut entry, *child, system, &path)?;
        }
    }
    check!(directory.get_sub_file_entry_by_index(n).is_err(), "{}: entry {} of {}", what, n, n);
    for (name, child) in &list {
        if list.len() > 40 && !g.chance(30, list.len() as u64) {
            continue;
        }
        if g.chance(1, 2) {
            check_name(g, fs, what, directory, name, *child)?;
        }
        if g.chance(1, 2) {
            match system.get_file_entry_by_identifier(*child) {
                Ok(mut e) => {
                    check_entry(g, fs, &format!("{}: inode {}", what, child), &mut e, *child, None, false)?;
                    if let Some(entries) = &fs.inodes[child].entries {
                        match e.get_number_of_sub_file_entries() {
                            Ok(n) => check_eq!(n, entries.len(), "{}: entries of inode {}", what, child),
                            Err(e) => return fail(format!("{}: entries of inode {}: {}", what, child, e.to_string())),
                        }
                    }
                }
                Err(e) => return fail(format!("{}: inode {}: {}", what, child, e.to_string())),
            }
        }
        if g.chance(1, 3) {
            let mut components = vec![ByteString::new()];
            components.extend_from_slice(path);
            components.push(text(fs, name));
            let mut full = ExtPath { components };
            match system.get_file_entry_by_path(&full) {
                Ok(Some(mut e)) => check_entry(g, fs, &format!("{}: by path", what), &mut e, *child, Some(name), false)?,
                Ok(None) => return fail(format!("{}: {} is not found by its path", what, shown(name))),
                Err(e) => return fail(format!("{}: by path: {}", what, e.to_string())),
            }
            let relative = ExtPath { components: if g.bool() { full.components[1..].to_vec() } else { Vec::new() } };
            match system.get_file_entry_by_path(&relative) {
                Ok(found) => check!(found.is_none(), "{}: a path that does not start at the root directory is found", what),
                Err(e) => return fail(format!("{}: by a path that does not start at the root directory: {}", what, e.to_string())),
            }
            full.push(text(fs, b"no such"));
            let there = fs.inodes[child].entries.as_ref().is_some_and(|e| e.contains_key(b"no such".as_slice()));
            match system.get_file_entry_by_path(&full) {
                Ok(found) => check_eq!(found.is_some(), there, "{}: a path that is not there", what),
                Err(e) => return fail(format!("{}: by a path that is not there: {}", what, e.to_string())),
            }
        }
    }
    // Names that differ a little from those that are there.
    let mut absent = match list.first() {
        Some((name, _)) if g.bool() => name.to_vec(),
        _ => file_name(g, false),
    };
    match g.below_or(2) {
        0 => absent.push(b'x'),
        1 => {
            absent.pop();
        }
        _ => {
            let at = g.usize(0, absent.len().max(1) - 1);
            if let Some(b) = absent.get_mut(at) {
                *b ^= 0x20;
            }
        }
    }
    if !absent.is_empty() && !absent.contains(&0) && !entries.contains_key(&absent) {
        match directory.get_sub_file_entry_by_name(&text(fs, &absent)) {
            Ok(found) => check!(found.is_none(), "{}: {} is found", what, shown(&absent)),
            Err(e) => return fail(format!("{}: {}: {}", what, shown(&absent), e.to_string())),
        }
    }
    Ok(())
}

fn describe(g: &mut Gen, fs: &Fs) {
    let text = format!(
        "blocks of {}, {} of them, {} block groups of {}, {} inodes of {} per group, descriptors of {}, revision {}, features {:x}/{:x}/{:x}, {} inodes used",
        fs.block, fs.blocks, fs.groups, fs.per_group, fs.inodes_per_group, fs.inode_size, fs.descriptor, fs.revision, fs.compat, fs.incompat, fs.ro, fs.inodes.len()
    );
    g.note(|| text);
}

fn opened(fs: &Fs) -> Result<ExtFileSystem, String> {
    let mut system = ExtFileSystem::new();
    system.set_character_encoding(&fs.encoding).map_err(|e| e.to_string())?;
    system.read_data_stream(&fs.image.stream()).map_err(|e| e.to_string())?;
    Ok(system)
}

fn whole(g: &mut Gen, large: bool) -> CaseResult {
    let Some(fs) = volume(g, large, false) else { return discard() };
    describe(g, &fs);
    let system = match opened(&fs) {
        Ok(s) => s,
        Err(e) => return fail(format!("the volume is refused: {}", e)),
    };
    g.class_if(fs.large, "block numbers of more than 32 bits");
    check_eq!(system.number_of_inodes as u64, fs.groups * fs.inodes_per_group, "number of inodes");
    check_eq!(system.get_volume_label().cloned(), (!fs.label.is_empty()).then(|| text(&fs, &fs.label)), "label");
    check_eq!(system.last_mount_path.clone(), text(&fs, &fs.mounted), "path it was mounted at");
    for (got, want, what) in [(&system.last_mount_time, fs.mount_time, "mounted"), (&system.last_written_time, fs.write_time, "written")] {
        let want = if want == 0 { DateTime::NotSet } else { DateTime::PosixTime32(PosixTime32::new(want)) };
        check_eq!(got, &want, "time it was {}", what);
    }
    if fs.revision > 0 {
        check_eq!(system.get_compatible_feature_flags(), fs.compat, "compatible features");
        check_eq!(system.get_incompatible_feature_flags(), fs.incompat, "incompatible features");
        check_eq!(system.get_read_only_compatible_feature_flags(), fs.ro, "read-only compatible features");
    }
    let version = if fs.extents() || fs.alone { 4 } else if fs.compat & COMPAT_JOURNAL != 0 { 3 } else { 2 };
    check_eq!(system.get_format_version(), version, "format version");
    if fs.inodes.len() > 1 {
        g.nontrivial();
    }
    let mut root = match system.get_root_directory() {
        Ok(Some(r)) => r,
        Ok(None) => return fail("there is no root directory"),
        Err(e) => return fail(format!("root directory: {}", e.to_string())),
    };
    check_entry(g, &fs, "root directory", &mut root, 2, None, true)?;
    check_directory(g, &fs, "", &mut root, 2, &system, &[])?;
    match system.get_file_entry_by_path(&ExtPath::from("/")) {
        Ok(Some(mut root)) => check_entry(g, &fs, "/", &mut root, 2, None, false)?,
        Ok(None) => return fail("/ is not found"),
        Err(e) => return fail(format!("/: {}", e.to_string())),
    }
    for ino in [0, (fs.groups * fs.inodes_per_group) as u32 + 1, u32::MAX] {
        check!(system.get_file_entry_by_identifier(ino).is_err(), "inode {} of {}", ino, fs.groups * fs.inodes_per_group);
    }
    Ok(())
}

fn volumes(g: &mut Gen) -> CaseResult {
    whole(g, false)
}

fn large(g: &mut Gen) -> CaseResult {
    whole(g, true)
}

/// A change that a checksum covers, or that a reader must not go on from.
fn refused(g: &mut Gen) -> CaseResult {
    let Some(mut fs) = volume(g, false, true) else { return discard() };
    g.nontrivial();
    let flip = |g: &mut Gen, fs: &mut Fs, at: u64| {
        let old = fs.image.get(at, 1)[0];
        fs.image.poke(at, &[old ^ g.range(1, 255) as u8]);
    };
    let mut inode = None;
    let what = match g.below_or(6) {
        0 => {
            let mut at = 1024 + g.below_or(1019);
            if at == 1024 + 101 {
                // The flag that tells there are checksums.
                at += 1;
            }
            flip(g, &mut fs, at);
            "byte of the superblock"
        }
        1 => {
            let group = g.below_or(fs.groups - 1);
            let at = fs.descriptors + group * fs.descriptor as u64;
            // A checksum of 0 is not one.
            let byte = loop {
                let byte = g.below_or(fs.descriptor as u64 - 1);
                if byte != 30 && byte != 31 {
                    break byte;
                }
            };
            if fs.image.get(at + 30, 2) == [0, 0] {
                return discard();
            }
            flip(g, &mut fs, at + byte);
            "byte of a group descriptor"
        }
        2 | 3 => {
            let all: Vec<u32> = fs.inodes.iter().filter(|i| i.1.mode != 0).map(|i| *i.0).collect();
            let ino = *g.pick(&all);
            let at = fs.inodes[&ino].place;
            let wide = fs.inode_size > 128 && fs.inodes[&ino].extra >= 4;
            // The size of the extension tells the size of the checksum.
            let byte = loop {
                let byte = g.below_or(fs.inode_size as u64 - 1);
                if ![124, 125, 128, 129].contains(&byte) && !(wide && (byte == 130 || byte == 131)) {
                    break byte;
                }
            };
            if fs.image.get(at + 124, 2) == [0, 0] {
                return discard();
            }
            flip(g, &mut fs, at + byte);
            inode = Some(ino);
            "byte of an inode"
        }
        4 => {
            let at = 1024 + 56 + g.below_or(1);
            flip(g, &mut fs, at);
            "signature"
        }
        5 => {
            fs.image.truncate(g.below_or(2047));
            "end of the volume"
        }
        _ => {
            let flag = *g.pick(&[0x1u32, 0x1000, 0x40000, 0x80000000]);
            let mut sb = [0u8; 1024];
            sb.copy_from_slice(&fs.image.get(1024, 1024));
            sb.set_le(96, (fs.incompat | flag) as u64, 4);
            let c = crc(!0, &sb[..1020]);
            sb.set_le(1020, c as u64, 4);
            fs.image.poke(1024, &sb);
            inode = Some(2);
            "incompatible feature"
        }
    };
    describe(g, &fs);
    g.note(|| format!("with a changed {}", what));
    match (opened(&fs), inode) {
        (Err(_), _) => {}
        (Ok(_), None) => return fail(format!("a volume with a changed {} is read", what)),
        (Ok(system), Some(ino)) => check!(system.get_file_entry_by_identifier(ino).is_err(), "inode {} with a changed {} is read", ino, what),
    }
    Ok(())
}

fn walk(g: &mut Gen, entry: &mut ExtFileEntry, depth: usize, budget: &mut usize) {
    let n = entry.get_number_of_sub_file_entries().unwrap_or(0);
    let _ = entry.get_symbolic_link_target();
    let _ = entry.get_device_identifier();
    for i in 0..n.min(40) {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        let Ok(mut sub) = entry.get_sub_file_entry_by_index(i) else { continue };
        let name = sub.get_name().cloned();
        if let Some(name) = &name {
            let _ = name.to_string();
            let _ = entry.get_sub_file_entry_by_name(name);
        }
        let _ = sub.get_symbolic_link_target();
        let _ = sub.get_device_identifier();
        if let Ok(Some(stream)) = sub.get_data_stream() {
            touch(g, &mut *stream.write().unwrap());
        } else if depth < 5 {
            walk(g, &mut sub, depth + 1, budget);
        }
    }
}

/// Superblock and group descriptors with correct checksums.
fn mend(fs: &mut Fs) {
    if !fs.checksums() {
        return;
    }
    let mut sb = fs.image.get(1024, 1024);
    if sb.len() == 1024 {
        let c = crc(!0, &sb[..1020]);
        sb.set_le(1020, c as u64, 4);
        fs.image.poke(1024, &sb);
    }
    for group in 0..fs.groups.min(64) {
        let at = fs.descriptors + group * fs.descriptor as u64;
        let mut e = fs.image.get(at, fs.descriptor);
        if e.len() == fs.descriptor {
            e.set_le(30, 0, 2);
            let c = crc(crc(fs.seed, &(group as u32).to_le_bytes()), &e);
            e.set_le(30, c as u64 & 0xffff, 2);
            fs.image.poke(at, &e);
        }
    }
    for (ino, inode) in &fs.inodes {
        let mut data = fs.image.get(inode.place, fs.inode_size);
        if inode.mode != 0 && data.len() == fs.inode_size {
            let mut plain = data.clone();
            plain[124..126].fill(0);
            let wide = fs.inode_size > 128 && plain[128] as usize | (plain[129] as usize) << 8 >= 4;
            if wide {
                plain[130..132].fill(0);
            }
            let c = crc(crc(crc(fs.seed, &ino.to_le_bytes()), &data[100..104]), &plain);
            data.set_le(124, c as u64 & 0xffff, 2);
            if wide {
                data.set_le(130, c as u64 >> 16, 2);
            }
            fs.image.poke(inode.place, &data);
        }
    }
}

fn damaged(g: &mut Gen) -> CaseResult {
    let Some(mut fs) = volume(g, false, false) else { return discard() };
    let hot = fs.hot.clone();
    if g.chance(1, 4) {
        // The header of the extents of an inode.
        let all: Vec<u64> = fs.inodes.values().filter(|i| i.mode != 0).map(|i| i.place).collect();
        let at = *g.pick(&all) + 40;
        if fs.image.get(at, 2) == [0x0a, 0xf3] {
            let value = g.edgy(16) as u16;
            fs.image.poke(at + 2 + 2 * g.below_or(2), &value.to_le_bytes());
            g.class("header of extents");
        }
    } else {
        damage(g, &mut fs.image, &hot);
    }
    mend(&mut fs);
    describe(g, &fs);
    let Ok(system) = opened(&fs) else {
        g.class("refused");
        return Ok(());
    };
    g.nontrivial();
    let mut budget = 60;
    if let Ok(Some(mut root)) = system.get_root_directory() {
        walk(g, &mut root, 0, &mut budget);
    }
    for _ in 0..3 {
        let all: Vec<u32> = fs.inodes.keys().copied().collect();
        let ino = if g.bool() { *g.pick(&all) } else { g.edgy(32) as u32 };
        if let Ok(mut e) = system.get_file_entry_by_identifier(ino) {
            walk(g, &mut e, 4, &mut budget);
        }
    }
    Ok(())
}

pub static C50: Property = Property {
    id: "C50",
    rule: "a case counts as non-trivial when its volume holds at least one file or directory beside the root directory, or when it was changed so that it must be refused, or was damaged and is still read",
    assumptions: &[
        "the volumes are written by the harness after docs/formats/src/ext.md and, where it is silent, the Linux kernel: blocks of 1 to 64 KiB, 1 to 60 block groups (and 2^32 blocks and more in the facet of large volumes), inodes of 128 bytes to 2 KiB, files with up to 40 runs of blocks",
        "times of 0 seconds count as not set",
        "attributes are counted in the inode only; blocks of attributes, the journal, encryption and compression are not read by the code",
        "meta block groups, multiple mount protection and large directories are refused by the code",
        "device identifiers are those of the old encoding",
    ],
    facets: &[
        Facet { name: "volumes", work: Work::Random(150, 1500), case: volumes },
        Facet { name: "large", work: Work::Random(4, 40), case: large },
        Facet { name: "refused", work: Work::Random(60, 600), case: refused },
        Facet { name: "damaged", work: Work::Random(100, 1000), case: damaged },
    ],
};
