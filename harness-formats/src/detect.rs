//! C54 detection of formats by their signatures.

use std::collections::HashSet;

use keramics_formats::{FormatIdentifier, FormatScanner};
use pbt::*;

use crate::common::*;

/// Set of signatures, as the methods of the format scanner add them.
struct Group {
    format: FormatIdentifier,
    add: fn(&mut FormatScanner),
    /// Offsets, relative to the end for the last field, and patterns.
    places: &'static [(u64, &'static [u8])],
    end: bool,
}

const PART: &[u8] = b"EFI PART";
const BOOT: &[u8] = &[0x55, 0xaa];

/// Where the documents in docs/formats place the signatures.
const GROUPS: &[Group] = &[
    Group { format: FormatIdentifier::Apm, add: FormatScanner::add_apm_signatures, places: &[(560, b"Apple_partition_map\0\0\0\0\0\0\0\0\0\0\0\0\0")], end: false },
    Group { format: FormatIdentifier::Ext, add: FormatScanner::add_ext_signatures, places: &[(1024 + 56, &[0x53, 0xef])], end: false },
    Group { format: FormatIdentifier::Ewf, add: FormatScanner::add_ewf_signatures, places: &[(0, b"EVF\x09\x0d\x0a\xff\x00")], end: false },
    Group { format: FormatIdentifier::Fat, add: FormatScanner::add_fat_signatures, places: &[(54, b"FAT12   "), (54, b"FAT16   "), (82, b"FAT32   ")], end: false },
    Group { format: FormatIdentifier::Gpt, add: FormatScanner::add_gpt_signatures, places: &[(512, PART), (1024, PART), (2048, PART), (4096, PART)], end: false },
    Group { format: FormatIdentifier::Mbr, add: FormatScanner::add_mbr_signatures, places: &[(510, BOOT), (1022, BOOT), (2046, BOOT), (4094, BOOT)], end: false },
    Group { format: FormatIdentifier::Ntfs, add: FormatScanner::add_ntfs_signatures, places: &[(3, b"NTFS    ")], end: false },
    Group { format: FormatIdentifier::Qcow, add: FormatScanner::add_qcow_signatures, places: &[(0, b"QFI\xfb\0\0\0\x01"), (0, b"QFI\xfb\0\0\0\x02"), (0, b"QFI\xfb\0\0\0\x03")], end: false },
    Group { format: FormatIdentifier::SparseImage, add: FormatScanner::add_sparseimage_signatures, places: &[(0, b"sprs")], end: false },
    Group { format: FormatIdentifier::Udif, add: FormatScanner::add_udif_signatures, places: &[(512, b"koly")], end: true },
    Group { format: FormatIdentifier::Vhd, add: FormatScanner::add_vhd_signatures, places: &[(512, b"conectix")], end: true },
    Group { format: FormatIdentifier::Vhdx, add: FormatScanner::add_vhdx_signatures, places: &[(0, b"vhdxfile")], end: false },
];

/// Sets of signatures that are scanned for together: by the tools and the scanner of the
/// virtual file system.
const SETS: &[&[usize]] = &[
    &[2, 7, 8, 9, 10, 11],
    &[0, 4],
    &[3, 6],
    &[5],
    &[1, 3, 6],
    &[2, 7, 8, 9, 10, 11],
];

impl Group {
    fn position(&self, size: u64, place: usize) -> Option<u64> {
        if self.end { size.checked_sub(self.places[place].0) } else { Some(self.places[place].0) }
    }

    fn found(&self, data: &Sparse) -> bool {
        (0..self.places.len()).any(|i| {
            let pattern = self.places[i].1;
            self.position(data.size, i).is_some_and(|at| at + pattern.len() as u64 <= data.size && data.get(at, pattern.len()) == pattern)
        })
    }
}

fn gen_size(g: &mut Gen) -> u64 {
    match g.below_or(7) {
        0 => 8192 + g.below_or(100_000),
        1 => g.range(0, 64),
        2 => g.range(500, 530),
        3 => g.range(0, 5000),
        4 => g.range(1070, 1100),
        5 => 512 * g.range(1, 12),
        6 => (1 << 32) + g.below_or(2000),
        _ => {
            // To the end of a signature.
            let group = g.pick(GROUPS);
            let (at, pattern) = *g.pick(group.places);
            (at + pattern.len() as u64 + g.below_or(2)).saturating_sub(1)
        }
    }
}

fn gen_data(g: &mut Gen, groups: &[&Group]) -> Sparse {
    let size = gen_size(g);
    let mut data = Sparse::new(size);
    match g.below_or(3) {
        0 => {}
        1 => {
            let n = size.min(5120) as usize;
            let bytes = content(g, n);
            data.put(0, &bytes);
            if size > 5120 {
                let bytes = content(g, 600.min(size as usize - 5120));
                let at = size - bytes.len() as u64;
                data.put(at, &bytes);
            }
        }
        2 => {
            // Filled with the start of a signature.
            let group: &Group = *g.pick(groups);
            let (_, pattern) = *g.pick(group.places);
            let n = size.min(5120) as usize;
            let bytes: Vec<u8> = (0..n).map(|i| pattern[i % pattern.len()]).collect();
            data.put(0, &bytes);
        }
        _ => {
            let b = g.u8();
            data.put(0, &vec![b; size.min(5120) as usize]);
        }
    }
    for _ in 0..g.weighted(&[2, 4, 3, 1]) {
        let group: &Group = if g.chance(1, 5) { g.pick(GROUPS) } else { *g.pick(groups) };
        let i = g.usize(0, group.places.len() - 1);
        let pattern = group.places[i].1;
        let mut at = match group.position(size, i) {
            Some(at) => at,
            None => continue,
        };
        match g.below_or(7) {
            0 => {
                // At a place of another one, or near its own.
                let other = g.pick(GROUPS);
                let k = g.usize(0, other.places.len() - 1);
                at = other.position(size, k).unwrap_or(0);
                g.class("displaced signature");
            }
            1 => {
                at = (at + g.below_or(2)).saturating_sub(1);
                g.class("displaced signature");
            }
            _ => {}
        }
        let mut bytes = pattern.to_vec();
        if g.chance(1, 6) {
            let k = g.usize(0, bytes.len() - 1);
            bytes[k] ^= 1 << g.below_or(7);
            g.class("near miss");
        }
        if at < size {
            bytes.truncate((size - at).min(100) as usize);
            data.poke(at, &bytes);
        }
    }
    data
}

fn detect(g: &mut Gen) -> CaseResult {
    let groups: Vec<&Group> = match g.below_or(3) {
        0 | 1 => {
            let set = *g.pick(SETS);
            set.iter().map(|i| &GROUPS[*i]).collect()
        }
        2 => vec![g.pick(GROUPS)],
        _ => {
            let mask = g.range(1, (1 << GROUPS.len()) - 1);
            g.class("any set");
            GROUPS.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, v)| v).collect()
        }
    };
    let mut scanner = FormatScanner::new();
    for group in groups.iter() {
        (group.add)(&mut scanner);
    }
    let names: Vec<&str> = groups.iter().map(|v| v.format.to_string()).collect();
    if let Err(e) = scanner.build() {
        return fail(format!("unable to build a scanner of {:?}: {:?}", names, e.to_string()));
    }
    for _ in 0..g.usize(1, 3) {
        let data = gen_data(g, &groups);
        let size = data.size;
        g.note(|| format!("{:?} in {} bytes that start with {}, end with {}", names, size, hex(&data.get(0, size.min(96) as usize)), hex(&data.get(size - size.min(520), size.min(520).min(24) as usize))));
        let stream = data.stream();
        if g.bool() {
            // The position of the stream is of no importance.
            let at = g.below_or(size);
            let _ = stream.write().unwrap().seek(std::io::SeekFrom::Start(at));
        }
        let found: HashSet<FormatIdentifier> = match scanner.scan_data_stream(&stream) {
            Ok(v) => v,
            Err(e) => return fail(format!("scan for {:?} of {} bytes: {}", names, size, e.to_string())),
        };
        let want: Vec<&Group> = groups.iter().copied().filter(|v| v.found(&data)).collect();
        let expected: Vec<&str> = want.iter().map(|v| v.format.to_string()).collect();
        let mut got: Vec<&str> = found.iter().map(|v| v.to_string()).collect();
        got.sort();
        for v in got.iter() {
            check!(expected.contains(v), "{} is reported, in {} bytes with {:?} (scan for {:?})", v, size, expected, names);
        }
        // Signatures bound to the same end exclude each other: one of them is reported.
        for end in [false, true] {
            let some: Vec<&str> = want.iter().filter(|v| v.end == end).map(|v| v.format.to_string()).collect();
            check!(some.is_empty() || some.iter().any(|v| got.contains(v)), "{:?} in {} bytes is not reported (scan for {:?})", some, size, names);
        }
        g.class_if(expected.is_empty(), "no format");
        g.class_if(expected.len() > 1, "several formats");
        g.class_if(size < 5000, "small data");
        if !expected.is_empty() {
            g.nontrivial();
        }
        for v in expected {
            g.class(v);
        }
    }
    Ok(())
}

pub static C54: Property = Property {
    id: "C54",
    rule: "a case is non-trivial when the data holds the signature of at least one of the formats that are scanned for",
    assumptions: &["signatures that are bound to the same end of the data may hide each other: of several, at least one is reported"],
    facets: &[Facet { name: "detect", work: Work::Random(60000, 2000000), case: detect }],
};
