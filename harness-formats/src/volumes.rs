//! Partition tables: MBR with extended boot records, GPT, APM.

use crate::common::*;
use keramics_formats::apm::ApmVolumeSystem;
use keramics_formats::gpt::GptVolumeSystem;
use keramics_formats::mbr::MbrVolumeSystem;
use keramics_types::Uuid;
use pbt::*;

/// Image with content at a few places, among them the given ones.
fn backdrop(g: &mut Gen, size: u64, places: &[(u64, u64)]) -> Sparse {
    let mut image = Sparse::new(size);
    if size <= 1 << 19 {
        let data = content(g, size as usize);
        image.put(0, &data);
    } else {
        for (offset, length) in places {
            let data = content(g, 3000.min(*length) as usize);
            image.put(*offset, &data);
            let end = offset + length;
            let n = 2000.min(*length);
            let data = content(g, n as usize);
            image.put(end - n, &data);
        }
    }
    image
}

struct Mbr {
    image: Sparse,
    bytes_per_sector: u16,
    set: bool,
    identity: u32,
    /// Index, offset, size, type, flags.
    partitions: Vec<(usize, u64, u64, u8, u8)>,
    hot: Vec<(u64, u64)>,
}

fn partition_type(g: &mut Gen) -> u8 {
    let t = *g.pick(&[0x83u8, 0x07, 0x0c, 0x82, 0xee, 1, 4, 6, 14, 16, 255]);
    if g.chance(1, 4) {
        let t = g.u8();
        if t == 0 || t == 5 || t == 15 || t == 0x85 { 0x83 } else { t }
    } else {
        t
    }
}

fn entry(g: &mut Gen, flags: u8, kind: u8, start: u64, count: u64) -> [u8; 16] {
    let mut e = [0u8; 16];
    let chs = g.u32();
    e.set_le(0, chs as u64, 4);
    e.set_le(4, chs.rotate_left(13) as u64, 4);
    e[0] = flags;
    e[4] = kind;
    e.set_le(8, start, 4);
    e.set_le(12, count, 4);
    e
}

fn mbr_image(g: &mut Gen) -> Option<Mbr> {
    let bps = *g.pick(&[512u64, 512, 1024, 2048, 4096]);
    let large = g.chance(1, 5);
    let unit = |g: &mut Gen| -> u64 {
        if large { 1 + g.below_or(0x0fff_ffff) } else { 1 + g.below_or(20) }
    };
    let mut next = 1u64; // sector
    let mut partitions = Vec::new();
    let mut records: Vec<(u64, Vec<u8>)> = Vec::new(); // byte offset, 512 bytes
    let mut master = vec![0u8; 512];
    let boot = g.blob(440);
    master[..440].copy_from_slice(&boot);
    let identity = g.u32();
    master.set_le(440, identity as u64, 4);
    master.set_le(444, *g.pick(&[0u64, 0x5a5a]), 2);
    master.set_le(510, 0xaa55, 2);
    let mut chain: Option<(u64, u64)> = None; // start, count
    for slot in 0..4 {
        let kind = g.weighted(&[3, 5, if chain.is_none() { 3 } else { 0 }]);
        if kind == 0 {
            if g.chance(1, 4) {
                // An empty entry may have left over values.
                let flags = 0;
                let (a, b) = (g.u32() as u64, g.u32() as u64);
                master.at(446 + slot * 16, &entry(g, flags, 0, a, b));
                g.class("empty entry with values");
            }
            continue;
        }
        let start = next + if g.bool() { 0 } else { unit(g) };
        let count = unit(g);
        if start + count > 0xffff_ffff {
            return None;
        }
        next = start + count;
        let flags = *g.pick(&[0u8, 0x80]);
        if kind == 1 {
            let t = partition_type(g);
            master.at(446 + slot * 16, &entry(g, flags, t, start, count));
            partitions.push((slot, start * bps, count * bps, t, flags));
        } else {
            let t = *g.pick(&[5u8, 15]);
            g.class_if(t == 15, "extended partition of type 15");
            let extra = 60 * (1 + g.below_or(if large { 1 << 20 } else { 1 }));
            let count = count + extra;
            master.at(446 + slot * 16, &entry(g, flags, t, start, count));
            next = start + count;
            chain = Some((start, count));
        }
    }
    if let Some((first, count)) = chain {
        // Extended boot records, each with a logical partition after it.
        let wanted = if g.chance(1, 30) { g.usize(6, 60) } else { g.usize(1, 5) };
        let mut at = first;
        let end = first + count;
        let mut number = 0;
        loop {
            let mut record = vec![0u8; 512];
            if g.bool() {
                let junk = g.blob(446);
                record[..446].copy_from_slice(&junk);
            }
            record.set_le(510, 0xaa55, 2);
            let mut room = end - at;
            let mut slot = 0;
            if g.chance(1, 12) {
                slot = 1;
                g.class("first entry of an extended boot record is empty");
            }
            let mut after = at + 1;
            if room >= 3 && g.chance(9, 10) {
                let gap = 1 + g.below_or((room - 2).min(if large { 1 << 16 } else { 3 }));
                room -= gap;
                let size = 1 + g.below_or((room - 1).min(if large { 1 << 18 } else { 6 }));
                let t = partition_type(g);
                let flags = *g.pick(&[0u8, 0, 0x80]);
                // Relative to this record.
                record.at(446 + slot * 16, &entry(g, flags, t, gap, size));
                partitions.push((4 + number * 4 + slot, (at + gap) * bps, size * bps, t, flags));
                slot += 1;
                after = at + gap + size;
            } else {
                g.class("extended boot record without partition");
                if g.bool() {
                    slot += 1;
                }
            }
            number += 1;
            let following = after + g.below_or(2);
            let last = number >= wanted || following + 3 > end;
            if !last {
                let t = if g.chance(1, 5) { 15 } else { 5 };
                g.class_if(t == 15, "next extended boot record of type 15");
                // Relative to the first extended boot record.
                record.at(446 + slot * 16, &entry(g, 0, t, following - first, end - following));
            }
            records.push((at * bps, record));
            if last {
                break;
            }
            at = following;
        }
        g.class_if(number > 1, "chain of extended boot records");
        if number * 4 >= 1020 {
            return None;
        }
    }
    let set = g.chance(1, 2);
    let mut size = next * bps;
    let primary_last = partitions.iter().filter(|p| p.0 < 4).map(|p| (p.1 + p.2) / bps).max();
    if chain.is_none() {
        if let Some(last) = primary_last {
            // The size of a sector follows from the end of the last partition when less than half is unused.
            let room = if bps == 4096 { 8 * bps } else { last * bps };
            size = last * bps + if g.bool() { 0 } else { g.below_or(room - 1).min(1 << 20) };
        }
    } else {
        size += g.below_or(4) * 256;
    }
    let places: Vec<(u64, u64)> = partitions.iter().map(|p| (p.1, p.2)).collect();
    let mut image = backdrop(g, size.max(512), &places);
    image.put(0, &master);
    for (offset, record) in &records {
        image.put(*offset, record);
    }
    if let (Some((first, _)), false) = (chain, set) {
        // Another size of a sector must not fit by chance.
        for smaller in [512u64, 1024, 2048, 4096] {
            if smaller == bps {
                break;
            }
            if image.get(first * smaller + 510, 2) == [0x55, 0xaa] {
                return None;
            }
        }
    }
    let mut hot = vec![(440, 72)];
    hot.extend(records.iter().map(|r| (r.0 + 440, 72)));
    Some(Mbr { image, bytes_per_sector: bps as u16, set, identity, partitions, hot })
}

fn mbr(g: &mut Gen) -> CaseResult {
    let Some(m) = mbr_image(g) else { return discard() };
    if m.partitions.len() > 1 {
        g.nontrivial();
    }
    g.note(|| format!("sectors of {} ({}), image of {}, partitions {:?}", m.bytes_per_sector, if m.set { "set" } else { "found" }, m.image.size, m.partitions));
    let mut v = MbrVolumeSystem::new();
    if m.set {
        if let Err(e) = v.set_bytes_per_sector(m.bytes_per_sector) {
            return fail(e.to_string());
        }
    }
    if let Err(e) = v.read_data_stream(&m.image.stream()) {
        return fail(format!("a valid MBR is rejected: {}", e.to_string()));
    }
    check_eq!(v.get_number_of_partitions(), m.partitions.len(), "number of partitions");
    check_eq!(v.disk_identity, m.identity, "disk identity");
    if !m.partitions.is_empty() {
        check_eq!(v.bytes_per_sector, m.bytes_per_sector, "bytes per sector");
    }
    check!(v.get_partition_by_index(m.partitions.len()).is_err(), "a partition beyond the last");
    for (i, p) in m.partitions.iter().enumerate() {
        let mut partition = match v.get_partition_by_index(i) {
            Ok(p) => p,
            Err(e) => return fail(format!("partition {}: {}", i, e.to_string())),
        };
        check_eq!(partition.offset, p.1, "offset of partition {}", i);
        check_eq!(partition.size, p.2, "size of partition {}", i);
        check_eq!(partition.partition_type, p.3, "type of partition {}", i);
        check_eq!(partition.flags, p.4, "flags of partition {}", i);
        check_eq!(partition.entry_index, p.0, "entry index of partition {}", i);
        if i < 4 {
            check_stream(g, "partition", &mut partition, &m.image.slice(p.1, p.2), m.bytes_per_sector as u64, &[])?;
        }
    }
    Ok(())
}

fn mbr_damaged(g: &mut Gen) -> CaseResult {
    let Some(mut m) = mbr_image(g) else { return discard() };
    damage(g, &mut m.image, &m.hot);
    g.nontrivial();
    let mut v = MbrVolumeSystem::new();
    if m.set {
        let _ = v.set_bytes_per_sector(m.bytes_per_sector);
    }
    if v.read_data_stream(&m.image.stream()).is_ok() {
        g.class("accepted");
        for i in 0..v.get_number_of_partitions().min(8) {
            if let Ok(mut p) = v.get_partition_by_index(i) {
                touch(g, &mut p);
            }
        }
    }
    Ok(())
}

struct Gpt {
    image: Sparse,
    bytes_per_sector: u64,
    set: bool,
    identifier: [u8; 16],
    /// Index, offset, size, type, identifier.
    partitions: Vec<(usize, u64, u64, [u8; 16], [u8; 16])>,
    header: u64,
    entries: (u64, u64),
    hot: Vec<(u64, u64)>,
}

fn guid(g: &mut Gen) -> [u8; 16] {
    let mut u = [0u8; 16];
    u.set_le(0, g.u64(), 8);
    u.set_le(8, g.u64() | 1, 8);
    u
}

fn gpt_image(g: &mut Gen) -> Gpt {
    let bps = *g.pick(&[512u64, 512, 4096]);
    let large = g.chance(1, 6);
    let maximum = 32 * bps / 128;
    let number = match g.below_or(3) {
        0 => g.below_or(maximum),
        1 => maximum,
        2 => 128,
        _ => g.below_or(10),
    };
    let sectors = (number * 128).div_ceil(bps);
    let entries_at = 2 + if g.chance(1, 4) { g.below_or(5) } else { 0 };
    let area = entries_at + sectors + g.below_or(3);
    let identifier = if g.chance(1, 10) { [0; 16] } else { guid(g) };
    let mut table = vec![0u8; (number * 128) as usize];
    let mut next = area;
    let mut partitions = Vec::new();
    let mut slot = 0;
    while slot < number && partitions.len() < 12 {
        let gap = match g.below_or(4) {
            0 => 1 + g.below_or(5),
            1 if number > 100 => g.below_or(number - 1),
            _ => 0,
        };
        slot += gap;
        if slot >= number {
            break;
        }
        let start = next + g.below_or(3);
        let count = 1 + g.below_or(if large { 1 << 33 } else { 12 });
        next = start + count;
        let t = guid(g);
        let u = guid(g);
        let e = &mut table[(slot * 128) as usize..(slot * 128 + 128) as usize];
        e.at(0, &t);
        e.at(16, &u);
        e.set_le(32, start, 8);
        e.set_le(40, start + count - 1, 8);
        e.set_le(48, g.edgy(64), 8);
        let name = g.usize(0, 36);
        for i in 0..name {
            e.set_le(56 + 2 * i, g.range(0x20, 0x7e), 2);
        }
        partitions.push((slot as usize, start * bps, count * bps, t, u));
        slot += 1;
        if g.chance(1, 6) {
            break;
        }
    }
    // In any order on the disk.
    if partitions.len() > 1 && g.chance(1, 3) {
        let n = partitions.len();
        let (a, b) = (g.usize(0, n - 1), g.usize(0, n - 1));
        let (pa, pb) = (partitions[a], partitions[b]);
        partitions[a] = (pa.0, pb.1, pb.2, pb.3, pb.4);
        partitions[b] = (pb.0, pa.1, pa.2, pa.3, pa.4);
        let (ra, rb) = (pa.0 * 128, pb.0 * 128);
        let (ea, eb) = (table[ra..ra + 128].to_vec(), table[rb..rb + 128].to_vec());
        table.at(ra, &eb);
        table.at(rb, &ea);
        g.class("partitions not in order");
    }
    let backup_entries = next + g.below_or(3);
    let backup = backup_entries + sectors;
    let size = (backup + 1) * bps;
    let places: Vec<(u64, u64)> = partitions.iter().map(|p| (p.1, p.2)).collect();
    let mut image = backdrop(g, size, &places);
    let header = |current: u64, other: u64, entries: u64| {
        let mut h = vec![0u8; bps as usize];
        h.at(0, b"EFI PART");
        h.set_le(8, 0x10000, 4);
        h.set_le(12, 92, 4);
        h.set_le(24, current, 8);
        h.set_le(32, other, 8);
        h.set_le(40, area, 8);
        h.set_le(48, next - 1, 8);
        h.at(56, &identifier);
        h.set_le(72, entries, 8);
        h.set_le(80, number, 4);
        h.set_le(84, 128, 4);
        h.set_le(88, crc32(&table) as u64, 4);
        let sum = crc32(&h[..92]);
        h.set_le(16, sum as u64, 4);
        h
    };
    let mut protective = vec![0u8; 512];
    protective[446 + 4] = 0xee;
    protective.set_le(446 + 8, 1, 4);
    protective.set_le(446 + 12, (backup).min(0xffff_ffff), 4);
    protective.set_le(510, 0xaa55, 2);
    image.put(0, &protective);
    image.put(bps, &header(1, backup, entries_at));
    image.put(entries_at * bps, &table);
    image.put(backup_entries * bps, &table);
    image.put(backup * bps, &header(backup, 1, backup_entries));
    Gpt {
        image,
        bytes_per_sector: bps,
        // The backup must not be where the header is for another size of a sector.
        set: g.bool() || backup * bps <= 4096,
        identifier,
        partitions,
        header: bps,
        entries: (entries_at * bps, number * 128),
        hot: vec![(bps, 92), (entries_at * bps, 512), (backup * bps, 92)],
    }
}

fn open_gpt(m: &Gpt) -> Result<GptVolumeSystem, String> {
    let mut v = GptVolumeSystem::new();
    if m.set {
        v.set_bytes_per_sector(m.bytes_per_sector as u16).map_err(|e| e.to_string())?;
    }
    v.read_data_stream(&m.image.stream()).map_err(|e| e.to_string())?;
    Ok(v)
}

fn gpt(g: &mut Gen) -> CaseResult {
    let m = gpt_image(g);
    if m.partitions.len() > 1 {
        g.nontrivial();
    }
    g.note(|| format!("sectors of {} ({}), image of {}, partitions {:?}", m.bytes_per_sector, if m.set { "set" } else { "found" }, m.image.size, m.partitions));
    let v = match open_gpt(&m) {
        Ok(v) => v,
        Err(e) => return fail(format!("a valid GPT is rejected: {}", e)),
    };
    check_eq!(v.get_number_of_partitions(), m.partitions.len(), "number of partitions");
    check_eq!(v.bytes_per_sector as u64, m.bytes_per_sector, "bytes per sector");
    check_eq!(v.disk_identifier.to_string(), Uuid::from_le_bytes(&m.identifier).to_string(), "disk identifier");
    check!(v.get_partition_by_index(m.partitions.len()).is_err(), "a partition beyond the last");
    for (i, p) in m.partitions.iter().enumerate() {
        let mut partition = match v.get_partition_by_index(i) {
            Ok(p) => p,
            Err(e) => return fail(format!("partition {}: {}", i, e.to_string())),
        };
        check_eq!(partition.entry_index, p.0, "entry index of partition {}", i);
        check_eq!(partition.offset, p.1, "offset of partition {}", i);
        check_eq!(partition.size, p.2, "size of partition {}", i);
        check_eq!(partition.type_identifier.to_string(), Uuid::from_le_bytes(&p.3).to_string(), "type of partition {}", i);
        check_eq!(partition.identifier.to_string(), Uuid::from_le_bytes(&p.4).to_string(), "identifier of partition {}", i);
        if i < 4 {
            check_stream(g, "partition", &mut partition, &m.image.slice(p.1, p.2), m.bytes_per_sector, &[])?;
        }
    }
    Ok(())
}

/// A changed header or table is noticed.
fn gpt_checksum(g: &mut Gen) -> CaseResult {
    let mut m = gpt_image(g);
    let in_table = m.entries.1 > 0 && g.bool();
    let at = if in_table { m.entries.0 + g.below_or(m.entries.1 - 1) } else { m.header + g.below_or(91) };
    let bit = g.below_or(7);
    let old = m.image.get(at, 1)[0];
    m.image.poke(at, &[old ^ 1 << bit]);
    // A checksum of zero is one that is not there.
    let stored = m.image.get(m.header + 16, 4) != [0; 4];
    let table = m.image.get(m.header + 88, 4) != [0; 4];
    if !stored || !table {
        return discard();
    }
    g.nontrivial();
    g.class(if in_table { "table" } else { "header" });
    g.note(|| format!("bit {} at {}", bit, at));
    check!(open_gpt(&m).is_err(), "inverted bit {} of byte {} of the {} is not noticed", bit, at - if in_table { m.entries.0 } else { m.header }, if in_table { "table" } else { "header" });
    Ok(())
}

fn gpt_damaged(g: &mut Gen) -> CaseResult {
    let mut m = gpt_image(g);
    damage(g, &mut m.image, &m.hot);
    if g.chance(4, 5) {
        // Checksums that fit.
        let table = m.image.get(m.entries.0, m.entries.1 as usize);
        m.image.poke(m.header + 88, &if g.bool() { crc32(&table).to_le_bytes() } else { [0; 4] });
        let mut header = m.image.get(m.header, 92);
        if header.len() == 92 {
            header.set_le(16, 0, 4);
            let sum = crc32(&header);
            m.image.poke(m.header + 16, &sum.to_le_bytes());
        }
    }
    g.nontrivial();
    if let Ok(v) = open_gpt(&m) {
        g.class("accepted");
        for i in 0..v.get_number_of_partitions().min(8) {
            if let Ok(mut p) = v.get_partition_by_index(i) {
                touch(g, &mut p);
            }
        }
    }
    Ok(())
}

struct Apm {
    image: Sparse,
    /// Offset, size, name, type, flags.
    partitions: Vec<(u64, u64, Vec<u8>, Vec<u8>, u32)>,
}

fn text(g: &mut Gen, max: usize) -> Vec<u8> {
    let n = if g.chance(1, 5) { max } else { g.usize(0, max) };
    (0..n).map(|_| g.range(0x20, 0x7e) as u8).collect()
}

fn apm_image(g: &mut Gen) -> Apm {
    let large = g.chance(1, 6);
    let n = match g.below_or(4) {
        0 => g.usize(0, 2),
        1 => g.usize(0, 62),
        _ => g.usize(0, 8),
    };
    let number = n as u64 + 1;
    let mut next = 1 + number + g.below_or(70);
    let mut map: Vec<Vec<u8>> = Vec::new();
    let mut partitions = Vec::new();
    for i in 0..number {
        let mut e = vec![0u8; 512];
        if g.chance(1, 3) {
            e = g.blob(512);
        }
        e.at(0, b"PM");
        e.set_be(4, number, 4);
        let (name, kind, start, count, flags);
        if i == 0 {
            (name, kind, start, count) = (b"Apple".to_vec(), b"Apple_partition_map".to_vec(), 1, next - 1);
            flags = 3;
        } else {
            name = text(g, 32);
            kind = if g.bool() { g.pick(&[&b"Apple_HFS"[..], b"Apple_Free", b"Apple_Driver43", b"Apple_partition_map"]).to_vec() } else { text(g, 32) };
            start = next + g.below_or(3);
            count = g.below_or(if large { 1 << 25 } else { 12 });
            next = start + count;
            flags = g.u32();
            partitions.push((start * 512, count * 512, name.clone(), kind.clone(), flags));
        }
        e.set_be(8, start, 4);
        e.set_be(12, count, 4);
        e[16..80].fill(0);
        e.at(16, &name);
        e.at(48, &kind);
        e.set_be(88, flags as u64, 4);
        map.push(e);
    }
    let size = (next + g.below_or(2)) * 512;
    let places: Vec<(u64, u64)> = partitions.iter().map(|p| (p.0, p.1)).collect();
    let mut image = backdrop(g, size, &places);
    let mut block0 = vec![0u8; 512];
    block0.at(0, b"ER");
    block0.set_be(2, 512, 2);
    block0.set_be(4, size / 512, 4);
    image.put(0, &block0);
    for (i, e) in map.iter().enumerate() {
        image.put(512 * (1 + i as u64), e);
    }
    if !partitions.is_empty() && g.bool() {
        g.nontrivial();
    }
    Apm { image, partitions }
}

fn apm(g: &mut Gen) -> CaseResult {
    let m = apm_image(g);
    if m.partitions.len() > 1 {
        g.nontrivial();
    }
    g.note(|| format!("image of {}, {} partitions", m.image.size, m.partitions.len()));
    let mut v = ApmVolumeSystem::new();
    if let Err(e) = v.read_data_stream(&m.image.stream()) {
        return fail(format!("a valid partition map is rejected: {}", e.to_string()));
    }
    check_eq!(v.get_number_of_partitions(), m.partitions.len(), "number of partitions");
    check!(v.get_partition_by_index(m.partitions.len()).is_err(), "a partition beyond the last");
    for (i, p) in m.partitions.iter().enumerate() {
        let mut partition = match v.get_partition_by_index(i) {
            Ok(p) => p,
            Err(e) => return fail(format!("partition {}: {}", i, e.to_string())),
        };
        check_eq!(partition.offset, p.0, "offset of partition {}", i);
        check_eq!(partition.size, p.1, "size of partition {}", i);
        check_eq!(partition.name.elements, p.2, "name of partition {}", i);
        check_eq!(partition.type_identifier.elements, p.3, "type of partition {}", i);
        check_eq!(partition.status_flags, p.4, "flags of partition {}", i);
        if i < 4 {
            check_stream(g, "partition", &mut partition, &m.image.slice(p.0, p.1), 512, &[])?;
        }
    }
    Ok(())
}

fn apm_damaged(g: &mut Gen) -> CaseResult {
    let mut m = apm_image(g);
    let hot: Vec<(u64, u64)> = (0..m.partitions.len() as u64 + 1).map(|i| (512 + 512 * i, 96)).collect();
    damage(g, &mut m.image, &hot);
    g.nontrivial();
    let mut v = ApmVolumeSystem::new();
    if v.read_data_stream(&m.image.stream()).is_ok() {
        g.class("accepted");
        for i in 0..v.get_number_of_partitions().min(8) {
            if let Ok(mut p) = v.get_partition_by_index(i) {
                touch(g, &mut p);
            }
        }
    }
    Ok(())
}

pub static C40: Property = Property {
    id: "C40",
    rule: "more than one partition; damaged images all count",
    assumptions: &["Sector sizes 512 to 4096; the size of a sector is set, or follows from an extended boot record or from the end of the last partition."],
    facets: &[
        Facet { name: "partitions", work: Work::Random(2000, 20000), case: mbr },
        Facet { name: "damaged", work: Work::Random(2000, 20000), case: mbr_damaged },
    ],
};

pub static C41: Property = Property {
    id: "C41",
    rule: "more than one partition, or a changed bit; damaged images all count",
    assumptions: &["Entries of 128 bytes and headers of 92, as all known software writes."],
    facets: &[
        Facet { name: "partitions", work: Work::Random(1500, 15000), case: gpt },
        Facet { name: "checksum", work: Work::Random(1500, 15000), case: gpt_checksum },
        Facet { name: "damaged", work: Work::Random(1500, 15000), case: gpt_damaged },
    ],
};

pub static C42: Property = Property {
    id: "C42",
    rule: "more than one partition; damaged images all count",
    assumptions: &["Blocks of 512 bytes."],
    facets: &[
        Facet { name: "partitions", work: Work::Random(1500, 15000), case: apm },
        Facet { name: "damaged", work: Work::Random(1500, 15000), case: apm_damaged },
    ],
};
