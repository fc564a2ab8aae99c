//! VHDX images: dynamic, fixed, and differential on top of others.

use crate::common::*;
use keramics_core::DataStream;
use keramics_formats::vhdx::{VhdxDiskType, VhdxImage};
use keramics_formats::PathComponent;
use pbt::*;

const MIB: u64 = 1 << 20;

struct Layer {
    image: Sparse,
    shows: Sparse,
    block: u64,
    /// Text of the identifier that a child refers to.
    identifier: [u8; 16],
    sector: u64,
    marks: Vec<u64>,
    hot: Vec<(u64, u64)>,
    kind: u64,
}

fn guid(text: &str) -> Vec<u8> {
    let h: Vec<u8> = (0..text.len()).filter(|i| text.as_bytes()[*i] != b'-').map(|i| (text.as_bytes()[i] as char).to_digit(16).unwrap() as u8).collect();
    let b: Vec<u8> = h.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
    [3usize, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15].iter().map(|i| b[*i]).collect()
}

fn guid_text(b: &[u8; 16]) -> String {
    let h = |r: &[usize]| r.iter().map(|i| format!("{:02x}", b[*i])).collect::<String>();
    format!("{}-{}-{}-{}-{}", h(&[3, 2, 1, 0]), h(&[5, 4]), h(&[7, 6]), h(&[8, 9]), h(&[10, 11, 12, 13, 14, 15]))
}

fn utf16(text: &str) -> Vec<u8> {
    text.encode_utf16().flat_map(|c| c.to_le_bytes()).collect()
}

fn locator(g: &mut Gen, parent: &[u8; 16], name: &str) -> Vec<u8> {
    let mut linkage = guid_text(parent);
    if g.bool() {
        linkage = linkage.to_uppercase();
    }
    let mut linkage = format!("{{{}}}", linkage);
    if g.chance(1, 4) {
        linkage = linkage[1..37].to_string();
    }
    let mut pairs = vec![("parent_linkage", linkage)];
    let paths = [
        ("absolute_win32_path", format!("\\\\?\\c:\\images\\{}", name)),
        ("volume_path", format!("\\\\?\\Volume{{26a21bda-a627-11d7-9931-806e6f6e6963}}\\a b\\{}", name)),
        ("relative_path", format!("{}{}", g.pick(&[".\\", "..\\", ""]), name)),
    ];
    // Any one of the paths says where the parent is.
    let which = g.range(1, 7);
    for (i, (k, v)) in paths.into_iter().enumerate() {
        if which & 1 << i != 0 {
            pairs.push((k, v));
        }
    }
    if g.chance(1, 3) {
        pairs.push(("parent_linkage2", "{00000000-0000-0000-0000-000000000000}".to_string()));
    }
    for i in (1..pairs.len()).rev() {
        pairs.swap(i, g.usize(0, i));
    }
    let mut out = vec![0u8; 20 + 12 * pairs.len() + g.usize(0, 8)];
    out.at(0, &guid("b04aefb7-d19e-4a81-b789-25b8e9445913"));
    out.set_le(18, pairs.len() as u64, 2);
    for (i, (k, v)) in pairs.iter().enumerate() {
        let (k, v) = (utf16(k), utf16(v));
        let at = 20 + 12 * i;
        let order = g.bool();
        for part in [order, !order] {
            let o = out.len() as u64;
            if part {
                out.set_le(at, o, 4);
                out.set_le(at + 8, k.len() as u64, 2);
                out.extend_from_slice(&k);
            } else {
                out.set_le(at + 4, o, 4);
                out.set_le(at + 10, v.len() as u64, 2);
                out.extend_from_slice(&v);
            }
        }
    }
    out
}

fn layer(g: &mut Gen, below: Option<(&str, &Layer)>) -> Layer {
    let block = MIB << *g.pick(&[0u64, 0, 0, 1, 3, 5, 8]);
    let sector = match below {
        Some((_, l)) => l.sector,
        None => *g.pick(&[512u64, 512, 4096]),
    };
    let chunk = (sector << 23) / block;
    let sectors = block / sector;
    let kind = match below {
        Some(_) => 2,
        None => g.below_or(1),
    };
    let limit = match kind {
        1 => chunk * block,
        0 if g.chance(1, 6) => chunk * block * (3 + g.below_or((1 << 46) / (chunk * block) - 3)),
        _ => 3 * chunk * block,
    };
    let mut size = match g.below_or(3) {
        0 => sector * g.below_or(2 * sectors),
        1 => block * g.below_or(6) + sector * g.below_or(3),
        2 => limit - sector * g.below_or(3),
        _ => sector * g.below_or(limit / sector),
    }
    .min(limit);
    if let Some((_, l)) = below {
        if g.chance(1, 5) {
            size = l.shows.size + sector * g.below_or(2 * sectors);
        } else {
            size = l.shows.size;
        }
    }
    let blocks = size.div_ceil(block);
    g.class_if(blocks > chunk, "more than one chunk");
    g.class_if(blocks > 3 * chunk, "more than three chunks");
    g.class_if(blocks > 65536, "more than 65536 blocks");
    // A fixed image of less than a chunk has no entry for a bitmap, or one.
    let entries = match kind {
        1 => blocks,
        2 => blocks.div_ceil(chunk) * (chunk + 1),
        _ => blocks + blocks.saturating_sub(1) / chunk,
    };
    let entry_of = |b: u64| b / chunk * (chunk + 1) + b % chunk;

    let mut wanted = Vec::new();
    if blocks > 0 {
        let n = g.usize(0, 7);
        let mut at = g.below_or(blocks - 1);
        for _ in 0..n {
            wanted.push(at);
            at = match g.below_or(4) {
                0 => g.below_or(blocks - 1),
                1 => blocks - 1,
                2 => (chunk * g.below_or(blocks / chunk)).saturating_sub(g.below_or(1)).min(blocks - 1),
                _ => (at + 1).min(blocks - 1),
            };
        }
        wanted.sort();
        wanted.dedup();
    }
    for i in (1..wanted.len()).rev() {
        wanted.swap(i, g.usize(0, i));
    }
    let mut shows = match below {
        Some((_, below)) => {
            let mut s = below.shows.slice(0, size.min(below.shows.size));
            s.size = size;
            s
        }
        None => Sparse::new(size),
    };
    let mut image = Sparse::new(0);
    let mut marks = Vec::new();
    // The places of the regions and the blocks, in any order.
    let mut slots: Vec<u64> = Vec::new();
    let table_size = (entries * 8).div_ceil(MIB).max(1) * MIB;
    let mut sizes = vec![MIB, table_size];
    let mut bitmaps: Vec<u64> = Vec::new();
    for b in &wanted {
        let c = b / chunk;
        if kind == 2 && !bitmaps.contains(&c) {
            bitmaps.push(c);
        }
    }
    sizes.extend(bitmaps.iter().map(|_| MIB));
    sizes.extend(wanted.iter().map(|_| block));
    let mut order: Vec<usize> = (0..sizes.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, g.usize(0, i));
    }
    slots.resize(sizes.len(), 0);
    let mut next = MIB * (1 + g.below_or(2));
    for i in order {
        slots[i] = next;
        next += sizes[i] + MIB * g.below_or(1);
        if g.chance(1, 30) {
            next += MIB * g.below_or(1 << 24);
        }
    }
    g.class_if(next > 1 << 32, "file of more than 4 GiB");
    let (metadata_at, table_at) = (slots[0], slots[1]);
    let mut hot = vec![(metadata_at, 32 * 8), (metadata_at + 65536, 300), (table_at, 64)];
    let mut bits = vec![Vec::new(); bitmaps.len()];
    let mut entry_bytes: Vec<(u64, u64)> = Vec::new();
    let reserved = |g: &mut Gen| if g.chance(1, 8) { g.below_or(0x1ffff) << 3 } else { 0 };
    for (i, b) in wanted.iter().enumerate() {
        let mut at = slots[2 + bitmaps.len() + i];
        let start = b * block;
        marks.push(start);
        let mut state = *g.pick(&[6u64, 6, 6, 2, 0, 7, 7, 7]);
        if kind != 2 && (state == 7 || state == 0) {
            state = *g.pick(&[6u64, 6, 1, 3]);
        }
        if state < 6 && g.bool() {
            at = 0;
        }
        let e = entry_of(*b);
        let unused = reserved(g);
        entry_bytes.push((e, at | state | unused));
        hot.push((table_at + 8 * e, 8));
        let end = size.min(start + block);
        let mut poke = |shows: &mut Sparse, offset: u64, data: &[u8]| {
            let left = data.len().min((size.saturating_sub(offset)) as usize);
            shows.poke(offset, &data[..left]);
        };
        if state == 2 {
            // Sparse also on top of a parent that has data there.
            if kind == 2 {
                shows.blank(start, end);
            }
            if g.bool() && at != 0 {
                image.put(at, &[0xee; 600]);
            }
        } else if state == 6 {
            if kind == 2 {
                shows.blank(start, end);
            }
            let n = g.usize(1, 3);
            for _ in 0..n {
                let o = near(g, block - sector, sector, &[]);
                let length = g.usize(1, (3 * sector) as usize).min((block - o) as usize);
                let data = content(g, length);
                image.put(at + o, &data);
                poke(&mut shows, start + o, &data);
                marks.push(start + o);
            }
            image.size = image.size.max(at + block);
        } else if state == 7 {
            let c = bitmaps.iter().position(|c| *c == b / chunk).unwrap();
            let mut s = if g.bool() { 0 } else { near(g, sectors - 1, 8, &[]) };
            let n = g.usize(0, 4);
            for _ in 0..n {
                let run = (1 + up_to(g, &[0u64, 3, 20, sectors])).min(sectors - s);
                bits[c].push((b % chunk * sectors + s, run));
                shows.blank((start + s * sector).min(end), (start + (s + run) * sector).min(end));
                let length = ((run * sector) as usize).min(6000);
                let data = content(g, length);
                image.put(at + s * sector, &data);
                poke(&mut shows, start + s * sector, &data);
                if run * sector > 6000 {
                    let data = content(g, 700);
                    image.put(at + (s + run) * sector - 700, &data);
                    poke(&mut shows, start + (s + run) * sector - 700, &data);
                }
                marks.push(start + s * sector);
                marks.push(start + (s + run) * sector);
                s += run + 1 + up_to(g, &[0u64, 3, 20, sectors]);
                if s >= sectors {
                    break;
                }
            }
            g.class("partially present");
            if g.bool() {
                // What is not set is not to be read.
                let free = g.below_or(sectors - 1);
                if !bits[c].iter().any(|(f, n)| (*f..f + n).contains(&(b % chunk * sectors + free))) {
                    image.put(at + free * sector, &[0xee; 512]);
                }
            }
            image.size = image.size.max(at + block);
        }
    }
    for (i, c) in bitmaps.iter().enumerate() {
        let at = slots[2 + i];
        image.size = image.size.max(at + MIB);
        for (first, n) in &bits[i] {
            let from = first / 8;
            let to = (first + n).div_ceil(8);
            let mut bytes = image.get(at + from, (to - from) as usize);
            for s in *first..first + n {
                bytes[(s / 8 - from) as usize] |= 1 << (s % 8);
            }
            image.put(at + from, &bytes);
            hot.push((at + from, to - from));
        }
        let unused = reserved(g);
        entry_bytes.push(((c + 1) * (chunk + 1) - 1, at | 6 | unused));
    }
    image.size = image.size.max(table_at + table_size).max(metadata_at + MIB);
    for (e, v) in entry_bytes {
        image.put(table_at + 8 * e, &v.to_le_bytes());
    }

    // Metadata.
    let mut parameters = [0u8; 8];
    parameters.set_le(0, block, 4);
    parameters.set_le(4, kind, 4);
    let mut items = vec![
        ("caa16737-fa36-4d43-b3b6-33f0aa44e76b", parameters.to_vec()),
        ("2fa54224-cd1b-4876-b211-5dbed83bf4b8", size.to_le_bytes().to_vec()),
        ("8141bf1d-a96f-4709-ba47-f233a8faab5f", (sector as u32).to_le_bytes().to_vec()),
        ("beca12ab-b2e6-4523-93ef-c309e000c746", g.bytes(16)),
    ];
    if g.bool() {
        let physical = *g.pick(&[512u32, 4096]);
        items.push(("cda348c7-445d-4471-9cc9-e9885251c556", physical.to_le_bytes().to_vec()));
    }
    if let Some((name, l)) = below {
        items.push(("a8d35f2d-b30b-454d-abf7-d3d84834ab0c", locator(g, &l.identifier, name)));
    }
    if g.chance(1, 4) {
        items.push(("01020304-0506-0708-090a-0b0c0d0e0f10", g.bytes(9)));
    }
    for i in (1..items.len()).rev() {
        items.swap(i, g.usize(0, i));
    }
    let mut table = vec![0u8; 65536];
    table.at(0, b"metadata");
    table.set_le(10, items.len() as u64, 2);
    let mut at = 65536 + g.below_or(40);
    for (i, (id, data)) in items.iter().enumerate() {
        let e = 32 + 32 * i;
        table.at(e, &guid(id));
        table.set_le(e + 16, at, 4);
        table.set_le(e + 20, data.len() as u64, 4);
        table.set_le(e + 24, *g.pick(&[4u64, 6]), 4);
        image.put(metadata_at + at, data);
        at += data.len() as u64 + g.below_or(20);
    }
    image.put(metadata_at, &table);

    // Headers.
    let mut regions = vec![("2dc27766-f623-4200-9d64-115e9bfd4a08", table_at, table_size), ("8b7ca206-4790-4b9a-b8fe-575f050f886e", metadata_at, MIB)];
    if g.bool() {
        regions.swap(0, 1);
    }
    let mut table = vec![0u8; 65536];
    table.at(0, b"regi");
    table.set_le(8, regions.len() as u64, 4);
    for (i, (id, offset, size)) in regions.iter().enumerate() {
        let e = 16 + 32 * i;
        table.at(e, &guid(id));
        table.set_le(e + 16, *offset, 8);
        table.set_le(e + 24, *size, 4);
        table.set_le(e + 28, 1, 4);
    }
    let sum = crc32c(&table) as u64;
    table.set_le(4, sum, 4);
    image.put(3 * 65536, &table);
    image.put(4 * 65536, &table);
    hot.push((3 * 65536, 90));
    image.put(0, b"vhdxfile");
    image.put(8, &utf16("generated"));
    let sequence = g.edgy(64).min(u64::MAX - 2);
    let current = g.below_or(1);
    let mut identifier = [0u8; 16];
    for i in 0..2 {
        let mut h = vec![0u8; 4096];
        h.at(0, b"head");
        h.set_le(8, sequence + (i == current) as u64, 8);
        h.at(16, &g.bytes(16));
        let id = g.bytes(16);
        h.at(32, &id);
        if i == current {
            identifier.copy_from_slice(&id);
        }
        h.set_le(66, 1, 2);
        h.set_le(68, MIB, 4);
        h.set_le(72, MIB, 8);
        let sum = crc32c(&h) as u64;
        h.set_le(4, sum, 4);
        image.put((1 + i) * 65536, &h);
    }
    hot.push((65536, 80));
    hot.push((2 * 65536, 80));
    marks.retain(|m| *m <= size);
    Layer { image, shows, block, identifier, sector, marks, hot, kind }
}

fn layers(g: &mut Gen) -> Vec<Layer> {
    let n = *g.pick(&[1usize, 1, 2, 3]);
    let mut out: Vec<Layer> = Vec::new();
    for i in 0..n {
        let l = if i > 0 {
            let name = format!("layer{}.vhdx", i - 1);
            layer(g, Some((&name, &out[i - 1])))
        } else {
            layer(g, None)
        };
        g.class(["dynamic", "fixed", "differential"][l.kind as usize]);
        out.push(l);
    }
    out
}

fn open(layers: &[Layer]) -> Result<VhdxImage, String> {
    let folder = Folder::of(layers.iter().enumerate().map(|(i, l)| (format!("layer{}.vhdx", i), l.image.clone())).collect());
    let mut image = VhdxImage::new();
    let top = format!("layer{}.vhdx", layers.len() - 1);
    image.open(&folder.resolver(), &PathComponent::from(&top)).map_err(|e| e.to_string())?;
    Ok(image)
}

fn image(g: &mut Gen) -> CaseResult {
    let layers = layers(g);
    g.note(|| {
        layers
            .iter()
            .map(|l| format!("kind {} of {} with blocks of {} and sectors of {}, marks {:?}", l.kind, l.shows.size, l.block, l.sector, l.marks))
            .collect::<Vec<_>>()
            .join("; ")
    });
    if layers.iter().any(|l| l.marks.len() > 2) {
        g.nontrivial();
    }
    let image = match open(&layers) {
        Ok(image) => image,
        Err(e) => return fail(format!("a valid image is rejected: {}", e)),
    };
    check_eq!(image.get_number_of_layers(), layers.len(), "number of layers");
    let rounds = g.usize(1, 3);
    for _ in 0..rounds {
        let i = g.usize(0, layers.len() - 1);
        let l = &layers[i];
        let shown = match image.get_layer_by_index(i) {
            Ok(l) => l,
            Err(e) => return fail(e.to_string()),
        };
        let mut shown = shown.write().unwrap();
        check_eq!(shown.block_size as u64, l.block, "block size");
        check_eq!(shown.bytes_per_sector as u64, l.sector, "bytes per sector");
        check_eq!(shown.identifier.to_string(), guid_text(&l.identifier), "identifier of the current header");
        let kind = match l.kind {
            0 => shown.disk_type == VhdxDiskType::Dynamic,
            1 => shown.disk_type == VhdxDiskType::Fixed,
            _ => shown.disk_type == VhdxDiskType::Differential,
        };
        check!(kind, "disk type of flags {}", l.kind);
        check_stream(g, &format!("layer {}", i), &mut *shown, &l.shows, 65536.min(l.block), &l.marks)?;
    }
    Ok(())
}

/// A parent that is not the one the image was made on is refused, and so is a circle.
fn parents(g: &mut Gen) -> CaseResult {
    let base = layer(g, None);
    let child = layer(g, Some(("layer0.vhdx", &base)));
    g.nontrivial();
    if g.bool() {
        let other = layer(g, None);
        if other.identifier == base.identifier {
            return discard();
        }
        check!(open(&[other, child]).is_err(), "another parent is accepted");
    } else {
        let circle = layer(g, Some(("layer1.vhdx", &child)));
        let base = Layer { image: circle.image, ..base };
        check!(open(&[base, child]).is_err(), "a circle of parents is accepted");
    }
    Ok(())
}

fn damaged(g: &mut Gen) -> CaseResult {
    let mut layers = layers(g);
    let i = g.usize(0, layers.len() - 1);
    let l = &mut layers[i];
    damage(g, &mut l.image, &l.hot);
    // Damage that the checksums do not tell.
    for at in [65536u64, 2 * 65536, 3 * 65536] {
        if g.bool() && l.image.size > 5 * 65536 {
            l.image.poke(at + 4, &[0; 4]);
        }
    }
    g.nontrivial();
    if let Ok(image) = open(&layers) {
        g.class("accepted");
        for i in 0..image.get_number_of_layers() {
            let shown = image.get_layer_by_index(i).unwrap();
            let mut shown = shown.write().unwrap();
            touch(g, &mut *shown);
            for m in layers.get(i).map(|l| &l.marks[..]).unwrap_or(&[]) {
                let mut buffer = vec![0; 700];
                let _ = shown.read_at_position(&mut buffer, std::io::SeekFrom::Start(*m));
            }
        }
    }
    Ok(())
}

/// A wrong checksum in a header or a region table is an error.
fn checksums(g: &mut Gen) -> CaseResult {
    let mut l = layer(g, None);
    let (start, size) = *g.pick(&[(65536u64, 4096u64), (2 * 65536, 4096), (3 * 65536, 65536), (4 * 65536, 65536)]);
    let at = start + 8 + up_to(g, &[80, size - 9]);
    let old = l.image.get(at, 1)[0];
    l.image.poke(at, &[old ^ 1 << g.below_or(7)]);
    g.nontrivial();
    if l.image.get(start + 4, 4) == [0; 4] {
        return discard();
    }
    check!(open(&[l]).is_err(), "a wrong checksum of the structure at {} is accepted (change at {})", start, at);
    Ok(())
}

pub static C45: Property = Property {
    id: "C45",
    rule: "an image with more than two marks (blocks, runs of sectors); refused and damaged images all count",
    assumptions: &[
        "The log is empty. Block sizes are powers of two. A fixed image is not larger than a chunk, for which the format documentation and MS-VHDX differ.",
        "Both image headers and both region tables are valid. Blocks of an undefined or unmapped state are only in images without a parent.",
    ],
    facets: &[
        Facet { name: "image", work: Work::Random(1000, 10000), case: image },
        Facet { name: "parents", work: Work::Random(150, 1500), case: parents },
        Facet { name: "checksums", work: Work::Random(100, 1000), case: checksums },
        Facet { name: "damaged", work: Work::Random(1000, 10000), case: damaged },
    ],
};
