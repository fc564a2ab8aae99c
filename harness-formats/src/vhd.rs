//! VHD images: fixed, dynamic, and differential on top of others.

use crate::common::*;
use keramics_core::DataStream;
use keramics_formats::vhd::VhdImage;
use keramics_formats::PathComponent;
use pbt::*;

struct Layer {
    image: Sparse,
    shows: Sparse,
    block: u64,
    identifier: [u8; 16],
    marks: Vec<u64>,
    hot: Vec<(u64, u64)>,
    kind: &'static str,
}

fn sum(data: &[u8]) -> u64 {
    !data.iter().fold(0u32, |s, b| s.wrapping_add(*b as u32)) as u64
}

fn footer(size: u64, next: u64, kind: u64, identifier: &[u8; 16]) -> Vec<u8> {
    let mut f = vec![0u8; 512];
    f.at(0, b"conectix");
    f.set_be(8, 2, 4);
    f.set_be(12, 0x10000, 4);
    f.set_be(16, next, 8);
    f.at(28, b"win ");
    f.at(36, b"Wi2k");
    f.set_be(40, size, 8);
    f.set_be(48, size, 8);
    f.set_be(60, kind, 4);
    f.at(68, identifier);
    let s = sum(&f);
    f.set_be(64, s, 4);
    f
}

fn fixed(g: &mut Gen) -> Layer {
    if g.chance(1, 6) {
        return large_fixed(g);
    }
    let size = 512 * g.below_or(400);
    let data = content(g, size as usize);
    let identifier = identifier(g);
    let mut image = Sparse::of(data.clone());
    image.put(size, &footer(size, u64::MAX, 2, &identifier));
    Layer { image, shows: Sparse::of(data), block: 4096, identifier, marks: Vec::new(), hot: vec![(size, 84)], kind: "fixed" }
}

fn large_fixed(g: &mut Gen) -> Layer {
    let size = 512 * (400 + g.below_or(1 << 32));
    let identifier = identifier(g);
    let mut shows = Sparse::new(size);
    let mut marks = Vec::new();
    for _ in 0..4 {
        let n = g.usize(1, 2000);
        let at = near(g, size - n as u64, 4096, &[]);
        shows.put(at, &content(g, n));
        marks.push(at);
    }
    let mut image = shows.slice(0, size);
    image.put(size, &footer(size, u64::MAX, 2, &identifier));
    g.class_if(size > 1 << 32, "fixed, of more than 4 GiB");
    Layer { image, shows, block: 4096, identifier, marks, hot: vec![(size, 84)], kind: "fixed" }
}

fn identifier(g: &mut Gen) -> [u8; 16] {
    let mut i = [1u8; 16];
    i.set_le(0, g.u64(), 8);
    i
}

fn sparse(g: &mut Gen, below: Option<(&str, &Layer)>) -> Layer {
    let block = 512u64 << *g.pick(&[3u32, 3, 4, 5, 8, 10, 12, 13]);
    let sectors = block / 512;
    let mut size = match g.below_or(4) {
        0 => 512 * g.below_or(3 * sectors),
        1 => block * g.below_or(6) + 512 * g.below_or(3),
        2 => 512 * g.below_or(1 << 30).min(block * 8000 / 512),
        3 => 512 * g.below_or(40 * sectors),
        _ if g.chance(1, 6) => (block * g.range(60_000, 200_000) + 512 * g.below_or(sectors)).min(2040 << 30),
        _ => 512 * g.below_or(40 * sectors),
    };
    if let Some((_, below)) = below {
        size = below.shows.size.min(block * 200_000);
        if g.chance(1, 6) {
            size += 512 * g.below_or(2 * sectors);
        }
    }
    let blocks = size.div_ceil(block);
    g.class_if(blocks > 65536, "more than 65536 blocks");
    let slots = blocks + g.below_or(3) * g.below_or(1);
    let mut shows = match below {
        Some((_, below)) => {
            let mut s = below.shows.slice(0, size.min(below.shows.size));
            s.size = size;
            s
        }
        None => Sparse::new(size),
    };
    let mut wanted = Vec::new();
    if blocks > 0 {
        let n = g.usize(0, if block > 1 << 17 { 3 } else { 8 });
        let mut at = g.below_or(blocks - 1);
        for _ in 0..n {
            wanted.push(at);
            at = match g.below_or(3) {
                0 => g.below_or(blocks - 1),
                1 => blocks - 1,
                _ => (at + 1).min(blocks - 1),
            };
        }
        wanted.sort();
        wanted.dedup();
    }
    for i in (1..wanted.len()).rev() {
        wanted.swap(i, g.usize(0, i));
    }
    let identifier = identifier(g);
    let header_at = 512 * (1 + g.below_or(3));
    let table_at = header_at + 1024 + 512 * g.below_or(3);
    let mut next = (table_at + slots * 4).div_ceil(512) + g.below_or(3);
    let mut table = vec![0xffu8; (slots * 4) as usize];
    let bitmap_size = (block / 4096).div_ceil(512) * 512;
    let mut image = Sparse::new(0);
    let mut marks = Vec::new();
    let mut hot = vec![(header_at, 60), (table_at, slots * 4)];
    for b in &wanted {
        if g.chance(1, 30) {
            next = next.max(g.below_or(0xfff0_0000));
        }
        let at = next * 512;
        g.class_if(at > 1 << 32, "block beyond 4 GiB");
        table.set_be((b * 4) as usize, next, 4);
        next += (bitmap_size + block) / 512 + g.below_or(1);
        let mut bitmap = vec![0u8; bitmap_size as usize];
        if g.chance(1, 4) {
            // The padding does not stand for sectors.
            bitmap[(sectors / 8) as usize..].fill(g.u8());
        }
        // Runs of sectors.
        let all = g.chance(1, 4);
        let mut s = if all || g.bool() { 0 } else { g.below_or(sectors) };
        marks.push(b * block);
        while s < sectors {
            let n = if all { sectors } else { (1 + up_to(g, &[0u64, 3, 9, sectors])).min(sectors - s) };
            for i in s..s + n {
                bitmap[(i / 8) as usize] |= 0x80 >> (i % 8);
            }
            let data = content(g, (n * 512) as usize);
            image.put(at + bitmap_size + s * 512, &data);
            let left = (n * 512).min(size.saturating_sub(b * block + s * 512)) as usize;
            shows.poke(b * block + s * 512, &data[..left]);
            marks.push(b * block + s * 512);
            marks.push(b * block + (s + n) * 512);
            s += n + 1 + up_to(g, &[0u64, 3, 9, sectors]);
            if marks.len() > 60 {
                break;
            }
        }
        image.put(at, &bitmap);
        hot.push((at, bitmap_size));
        // What is not set is not to be read.
        if !all && g.chance(1, 3) {
            if let Some(free) = (0..sectors).find(|i| bitmap[(i / 8) as usize] & 0x80 >> (i % 8) == 0) {
                image.put(at + bitmap_size + free * 512, &[0xee; 512]);
                g.class("data in a sector that is not set");
            }
        }
    }
    let mut header = vec![0u8; 1024];
    header.at(0, b"cxsparse");
    header.set_be(8, u64::MAX, 8);
    header.set_be(16, table_at, 8);
    header.set_be(24, 0x10000, 4);
    header.set_be(28, slots, 4);
    header.set_be(32, block, 4);
    if let Some((name, below)) = below {
        header.at(40, &below.identifier);
        let path = format!("{}{}", g.pick(&["", "C:\\Images\\", ".\\", "\\\\host\\share\\a b\\"]), name);
        for (i, c) in path.encode_utf16().enumerate() {
            header.set_be(64 + 2 * i, c as u64, 2);
        }
    }
    let s = sum(&header);
    header.set_be(36, s, 4);
    let f = footer(size, header_at, if below.is_some() { 4 } else { 3 }, &identifier);
    image.put(0, &f);
    image.put(header_at, &header);
    image.put(table_at, &table);
    let end = next * 512;
    image.put(end, &f);
    hot.push((end, 84));
    marks.retain(|m| *m <= size);
    g.class_if(block < 1 << 21, "block smaller than its bitmap sectors");
    Layer { image, shows, block, identifier, marks, hot, kind: if below.is_some() { "differential" } else { "dynamic" } }
}

fn layers(g: &mut Gen) -> Vec<Layer> {
    let n = *g.pick(&[1usize, 1, 2, 3]);
    let mut out: Vec<Layer> = Vec::new();
    for i in 0..n {
        let l = if i > 0 {
            let name = format!("layer{}.vhd", i - 1);
            sparse(g, Some((&name, &out[i - 1])))
        } else if g.chance(1, 4) {
            fixed(g)
        } else {
            sparse(g, None)
        };
        g.class(l.kind);
        out.push(l);
    }
    out
}

fn folder(layers: &[Layer]) -> Folder {
    Folder::of(layers.iter().enumerate().map(|(i, l)| (format!("layer{}.vhd", i), l.image.clone())).collect())
}

fn open(layers: &[Layer]) -> Result<VhdImage, String> {
    let mut image = VhdImage::new();
    let top = format!("layer{}.vhd", layers.len() - 1);
    image.open(&folder(layers).resolver(), &PathComponent::from(&top)).map_err(|e| e.to_string())?;
    Ok(image)
}

fn image(g: &mut Gen) -> CaseResult {
    let layers = layers(g);
    g.note(|| {
        layers
            .iter()
            .map(|l| format!("{} of {} with blocks of {}, marks {:?}", l.kind, l.shows.size, l.block, l.marks))
            .collect::<Vec<_>>()
            .join("; ")
    });
    if layers.iter().any(|l| l.marks.len() > 2) {
        g.nontrivial();
    }
    let image = match open(&layers) {
        Ok(image) => image,
        Err(e) => return fail(format!("a valid image is rejected: {}", e)),
    };
    check_eq!(image.get_number_of_layers(), layers.len(), "number of layers");
    let rounds = g.usize(1, 3);
    for _ in 0..rounds {
        let i = g.usize(0, layers.len() - 1);
        let l = &layers[i];
        let shown = match image.get_layer_by_index(i) {
            Ok(l) => l,
            Err(e) => return fail(e.to_string()),
        };
        let mut shown = shown.write().unwrap();
        check_stream(g, &format!("layer {}", i), &mut *shown, &l.shows, l.block, &l.marks)?;
    }
    let top = &layers[layers.len() - 1];
    if top.shows.size <= 1 << 18 {
        let shown = image.get_layer_by_index(layers.len() - 1).unwrap();
        let piece = g.usize(1, 1 << 16).max(2000);
        check_all("top layer", &mut *shown.write().unwrap(), &top.shows, piece)?;
    }
    Ok(())
}

/// A parent that is not the one the image was made on is refused, and so is a circle.
fn parents(g: &mut Gen) -> CaseResult {
    let base = sparse(g, None);
    let child = sparse(g, Some(("layer0.vhd", &base)));
    g.nontrivial();
    if g.bool() {
        let other = sparse(g, None);
        if other.identifier == base.identifier {
            return discard();
        }
        check!(open(&[other, child]).is_err(), "another parent is accepted");
    } else {
        let mut base = base;
        let id = child.identifier;
        let circle = sparse(g, Some(("layer1.vhd", &Layer { identifier: id, ..child_like(&child) })));
        base.image = circle.image;
        check!(open(&[base, child]).is_err(), "a circle of parents is accepted");
    }
    Ok(())
}

fn child_like(l: &Layer) -> Layer {
    Layer { image: Sparse::new(0), shows: l.shows.clone(), block: l.block, identifier: l.identifier, marks: Vec::new(), hot: Vec::new(), kind: l.kind }
}

fn damaged(g: &mut Gen) -> CaseResult {
    let mut layers = layers(g);
    let i = g.usize(0, layers.len() - 1);
    let l = &mut layers[i];
    damage(g, &mut l.image, &l.hot);
    g.nontrivial();
    if let Ok(image) = open(&layers) {
        g.class("accepted");
        for i in 0..image.get_number_of_layers() {
            let shown = image.get_layer_by_index(i).unwrap();
            let mut shown = shown.write().unwrap();
            touch(g, &mut *shown);
            for m in layers.get(i).map(|l| &l.marks[..]).unwrap_or(&[]) {
                let mut buffer = vec![0; 700];
                let _ = shown.read_at_position(&mut buffer, std::io::SeekFrom::Start(*m));
            }
        }
    }
    Ok(())
}

pub static C44: Property = Property {
    id: "C44",
    rule: "an image with more than two marks (runs of sectors, blocks); refused and damaged images all count",
    assumptions: &["Blocks of 4 KiB to 4 MiB, a power of two; the parent is a VHD in the folder of the image."],
    facets: &[
        Facet { name: "image", work: Work::Random(1500, 15000), case: image },
        Facet { name: "parents", work: Work::Random(200, 2000), case: parents },
        Facet { name: "damaged", work: Work::Random(1500, 15000), case: damaged },
    ],
};
