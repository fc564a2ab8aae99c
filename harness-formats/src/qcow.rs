//! QCOW images: clusters of three versions, with backing files.

use crate::common::*;
use keramics_core::DataStream;
use keramics_formats::qcow::{QcowFile, QcowImage};
use keramics_formats::PathComponent;
use pbt::*;

struct Layer {
    image: Sparse,
    /// What the layer shows.
    shows: Sparse,
    cluster: u64,
    marks: Vec<u64>,
    hot: Vec<(u64, u64)>,
}

/// What a layer can have in place of data.
#[derive(Clone, Copy, PartialEq)]
enum Extra {
    None,
    Compressed,
}

fn layer(g: &mut Gen, backing: Option<(&str, &Sparse)>, extra: Extra) -> Layer {
    let version = *g.pick(&[1u64, 2, 2, 3, 3]);
    let bits = *g.pick(&[9u32, 9, 10, 12, 16]);
    let cluster = 1u64 << bits;
    let references_bits = if version == 1 { g.range(6, 13) as u32 } else { bits - 3 };
    let references = 1u64 << references_bits;
    let span = cluster * references;
    let mut size = match g.below_or(6) {
        0 => g.below_or(4 * cluster),
        1 => span * g.below_or(4) + g.below_or(2 * cluster),
        2 => g.below_or(span * 5),
        3 => g.below_or(1 << 40).min(span * 3000),
        4 => g.below_or(100 * cluster),
        _ if g.chance(1, 6) => span * g.range(60_000, 200_000) + g.below_or(span),
        _ => g.below_or(100 * cluster),
    };
    if let (Some((_, below)), true) = (backing, g.bool()) {
        size = below.size;
        if size / span > 4000 {
            size = span * 4000;
        }
    }
    if g.chance(3, 4) {
        size &= !511;
    }
    let clusters = size.div_ceil(cluster);
    let tables = size.div_ceil(span);
    g.class_if(tables > 65536, "level 1 table of more than 65536 references");
    let mut shows = match backing {
        Some((_, below)) => {
            let mut s = below.slice(0, size.min(below.size));
            s.size = size;
            s
        }
        None => Sparse::new(size),
    };
    let mut marks = Vec::new();
    // Which clusters.
    let mut wanted: Vec<u64> = Vec::new();
    if clusters > 0 {
        let n = g.usize(0, if bits >= 12 { 6 } else { 14 });
        let mut near = g.below_or(clusters - 1);
        for _ in 0..n {
            near = match g.below_or(5) {
                0 => near,
                1 => clusters - 1,
                2 => g.below_or(clusters - 1),
                3 => (near / references * references + g.below_or(1) * references).saturating_sub(g.below_or(1)).min(clusters - 1),
                _ => (near + 1).min(clusters - 1),
            };
            wanted.push(near);
        }
        wanted.sort();
        wanted.dedup();
    }
    let mut image = Sparse::new(0);
    let mut hot = vec![(0, if version == 1 { 48 } else { 112 })];
    let mut header = vec![0u8; 112];
    header.at(0, b"QFI\xfb");
    header.set_be(4, version, 4);
    let mut name_at = match version {
        1 => 48,
        2 => 72,
        _ => *g.pick(&[104u64, 112]),
    };
    if version == 3 {
        header.set_be(72, g.below_or(1), 8);
        header.set_be(80, g.below_or(1), 8);
        header.set_be(88, g.below_or(1), 8);
        header.set_be(96, 4, 4);
        header.set_be(100, name_at, 4);
        name_at += 8;
    }
    let mut body = vec![0u8; 0];
    if let Some((name, _)) = backing {
        let at = name_at + 8 * g.below_or(3);
        body.resize(at as usize, 0);
        body.extend_from_slice(name.as_bytes());
        header.set_be(8, at, 8);
        header.set_be(16, name.len() as u64, 4);
    }
    match version {
        1 => {
            header.set_be(20, g.u32() as u64, 4);
            header.set_be(24, size, 8);
            header[32] = bits as u8;
            header[33] = references_bits as u8;
            header[48..].fill(0);
        }
        _ => {
            header.set_be(20, bits as u64, 4);
            header.set_be(24, size, 8);
            header.set_be(36, tables + g.below_or(2), 4);
        }
    }
    // Places in the file.
    let mut next = 1u64;
    let area = |g: &mut Gen, next: &mut u64, count: u64| {
        *next += g.below_or(2);
        if g.chance(1, 40) {
            *next += g.below_or(1 << 42) / cluster;
        }
        let at = *next;
        *next += count;
        at * cluster
    };
    let copied = |g: &mut Gen| if version > 1 && g.bool() { 1u64 << 63 } else { 0 };
    let level1_at = area(g, &mut next, (tables * 8 + 32).div_ceil(cluster));
    let mut level1 = vec![0u8; (tables * 8 + 16) as usize];
    let mut present: Vec<u64> = wanted.iter().map(|c| c / references).collect();
    if tables > 0 && g.bool() {
        present.push(g.below_or(tables - 1));
    }
    present.sort();
    present.dedup();
    let mut level2s: Vec<(u64, u64, Vec<u8>)> = Vec::new();
    for t in &present {
        let at = area(g, &mut next, (references * 8).div_ceil(cluster));
        level1.set_be((t * 8) as usize, at | copied(g), 8);
        level2s.push((*t, at, vec![0u8; (references * 8) as usize]));
        hot.push((level1_at + t * 8, 8));
    }
    // In any order.
    let mut order = wanted.clone();
    for i in (1..order.len()).rev() {
        order.swap(i, g.usize(0, i));
    }
    for c in &order {
        let table = level2s.iter_mut().find(|t| t.0 == c / references).unwrap();
        let slot = (c % references * 8) as usize;
        let left = (size - c * cluster).min(cluster) as usize;
        marks.push(c * cluster);
        hot.push((table.1 + slot as u64, 8));
        let zero = version == 3 && g.chance(1, 5);
        let at = if zero && g.bool() { 0 } else { area(g, &mut next, 1) };
        let mut entry = at;
        if at != 0 {
            let data = content(g, cluster as usize);
            image.put(at, &data);
            entry |= copied(g);
            if !zero {
                shows.poke(c * cluster, &data[..left]);
            }
            if extra == Extra::Compressed && g.bool() && !zero {
                // One stored block of deflate, in a descriptor by the version.
                let mut packed = vec![1u8];
                packed.extend_from_slice(&(cluster as u16).to_le_bytes());
                packed.extend_from_slice(&(!(cluster as u16)).to_le_bytes());
                packed.extend_from_slice(&data);
                next += 1;
                image.put(at, &packed);
                entry = if version == 1 {
                    at | 1 << 63 | (packed.len() as u64 & (cluster - 1)) << (63 - bits)
                } else {
                    at | 1 << 62 | (cluster / 512) << (62 - (bits - 8))
                };
                g.class("compressed cluster");
            }
        }
        if zero {
            entry |= 1;
            shows.poke(c * cluster, &vec![0; left]);
            g.class("cluster that reads as zeros");
        }
        table.2.set_be(slot, entry, 8);
    }
    image.put(0, &header[..if version == 1 { 48 } else { 104 }]);
    if body.len() > 112 || backing.is_some() {
        let from = if version == 1 { 48 } else if version == 2 { 72 } else { 104 };
        image.put(from, &body[(from as usize).min(body.len())..]);
    }
    header.set_be(40, level1_at, 8);
    image.put(40, &header[40..48]);
    image.put(level1_at, &level1);
    for (_, at, data) in &level2s {
        image.put(*at, data);
    }
    image.size = image.size.max(next * cluster);
    g.class_if(next * cluster > 1 << 32, "clusters beyond 4 GiB");
    for t in &present {
        marks.push(t * span);
        marks.push(((t + 1) * span).min(size));
    }
    marks.retain(|m| *m <= size);
    g.class(match version {
        1 => "version 1",
        2 => "version 2",
        _ => "version 3",
    });
    g.class_if(present.len() < tables as usize, "a level 2 table is absent");
    Layer { image, shows, cluster, marks, hot }
}

fn layers(g: &mut Gen, extra: Extra) -> Vec<Layer> {
    let n = *g.pick(&[1usize, 1, 2, 3]);
    let mut out: Vec<Layer> = Vec::new();
    for i in 0..n {
        let name = format!("layer{}.qcow2", i as i64 - 1);
        let shows = out.last().map(|l| l.shows.clone());
        let l = layer(g, shows.as_ref().map(|s| (name.as_str(), s)), extra);
        g.class_if(shows.as_ref().is_some_and(|s| s.size < l.shows.size), "backing file is smaller");
        out.push(l);
    }
    out
}

fn folder(layers: &[Layer]) -> Folder {
    Folder::of(layers.iter().enumerate().map(|(i, l)| (format!("layer{}.qcow2", i), l.image.clone())).collect())
}

fn image(g: &mut Gen) -> CaseResult {
    let layers = layers(g, Extra::None);
    g.note(|| {
        layers
            .iter()
            .map(|l| format!("layer of {} with clusters of {}, marks {:?}", l.shows.size, l.cluster, l.marks))
            .collect::<Vec<_>>()
            .join("; ")
    });
    if layers.iter().any(|l| l.marks.len() > 2) {
        g.nontrivial();
    }
    g.class_if(layers.len() > 1, "backing file");
    let top = format!("layer{}.qcow2", layers.len() - 1);
    let mut image = QcowImage::new();
    if let Err(e) = image.open(&folder(&layers).resolver(), &PathComponent::from(&top)) {
        return fail(format!("a valid image is rejected: {}", e.to_string()));
    }
    check_eq!(image.get_number_of_layers(), layers.len(), "number of layers");
    let rounds = g.usize(1, 3);
    for _ in 0..rounds {
        let i = g.usize(0, layers.len() - 1);
        let l = &layers[i];
        let shown = match image.get_layer_by_index(i) {
            Ok(l) => l,
            Err(e) => return fail(e.to_string()),
        };
        let mut shown = shown.write().unwrap();
        check_stream(g, &format!("layer {}", i), &mut *shown, &l.shows, l.cluster, &l.marks)?;
    }
    if layers[layers.len() - 1].shows.size <= 1 << 18 {
        let shown = image.get_layer_by_index(layers.len() - 1).unwrap();
        let piece = g.usize(1, 1 << 16).max(2000);
        check_all("top layer", &mut *shown.write().unwrap(), &layers[layers.len() - 1].shows, piece)?;
    }
    Ok(())
}

/// Compressed clusters are read, or refused.
fn compressed(g: &mut Gen) -> CaseResult {
    let l = layer(g, None, Extra::Compressed);
    g.nontrivial();
    let mut file = QcowFile::new();
    if file.read_data_stream(&l.image.stream()).is_err() {
        return Ok(());
    }
    for m in &l.marks {
        let want = l.shows.get(*m, l.cluster as usize);
        let mut buffer = vec![0u8; want.len()];
        if let Ok(n) = file.read_at_position(&mut buffer, std::io::SeekFrom::Start(*m)) {
            check_eq!(n, want.len(), "count at {}", m);
            check!(buffer == want, "cluster at {}: {}", m, difference(&buffer, &want));
        }
    }
    Ok(())
}

fn damaged(g: &mut Gen) -> CaseResult {
    let extra = if g.chance(1, 4) { Extra::Compressed } else { Extra::None };
    let mut layers = layers(g, extra);
    let i = g.usize(0, layers.len() - 1);
    let l = &mut layers[i];
    damage(g, &mut l.image, &l.hot);
    g.nontrivial();
    let top = format!("layer{}.qcow2", layers.len() - 1);
    let mut image = QcowImage::new();
    if image.open(&folder(&layers).resolver(), &PathComponent::from(&top)).is_ok() {
        g.class("accepted");
        for i in 0..image.get_number_of_layers() {
            let shown = image.get_layer_by_index(i).unwrap();
            let mut shown = shown.write().unwrap();
            touch(g, &mut *shown);
            for m in layers.get(i).map(|l| &l.marks[..]).unwrap_or(&[]) {
                let mut buffer = vec![0; 700];
                let _ = shown.read_at_position(&mut buffer, std::io::SeekFrom::Start(*m));
            }
        }
    }
    Ok(())
}

/// Backing files in a circle are refused.
fn circle(g: &mut Gen) -> CaseResult {
    let n = g.usize(1, 3);
    let mut layers = Vec::new();
    for i in 0..n {
        let name = format!("layer{}.qcow2", (i + 1) % n);
        layers.push(layer(g, Some((&name, &Sparse::new(4096))), Extra::None));
    }
    g.nontrivial();
    g.note(|| format!("circle of {}", n));
    let mut image = QcowImage::new();
    check!(image.open(&folder(&layers).resolver(), &PathComponent::from("layer0.qcow2")).is_err(), "a circle of {} backing files is accepted", n);
    Ok(())
}

pub static C43: Property = Property {
    id: "C43",
    rule: "an image with more than two marks (allocated clusters, ends of tables); compressed and damaged images all count",
    assumptions: &[
        "Backing files are QCOW images without encryption, in the folder of the image, named in ASCII.",
        "Compressed clusters are refused at this commit; what is read instead has to be right.",
    ],
    facets: &[
        Facet { name: "image", work: Work::Random(2000, 20000), case: image },
        Facet { name: "compressed", work: Work::Random(300, 3000), case: compressed },
        Facet { name: "circle", work: Work::Random(100, 1000), case: circle },
        Facet { name: "damaged", work: Work::Random(2000, 20000), case: damaged },
    ],
};
